impl TpsBudget {
    /// Puts the budget in a given state: amounts not yet in a slot, amounts per slot
    /// (`index` is the slot to commit to next, the one before it the latest), start of the window.
    #[allow(missing_docs)]
    pub fn verif_set(&mut self, writer: isize, slots: [isize; 10], index: usize, time: Instant) {
        *self.writer.get_mut() = writer;
        let mut i = 0;
        while i < 10 {
            *self.slots[i].get_mut() = slots[i];
            i += 1;
        }
        let gen = self.generation.get_mut().expect("generation lock");
        gen.index = index;
        gen.time = time;
    }
    #[allow(missing_docs)]
    pub fn verif_config(&mut self, reserve: isize, window: Duration, deposit: isize, withdraw: isize) {
        self.reserve = reserve;
        self.window = window;
        self.deposit_amount = deposit;
        self.withdraw_amount = withdraw;
    }
    /// reserve, window, deposit, withdraw
    #[allow(missing_docs)]
    pub fn verif_amounts(&self) -> (isize, Duration, isize, isize) {
        (self.reserve, self.window, self.deposit_amount, self.withdraw_amount)
    }
}
