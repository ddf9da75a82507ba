impl<T> RateLimit<T> {
    /// The state: `Ok((until, rem))` while calls are left, `Err(deadline of the timer)` when used up.
    #[allow(missing_docs)]
    pub fn verif_state(&self) -> Result<(Instant, u64), Instant> {
        match self.state {
            State::Ready { until, rem } => Ok((until, rem)),
            State::Limited => Err(self.sleep.deadline()),
        }
    }
    #[allow(missing_docs)]
    pub fn verif_set_ready(&mut self, at: Instant, n: u64) {
        if let State::Ready { until, rem } = &mut self.state {
            *until = at;
            *rem = n;
        }
    }
    #[allow(missing_docs)]
    pub fn verif_set_limited(&mut self, at: Instant) {
        self.state = State::Limited;
        self.sleep.as_mut().reset(at);
    }
}
