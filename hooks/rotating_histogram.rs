impl RotatingHistogram {
    #[allow(missing_docs)]
    pub fn verif_set(&mut self, last: Instant, read: u64, write: u64) {
        self.last_rotation = last;
        self.read.ghost_set_extra(read);
        self.write.ghost_set_extra(write);
    }
    #[allow(missing_docs)]
    pub fn verif_last(&self) -> Instant {
        self.last_rotation
    }
    #[allow(missing_docs)]
    pub fn verif_lens(&self) -> (u64, u64) {
        (self.read.len(), self.write.len())
    }
}
