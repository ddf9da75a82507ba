impl<R> ExponentialBackoff<R> {
    /// Puts the backoff after `n` delays.
    #[allow(missing_docs)]
    pub fn verif_set_iterations(&mut self, n: u32) {
        self.iterations = n;
    }
    #[allow(missing_docs)]
    pub fn verif_iterations(&self) -> u32 {
        self.iterations
    }
}
