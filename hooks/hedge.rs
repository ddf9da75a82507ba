#[allow(missing_docs, missing_debug_implementations)]
pub struct VerifHistogram(RotatingHistogram);
#[allow(missing_docs)]
impl VerifHistogram {
    pub fn new(period: Duration) -> Self {
        VerifHistogram(RotatingHistogram::new(period))
    }
    /// Last rotation, number of values read and written.
    pub fn set(&mut self, last: tokio::time::Instant, read: u64, write: u64) {
        self.0.verif_set(last, read, write)
    }
    pub fn last(&self) -> tokio::time::Instant {
        self.0.verif_last()
    }
    pub fn lens(&self) -> (u64, u64) {
        self.0.verif_lens()
    }
    pub fn read_len(&mut self) -> u64 {
        self.0.read().len()
    }
    pub fn record(&mut self, v: u64) {
        self.0.write().record(v).unwrap()
    }
}
#[allow(missing_docs)]
pub fn verif_millis(d: Duration) -> u64 {
    millis(d)
}
