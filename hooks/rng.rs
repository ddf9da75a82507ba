#[allow(missing_docs)]
pub fn verif_sample<R: Rng>(rng: &mut R, length: u64) -> [u64; 2] {
    sample_floyd2(rng, length)
}
impl<H> HasherRng<H> {
    #[allow(missing_docs)]
    pub fn verif_counter(&mut self) -> &mut u64 {
        &mut self.counter
    }
}
