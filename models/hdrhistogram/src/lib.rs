//! Assumed contract of hdrhistogram: an exact multiset of recorded values (at
//! most `MAX` of them in the model); a quantile is the recorded value of that
//! rank (the real crate rounds it up to the end of its bucket, by at most 0.1%).
use std::marker::PhantomData;
pub const MAX: usize = 6;

pub trait Counter: Copy {}
impl Counter for u8 {}
impl Counter for u16 {}
impl Counter for u32 {}
impl Counter for u64 {}

#[derive(Debug, PartialEq, Eq)]
pub enum CreationError {
    SigFigExceedsMax,
}
impl std::fmt::Display for CreationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("CreationError")
    }
}
impl std::error::Error for CreationError {}
#[derive(Debug, PartialEq, Eq)]
pub enum RecordError {
    ValueOutOfRangeResizeDisabled,
}
impl std::fmt::Display for RecordError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RecordError")
    }
}
impl std::error::Error for RecordError {}

#[derive(Clone)]
pub struct Histogram<T: Counter> {
    v: [u64; MAX],
    n: usize,
    /// values counted but not stored (ghost: arbitrary history before the harness)
    extra: u64,
    _t: PhantomData<T>,
}
impl<T: Counter> std::fmt::Debug for Histogram<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Histogram")
    }
}
impl<T: Counter> Histogram<T> {
    pub fn new(sigfig: u8) -> Result<Self, CreationError> {
        if sigfig > 5 {
            return Err(CreationError::SigFigExceedsMax);
        }
        Ok(Histogram { v: [0; MAX], n: 0, extra: 0, _t: PhantomData })
    }
    pub fn new_with_max(_high: u64, sigfig: u8) -> Result<Self, CreationError> {
        Self::new(sigfig)
    }
    pub fn new_with_bounds(_low: u64, _high: u64, sigfig: u8) -> Result<Self, CreationError> {
        Self::new(sigfig)
    }
    pub fn auto(&mut self, _: bool) {}
    pub fn record(&mut self, x: u64) -> Result<(), RecordError> {
        assert!(self.n < MAX, "model capacity exceeded");
        self.v[self.n] = x;
        self.n += 1;
        Ok(())
    }
    pub fn record_n(&mut self, x: u64, n: T) -> Result<(), RecordError> {
        let _ = n;
        self.record(x)
    }
    pub fn saturating_record(&mut self, x: u64) {
        let _ = self.record(x);
    }
    pub fn clear(&mut self) {
        self.n = 0;
        self.extra = 0;
    }
    pub fn reset(&mut self) {
        self.clear()
    }
    pub fn len(&self) -> u64 {
        self.n as u64 + self.extra
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// Number of stored values equal to `x` (ghost).
    pub fn ghost_count(&self, x: u64) -> usize {
        let mut c = 0;
        let mut i = 0;
        while i < MAX {
            if i < self.n && self.v[i] == x {
                c += 1;
            }
            i += 1;
        }
        c
    }
    /// Ghost: an arbitrary number of earlier observations.
    pub fn ghost_set_extra(&mut self, n: u64) {
        self.extra = n;
    }
    pub fn value_at_percentile(&self, p: f64) -> u64 {
        self.value_at_quantile(p / 100.0)
    }
    pub fn value_at_quantile(&self, q: f64) -> u64 {
        let q = if q > 1.0 { 1.0 } else { q };
        let mut want = (q * self.n as f64).ceil() as u64;
        if want == 0 {
            want = 1;
        }
        // the smallest stored x with at least `want` stored values <= x
        let mut best: u64 = 0;
        let mut found = false;
        let mut i = 0;
        while i < MAX {
            if i < self.n {
                let x = self.v[i];
                let mut c = 0u64;
                let mut j = 0;
                while j < MAX {
                    if j < self.n && self.v[j] <= x {
                        c += 1;
                    }
                    j += 1;
                }
                if c >= want && (!found || x < best) {
                    best = x;
                    found = true;
                }
            }
            i += 1;
        }
        best
    }
    pub fn max(&self) -> u64 {
        let mut m = 0;
        let mut i = 0;
        while i < MAX {
            if i < self.n && self.v[i] > m {
                m = self.v[i];
            }
            i += 1;
        }
        m
    }
}
