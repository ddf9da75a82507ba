//! Ghost state shared with the harnesses.
use std::task::Waker;

/// Number of times a modelled resource stored the caller's waker while answering Pending.
nd::ghost! { pub static REGISTERED: u32 = 0; }
/// Number of times a modelled resource woke a stored waker.
nd::ghost! { pub static WOKEN: u32 = 0; }

pub fn registered() -> u32 {
    unsafe { REGISTERED.v }
}
/// Keeps the last waker, as every tokio resource does (here: whether it is that of the task).
#[derive(Default)]
pub struct WakerCell(bool);
impl WakerCell {
    pub const fn new() -> Self {
        WakerCell(false)
    }
    pub fn register(&mut self, w: &Waker) {
        self.0 = nd::is_task(w);
        if self.0 {
            unsafe { REGISTERED.v += 1 };
        }
    }
    pub fn wake(&mut self) {
        if self.0 {
            self.0 = false;
            unsafe { WOKEN.v += 1 };
        }
    }
    pub fn is_set(&self) -> bool {
        self.0
    }
    pub fn clear(&mut self) {
        self.0 = false;
    }
}
impl std::fmt::Debug for WakerCell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("WakerCell")
    }
}
