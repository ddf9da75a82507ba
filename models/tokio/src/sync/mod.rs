pub mod mpsc;
pub mod oneshot;
pub mod semaphore;
pub use semaphore::{AcquireError, OwnedSemaphorePermit, Semaphore, SemaphorePermit, TryAcquireError};

/// Unsynchronised cell: the models are single-threaded.
pub(crate) struct Cell<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Send for Cell<T> {}
unsafe impl<T> Sync for Cell<T> {}
impl<T> Cell<T> {
    pub(crate) const fn new(t: T) -> Self {
        Cell(std::cell::UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// Where a model keeps values of any type: whole words, so that the verifier sees through a value
/// that was put down and picked up again (memory from the allocator is opaque bytes to it).
#[derive(Clone, Copy)]
pub(crate) struct Words([u64; 4]);
impl Words {
    pub(crate) const NEW: Words = Words([0; 4]);
    pub(crate) fn put<T>(&mut self, t: T) {
        assert!(std::mem::size_of::<T>() <= 32, "model capacity exceeded");
        unsafe {
            let mut u = Padded { w: [0; 4] };
            u.t = std::mem::ManuallyDrop::new(t);
            self.0 = u.w;
        }
    }
    /// Only once per `put`.
    pub(crate) unsafe fn get<T>(&self) -> T {
        let u = Padded::<T> { w: self.0 };
        unsafe { std::mem::ManuallyDrop::into_inner(u.t) }
    }
}
union Padded<T> {
    w: [u64; 4],
    t: std::mem::ManuallyDrop<T>,
}
