//! Assumed contracts of the parts of tokio that tower uses, written as small
//! executable models.  Everything here is single-threaded and is part of the
//! trusted base of the proofs (see DESIGN.md).
#![allow(clippy::all)]
pub mod io;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;
pub mod ghost;
pub mod runtime {
    /// Handle to the (only) runtime.
    #[derive(Debug, Clone)]
    pub struct Handle(());
    impl Handle {
        pub fn current() -> Handle {
            Handle(())
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: std::future::Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}
