//! Diagnostics are assumed to have no effect on behaviour.  Macro arguments are
//! not evaluated (as with tracing when no subscriber is enabled).
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! event { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! span { ($($t:tt)*) => { $crate::Span::none() }; }
#[macro_export]
macro_rules! trace_span { ($($t:tt)*) => { $crate::Span::none() }; }
#[macro_export]
macro_rules! debug_span { ($($t:tt)*) => { $crate::Span::none() }; }
#[macro_export]
macro_rules! info_span { ($($t:tt)*) => { $crate::Span::none() }; }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Level;
impl Level {
    pub const TRACE: Level = Level;
    pub const DEBUG: Level = Level;
    pub const INFO: Level = Level;
    pub const WARN: Level = Level;
    pub const ERROR: Level = Level;
}
#[derive(Clone, Debug, Default)]
pub struct Span(());
pub struct Entered<'a>(&'a Span);
impl Drop for Entered<'_> {
    fn drop(&mut self) {}
}
pub struct EnteredSpan(());
impl Span {
    pub const fn none() -> Span {
        Span(())
    }
    pub const fn current() -> Span {
        Span(())
    }
    pub fn enter(&self) -> Entered<'_> {
        Entered(self)
    }
    pub fn entered(self) -> EnteredSpan {
        EnteredSpan(())
    }
    pub fn in_scope<F: FnOnce() -> T, T>(&self, f: F) -> T {
        f()
    }
    pub fn or_current(self) -> Span {
        self
    }
}
pub trait Instrument: Sized {
    fn instrument(self, _: Span) -> instrument::Instrumented<Self> {
        instrument::Instrumented(self)
    }
    fn in_current_span(self) -> instrument::Instrumented<Self> {
        instrument::Instrumented(self)
    }
}
impl<T> Instrument for T {}
pub mod instrument {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use super::Instrument;
    #[derive(Debug, Clone)]
    pub struct Instrumented<T>(pub(crate) T);
    impl<T> Instrumented<T> {
        pub fn into_inner(self) -> T {
            self.0
        }
        pub fn inner(&self) -> &T {
            &self.0
        }
    }
    impl<T: Future> Future for Instrumented<T> {
        type Output = T::Output;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T::Output> {
            unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
        }
    }
}
