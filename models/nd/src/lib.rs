//! Nondeterministic values.  Under Kani every `any` is a fresh symbolic value;
//! natively the values come from a replay file (the verifier's counterexample)
//! or, for the generator's own smoke runs, from a seeded generator.
/// Whether waking `w` reaches the task under test: its waker, and those a future set derives from
/// it, carry data; a waker made up elsewhere (`noop`) carries none.
pub fn is_task(w: &std::task::Waker) -> bool {
    !w.data().is_null()
}
pub trait Nd: Sized {
    fn any() -> Self;
}

#[cfg(kani)]
mod imp {
    use super::Nd;
    macro_rules! prim { ($($t:ty),*) => { $(impl Nd for $t { #[inline(never)] fn any() -> Self { kani::any() } })* } }
    prim!(bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use super::Nd;
    use std::cell::RefCell;
    pub enum Src {
        Bytes(Vec<Vec<u8>>, usize),
        Rng(u64),
    }
    thread_local! { static SRC: RefCell<Option<Src>> = const { RefCell::new(None) }; }
    fn load() -> Src {
        if let Ok(p) = std::env::var("ND_REPLAY") {
            let text = std::fs::read_to_string(p).expect("replay file");
            let mut v = Vec::new();
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix("value:") {
                    v.push(rest.split_whitespace().map(|x| x.parse().unwrap()).collect());
                }
            }
            Src::Bytes(v, 0)
        } else {
            let s = std::env::var("ND_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            Src::Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1)
        }
    }
    pub fn bytes(n: usize) -> Vec<u8> {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            match s.get_or_insert_with(load) {
                Src::Bytes(v, i) => {
                    // The counterexample may leave trailing values out: they are free.
                    let mut b = v.get(*i).cloned().unwrap_or_default();
                    *i += 1;
                    b.resize(n, 0);
                    b
                }
                Src::Rng(x) => {
                    let mut next = || {
                        *x ^= *x << 13;
                        *x ^= *x >> 7;
                        *x ^= *x << 17;
                        *x
                    };
                    let small = next() % 4 != 0;
                    let mut b: Vec<u8> = Vec::new();
                    for i in 0..n {
                        let r = (next() >> 24) as u8;
                        b.push(if small { if i == 0 { r % 4 } else { 0 } } else { r });
                    }
                    b
                }
            }
        })
    }
    impl Nd for bool {
        fn any() -> bool {
            bytes(1)[0] & 1 == 1
        }
    }
    macro_rules! prim { ($($t:ty),*) => { $(impl Nd for $t { fn any() -> Self {
        let b = bytes(std::mem::size_of::<$t>());
        let mut a = [0u8; std::mem::size_of::<$t>()];
        a.copy_from_slice(&b);
        <$t>::from_le_bytes(a)
    } })* } }
    prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    pub struct Discard;
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Discard)
        }
    }
}
pub use imp::*;

pub fn any<T: Nd>() -> T {
    T::any()
}
/// An arbitrary value below `n`.
pub fn below(n: usize) -> usize {
    let x: u8 = any();
    assume((x as usize) < n);
    x as usize
}
/// Reachability guard: the check requires every cover to be satisfiable.
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:expr) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        let _ = $c;
    };
}
/// A named obligation.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        assert!($c, $m)
    };
}

/// Mutable ghost statics.  Kani 0.68 lets a constant whose initial bytes equal
/// those of a static share the static's memory, so a later write to the static
/// would change the constant; the tag makes the bytes of each static unique.
#[repr(C)]
pub struct Static<T> {
    tag: u64,
    pub v: T,
}
impl<T> Static<T> {
    pub const fn new(tag: u64, v: T) -> Self {
        Static { tag, v }
    }
    pub fn tag(&self) -> u64 {
        self.tag
    }
}
pub const fn tag(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3);
        i += 1;
    }
    h
}
#[macro_export]
macro_rules! ghost {
    ($(#[$m:meta])* $vis:vis static $n:ident: $t:ty = $e:expr;) => {
        $(#[$m])* $vis static mut $n: $crate::Static<$t> =
            $crate::Static::new(const { $crate::tag(concat!(module_path!(), "::", stringify!($n))) }, $e);
    };
}
