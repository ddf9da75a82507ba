//! C13 random helpers.
//! hooks: rng
use crate::env::*;
use crate::proof;
use std::hash::{BuildHasher, Hasher};
use tower::util::rng::{HasherRng, Rng};

/// An arbitrary generator.
struct Any {
    draws: u32,
    first: u64,
    last: u64,
}
impl Any {
    fn new() -> Any {
        Any { draws: 0, first: 0, last: 0 }
    }
}
impl Rng for Any {
    fn next_u64(&mut self) -> u64 {
        self.last = any();
        if self.draws == 0 {
            self.first = self.last;
        }
        self.draws += 1;
        self.last
    }
}

//@ proof fns="Rng::next_range" note="every generator output and every nonempty range"
proof!(next_range, 3, {
    let (a, b): (u64, u64) = (any(), any());
    assume(a < b);
    let mut r = Any::new();
    let x = r.next_range(a..b);
    assert!(a <= x && x < b, "the value lies in the range");
    assert!(r.draws == 1, "one draw");
});
//@ proof fns="Rng::next_range" note="every value of the range is produced by some output"
proof!(next_range_onto, 3, {
    struct Given(u64);
    impl Rng for Given {
        fn next_u64(&mut self) -> u64 {
            self.0
        }
    }
    let (a, b, x): (u64, u64, u64) = (any(), any(), any());
    assume(a <= x && x < b);
    let got = Given(x - a).next_range(a..b);
    assert!(got == x, "every value of the range can be produced");
});
//@ proof fns="Rng::next_f64" note="every generator output"
proof!(next_f64, 3, {
    let mut r = Any::new();
    let x = r.next_f64();
    assert!(0.0 <= x && x < 1.0, "the value lies in [0, 1)");
    assert!(r.draws == 1, "one draw");
});
//@ proof fns="<Box<R> as Rng>::next_u64"
proof!(boxed, 3, {
    let mut r: Box<dyn Rng> = Box::new(Any::new());
    let x = r.next_f64();
    assert!(0.0 <= x && x < 1.0, "the value lies in [0, 1)");
    let (a, b): (u64, u64) = (any(), any());
    assume(a < b);
    let x = r.next_range(a..b);
    assert!(a <= x && x < b, "the value lies in the range");
    let mut r = Box::new(Any::new());
    let x = Rng::next_u64(&mut r);
    assert!(x == r.last && r.draws == 1, "a boxed generator is that generator");
});

/// An arbitrary hasher.
struct H;
nd::ghost! { static WROTE: [u64; 2] = [0; 2]; }
nd::ghost! { static N_WROTE: usize = 0; }
impl BuildHasher for H {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H
    }
}
impl Hasher for H {
    fn write(&mut self, _: &[u8]) {
        assert!(false, "the counter is hashed as a u64");
    }
    fn write_u64(&mut self, x: u64) {
        unsafe {
            WROTE.v[N_WROTE.v] = x;
            N_WROTE.v += 1;
        }
    }
    fn finish(&self) -> u64 {
        any()
    }
}
//@ proof hook fns="HasherRng::next_u64" note="every counter value, the last one included"
#[cfg(tower_verif)]
proof!(hasher_rng, 3, {
    let mut r = HasherRng::with_hasher(H);
    let c: u64 = any();
    *r.verif_counter() = c;
    let _ = r.next_u64();
    let _ = r.next_u64();
    unsafe {
        assert!(N_WROTE.v == 2 && WROTE.v[0] != WROTE.v[1], "the counter advances at every draw");
    }
    assert!(*r.verif_counter() == c.wrapping_add(2), "the counter advances at every draw");
});
//@ proof fns="HasherRng::next_u64, HasherRng::with_hasher" note="the first three draws"
proof!(hasher_rng_first, 3, {
    let mut r = HasherRng::with_hasher(H);
    let _ = r.next_u64();
    let _ = r.next_u64();
    unsafe {
        assert!(N_WROTE.v == 2 && WROTE.v[0] != WROTE.v[1], "the counter advances at every draw");
    }
});

//@ proof hook fns="sample_floyd2" note="every length of at least two and every generator output"
#[cfg(tower_verif)]
proof!(sample, 3, {
    let n: u64 = any();
    assume(n >= 2);
    let mut r = Any::new();
    let [a, b] = tower::util::rng::verif_sample(&mut r, n);
    assert!(a != b, "the indices are distinct");
    assert!(a < n && b < n, "both are within bounds");
});
//@ proof hook fns="sample_floyd2" note="for every pair of distinct indices (either order) there are generator outputs that produce it"
#[cfg(tower_verif)]
proof!(sample_onto, 3, {
    struct Two(u64, u64, u8);
    impl Rng for Two {
        fn next_u64(&mut self) -> u64 {
            self.2 += 1;
            if self.2 == 1 {
                self.0
            } else {
                self.1
            }
        }
    }
    let (n, i, j): (u64, u64, u64) = (any(), any(), any());
    assume(n >= 2 && i < n && j < n && i != j);
    // witnesses: as sets, {i, j} comes from one of the draws (i, j), (j, i), (min, min)
    let hit = |x: u64, y: u64| {
        let [a, b] = tower::util::rng::verif_sample(&mut Two(x, y, 0), n);
        (a == i && b == j) || (a == j && b == i)
    };
    assert!(hit(i, j) || hit(j, i) || hit(i, i) || hit(j, j), "every pair can be produced");
});
