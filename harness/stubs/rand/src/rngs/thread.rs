// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! Thread-local random number generator


use {RngCore, CryptoRng, Error};

// Rationale for using `UnsafeCell` in `ThreadRng`:
//
// Previously we used a `RefCell`, with an overhead of ~15%. There will only
// ever be one mutable reference to the interior of the `UnsafeCell`, because
// we only have such a reference inside `next_u32`, `next_u64`, etc. Within a
// single thread (which is the definition of `ThreadRng`), there will only ever
// be one of these methods active at a time.
//
// A possible scenario where there could be multiple mutable references is if
// `ThreadRng` is used inside `next_u32` and co. But the implementation is
// completely under our control. We just have to ensure none of them use
// `ThreadRng` internally, which is nonsensical anyway. We should also never run
// `ThreadRng` in destructors of its implementation, which is also nonsensical.
//
// The additional `Rc` is not strictly neccesary, and could be removed. For now
// it ensures `ThreadRng` stays `!Send` and `!Sync`, and implements `Clone`.


// Number of generated bytes after which to reseed `TreadRng`.
//
// The time it takes to reseed HC-128 is roughly equivalent to generating 7 KiB.
// We pick a treshold here that is large enough to not reduce the average
// performance too much, but also small enough to not make reseeding something
// that basically never happens.


/// The type returned by [`thread_rng`], essentially just a reference to the
/// PRNG in thread-local memory.
///
/// `ThreadRng` uses [`ReseedingRng`] wrapping the same PRNG as [`StdRng`],
/// which is reseeded after generating 32 MiB of random data. A single instance
/// is cached per thread and the returned `ThreadRng` is a reference to this
/// instance — hence `ThreadRng` is neither `Send` nor `Sync` but is safe to use
/// within a single thread. This RNG is seeded and reseeded via [`EntropyRng`]
/// as required.
///
/// Note that the reseeding is done as an extra precaution against entropy
/// leaks and is in theory unnecessary — to predict `ThreadRng`'s output, an
/// attacker would have to either determine most of the RNG's seed or internal
/// state, or crack the algorithm used.
///
/// Like [`StdRng`], `ThreadRng` is a cryptographically secure PRNG. The current
/// algorithm used is [HC-128], which is an array-based PRNG that trades memory
/// usage for better performance. This makes it similar to ISAAC, the algorithm
/// used in `ThreadRng` before rand 0.5.
///
/// Cloning this handle just produces a new reference to the same thread-local
/// generator.
/// 
/// [`ReseedingRng`]: crate::rngs::adapter::ReseedingRng
/// [`StdRng`]: crate::rngs::StdRng
/// [HC-128]: rand_hc::Hc128Rng
#[derive(Clone, Debug)]
pub struct ThreadRng {
    // not Send nor Sync, as the original
    rng: *mut u8,
}

#[cfg(panic = "unwind")]
extern "C-unwind" { fn sym_u8s(p: *mut u8, n: usize); }
#[cfg(panic = "abort")]
extern "C" { fn sym_u8s(p: *mut u8, n: usize); }

/// Everything drawn so far from the (stubbed) random source: `len` bytes of `buf`.
pub struct Drawn { pub len: usize, pub buf: [u8; 4096] }
static mut DRAWN: Drawn = Drawn { len: 0, buf: [0; 4096] };

/// The record of the draws (verification stub).
pub fn drawn() -> &'static [u8] { unsafe { let d = &*(&raw const DRAWN); &d.buf[..d.len] } }
/// Forget the record (verification stub).
pub fn drawn_reset() { unsafe { (*(&raw mut DRAWN)).len = 0; } }

static mut LEFT: usize = usize::MAX;
static mut SEED: u64 = 1;
/// Only this many more draws are arbitrary (verification stub).
pub fn arbitrary_draws(n: usize) { unsafe { LEFT = n } }

fn draw(dest: &mut [u8]) {
    unsafe {
        if LEFT == 0 {
            // long histories: the arbitrary draws are used up, the others are fixed and all different
            for d in dest.iter_mut() { SEED = SEED.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *d = (SEED >> 40) as u8; }
        } else {
            LEFT -= 1;
            sym_u8s(dest.as_mut_ptr(), dest.len());
        }
        let d = &mut *(&raw mut DRAWN);
        for i in 0..dest.len() { if d.len < 4096 { d.buf[d.len] = dest[i]; d.len += 1; } }
    }
}

/// The thread-local random source: every byte is an unconstrained symbolic value.
pub fn thread_rng() -> ThreadRng { ThreadRng { rng: ::std::ptr::null_mut() } }

impl Default for ThreadRng {
    fn default() -> ThreadRng { ::prelude::thread_rng() }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0u8; 4]; draw(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0u8; 8]; draw(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { draw(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { draw(dest); Ok(()) }
}

impl CryptoRng for ThreadRng {}


#[cfg(test)]
mod test {
    #[test]
    fn test_thread_rng() {
        use Rng;
        let mut r = ::thread_rng();
        r.gen::<i32>();
        assert_eq!(r.gen_range(0, 1), 0);
    }
}
