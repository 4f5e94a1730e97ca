//! Entropy seam: std's HashMap keys, `rand`'s thread RNG and `from_os_rng` all
//! end in the libc symbol `getrandom`. We define it, so operating-system
//! randomness becomes a per-thread stream owned by the simulated run.
use std::cell::Cell;

thread_local! {
    static STREAM: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Sets the stream operating-system randomness is drawn from on this thread.
pub fn reseed(seed: u64) {
    STREAM.set(seed ^ 0x5EED_0F05_0E17_2090);
}
pub fn calls() -> u64 {
    CALLS.get()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    if len == 0 {
        return 0;
    }
    let mut s = STREAM.get();
    let mut i = 0;
    while i < len {
        let v = splitmix(&mut s).to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), n);
        i += n;
    }
    STREAM.set(s);
    CALLS.set(CALLS.get() + 1);
    len as isize
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xCBF2_9CE4_8422_2325u64;
    for &p in parts {
        let mut s = h ^ p;
        h = splitmix(&mut s).rotate_left(17) ^ h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut s = h;
    splitmix(&mut s)
}
