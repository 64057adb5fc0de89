//! Stand-in for tiny-keccak in the symbolic build: same API, but a hash is one
//! opaque (uninterpreted) function of algorithm, absorbed bytes and length.
#![no_std]

extern "C" {
    fn vp_hash(alg: u32, out: *mut u8, outlen: usize, inp: *const u8, n: usize);
}

const CAP: usize = 4096;

#[derive(Clone)]
struct Buf {
    alg: u32,
    n: usize,
    b: [u8; CAP],
}
impl Buf {
    fn new(alg: u32) -> Buf {
        Buf { alg, n: 0, b: [0; CAP] }
    }
    fn put(&mut self, x: &[u8]) {
        self.b[self.n..self.n + x.len()].copy_from_slice(x);
        self.n += x.len();
    }
    fn get(&self, out: &mut [u8]) {
        unsafe { vp_hash(self.alg, out.as_mut_ptr(), out.len(), self.b.as_ptr(), self.n) }
    }
}

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}

macro_rules! hash {
    ($name:ident, $base:expr, $($f:ident $bits:expr),*) => {
        #[derive(Clone)]
        pub struct $name(Buf);
        impl $name {
            $(pub fn $f() -> $name { $name(Buf::new($base + $bits)) })*
        }
        impl Hasher for $name {
            fn update(&mut self, input: &[u8]) { self.0.put(input) }
            fn finalize(self, output: &mut [u8]) { self.0.get(output) }
        }
    };
}
hash!(Sha3, 0, v224 224, v256 256, v384 384, v512 512);
hash!(Keccak, 1000, v224 224, v256 256, v384 384, v512 512);
hash!(Shake, 2000, v128 128, v256 256);
