//! Stand-in for the aes crate in the symbolic build: same traits, but a block
//! encryption is one opaque (uninterpreted) function of key and block.
#![no_std]

pub use cipher::{self, BlockCipher, BlockDecrypt, BlockEncrypt, NewBlockCipher};
use cipher::consts::{U1, U16, U24, U32};
use cipher::generic_array::GenericArray;

pub type Block = GenericArray<u8, U16>;
pub type ParBlocks = GenericArray<Block, cipher::consts::U8>;
pub const BLOCK_SIZE: usize = 16;

extern "C" {
    fn vp_aes(bits: u32, dir: u32, out: *mut u8, key: *const u8, inp: *const u8);
}

macro_rules! aes {
    ($name:ident, $ks:ty, $n:expr) => {
        #[derive(Clone)]
        pub struct $name([u8; $n]);
        impl NewBlockCipher for $name {
            type KeySize = $ks;
            fn new(key: &GenericArray<u8, $ks>) -> Self {
                let mut k = [0u8; $n];
                k.copy_from_slice(key.as_slice());
                $name(k)
            }
        }
        impl BlockCipher for $name {
            type BlockSize = U16;
            type ParBlocks = U1;
        }
        impl BlockEncrypt for $name {
            fn encrypt_block(&self, block: &mut Block) {
                let mut i = [0u8; 16];
                i.copy_from_slice(block.as_slice());
                unsafe { vp_aes(8 * $n, 0, block.as_mut_ptr(), self.0.as_ptr(), i.as_ptr()) }
            }
        }
        impl BlockDecrypt for $name {
            fn decrypt_block(&self, block: &mut Block) {
                let mut i = [0u8; 16];
                i.copy_from_slice(block.as_slice());
                unsafe { vp_aes(8 * $n, 1, block.as_mut_ptr(), self.0.as_ptr(), i.as_ptr()) }
            }
        }
    };
}
aes!(Aes128, U16, 16);
aes!(Aes192, U24, 24);
aes!(Aes256, U32, 32);
