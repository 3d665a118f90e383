//! Model of the crate for symbolic execution: the real source with only the named primitive
//! replaced by a call to an uninterpreted function (see /verif/DESIGN.md).
#![no_std]
pub use cipher;

use cipher::{consts::U8, BlockCipher, Key, KeyInit, KeySizeUser};

extern "C" {
    fn vp_des(key: *const u8, input: *const u8, output: *mut u8);
}

/// Single-DES encryption; only the encryption direction is modelled.
#[derive(Clone)]
pub struct Des {
    key: [u8; 8],
}

impl BlockCipher for Des {}

impl KeySizeUser for Des {
    type KeySize = U8;
}

impl KeyInit for Des {
    #[inline]
    fn new(key: &Key<Self>) -> Self {
        Des { key: (*key).into() }
    }
}

impl Des {
    fn encrypt(&self, data: u64) -> u64 {
        let i = data.to_be_bytes();
        let mut o = [0u8; 8];
        unsafe { vp_des(self.key.as_ptr(), i.as_ptr(), o.as_mut_ptr()) };
        u64::from_be_bytes(o)
    }
    fn decrypt(&self, _data: u64) -> u64 {
        panic!("DES decryption is not modelled")
    }
}

cipher::impl_simple_block_encdec!(
    Des, U8, cipher, block,
    encrypt: {
        let mut data = u64::from_be_bytes(block.clone_in().into());
        data = cipher.encrypt(data);
        block.get_out().copy_from_slice(&data.to_be_bytes());
    }
    decrypt: {
        let mut data = u64::from_be_bytes(block.clone_in().into());
        data = cipher.decrypt(data);
        block.get_out().copy_from_slice(&data.to_be_bytes());
    }
);
