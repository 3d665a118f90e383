//! Model of the crate for symbolic execution: the real source with only the named primitive
//! replaced by a call to an uninterpreted function (see /verif/DESIGN.md).
#![no_std]
pub use cipher::{self, consts, KeyInit, StreamCipher};

use cipher::{
    generic_array::{ArrayLength, GenericArray},
    Block, BlockSizeUser, KeySizeUser, ParBlocksSizeUser, StreamBackend, StreamCipherCore,
    StreamCipherCoreWrapper, StreamClosure,
};

use core::marker::PhantomData;


/// RC4 key type (8–2048 bits/ 1-256 bytes)
///
/// Implemented as an alias for [`GenericArray`].
pub type Key<KeySize> = GenericArray<u8, KeySize>;

type BlockSize = consts::U1;

/// The RC4 stream cipher initialized with key.
pub type Rc4<KeySize> = StreamCipherCoreWrapper<Rc4Core<KeySize>>;

/// Core state of the RC4 stream cipher initialized only with key.
pub struct Rc4Core<KeySize> {
    state: Rc4State,

    key_size: PhantomData<KeySize>,
}

impl<KeySize> KeySizeUser for Rc4Core<KeySize>
where
    KeySize: ArrayLength<u8>,
{
    type KeySize = KeySize;
}

impl<KeySize> KeyInit for Rc4Core<KeySize>
where
    KeySize: ArrayLength<u8>,
{
    fn new(key: &Key<KeySize>) -> Self {
        Self {
            state: Rc4State::new(key),
            key_size: Default::default(),
        }
    }
}

impl<KeySize> BlockSizeUser for Rc4Core<KeySize> {
    type BlockSize = BlockSize;
}

impl<KeySize> StreamCipherCore for Rc4Core<KeySize> {
    #[inline(always)]
    fn remaining_blocks(&self) -> Option<usize> {
        None
    }

    fn process_with_backend(&mut self, f: impl StreamClosure<BlockSize = Self::BlockSize>) {
        f.call(&mut Backend(&mut self.state));
    }
}


struct Backend<'a>(&'a mut Rc4State);

impl<'a> BlockSizeUser for Backend<'a> {
    type BlockSize = BlockSize;
}

impl<'a> ParBlocksSizeUser for Backend<'a> {
    type ParBlocksSize = consts::U1;
}

impl<'a> StreamBackend for Backend<'a> {
    #[inline(always)]
    fn gen_ks_block(&mut self, block: &mut Block<Self>) {
        block[0] = self.0.prga();
    }
}


extern "C" {
    /// Sixteen bytes of the key stream of `key`, starting at byte 16 * chunk.
    fn vp_rc4(key: *const u8, len: usize, chunk: u32, out: *mut u8);
}

#[derive(Clone)]
struct Rc4State {
    key: [u8; 256],
    len: usize,
    pos: usize,
    buf: [u8; 16],
}

impl Rc4State {
    fn new(key: &[u8]) -> Self {
        let mut state = Self { key: [0; 256], len: key.len(), pos: 0, buf: [0; 16] };
        state.key[..key.len()].copy_from_slice(key);
        state
    }

    fn prga(&mut self) -> u8 {
        if self.pos % 16 == 0 {
            unsafe { vp_rc4(self.key.as_ptr(), self.len, (self.pos / 16) as u32, self.buf.as_mut_ptr()) };
        }
        let b = self.buf[self.pos % 16];
        self.pos += 1;
        b
    }
}
