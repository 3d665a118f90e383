//! getrandom 0.2.17 with the operating-system source replaced by the harness's recorded source.
#![no_std]
#[cfg(feature = "std")]
extern crate std;

#[macro_use]
extern crate cfg_if;

use core::mem::MaybeUninit;

mod error;
mod util;
mod util_libc {
    #![allow(dead_code)]
}
#[cfg(feature = "std")]
mod error_impls;
pub use crate::error::Error;

extern "C-unwind" {
    fn vp_getrandom(dest: *mut u8, len: usize);
}

mod imp {
    use super::*;
    pub fn getrandom_inner(dest: &mut [MaybeUninit<u8>]) -> Result<(), Error> {
        unsafe { vp_getrandom(dest.as_mut_ptr() as *mut u8, dest.len()) };
        Ok(())
    }
}

#[inline]
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    getrandom_uninit(unsafe { util::slice_as_uninit_mut(dest) })?;
    Ok(())
}

#[inline]
pub fn getrandom_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    if !dest.is_empty() {
        imp::getrandom_inner(dest)?;
    }
    Ok(unsafe { util::slice_assume_init_mut(dest) })
}
