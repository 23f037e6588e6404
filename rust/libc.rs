// Stand-in for the libc crate (not available offline): the types the programs use.
#![allow(non_camel_case_types)]
pub use std::ffi::c_void;
pub use std::os::raw::{c_char, c_double, c_float, c_int, c_long, c_short, c_uchar, c_uint, c_ulong, c_ushort};
pub type size_t = usize;
pub type ssize_t = isize;
