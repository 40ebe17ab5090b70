//! Interpreter of op-scripts: eight bytes per operation, one transcript entry per operation.
//! An entry is a little-endian u16 length and that many bytes; length 0xffff: not available in this build.
#![allow(clippy::missing_safety_doc, deprecated)]
mod vm;
pub use vm::*;

/// Returns the transcript's length, or `usize::MAX` when `cap` is too small.
#[no_mangle]
pub unsafe extern "C" fn vm_run(script: *const u8, n: usize, out: *mut u8, cap: usize, compat: bool) -> usize {
    let v = run(core::slice::from_raw_parts(script, n), &[], compat);
    if v.len() > cap {
        return usize::MAX;
    }
    core::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len());
    v.len()
}
