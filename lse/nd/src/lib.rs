//! What the code cannot know: bytes which the executor makes symbolic.
#![no_std]
extern "C" {
    /// `kind` 0: an input of the harness; 1: randomness; 2: an abstracted result.
    pub fn vp_any(ptr: *mut u8, len: usize, kind: u32);
    pub fn vp_assume(c: u8);
    /// The abstracted result of operation `op` on two operands: unconstrained, except that between `vp_record` and `vp_replay`
    /// results are kept, and given again after `vp_replay` to the same sequence of operations on the same operands.
    pub fn vp_apply(ptr: *mut u8, len: usize, kind: u32, op: u32, a: *const u8, an: usize, b: *const u8, bn: usize);
}
/// The result of operation `op` on `a` and `b`.
pub fn apply(out: &mut [u8], kind: u32, op: u32, a: &[u8], b: &[u8]) {
    unsafe { vp_apply(out.as_mut_ptr(), out.len(), kind, op, a.as_ptr(), a.len(), b.as_ptr(), b.len()) }
}
pub fn apply32(op: u32, a: &[u8], b: &[u8]) -> [u8; 32] { let mut r = [0u8; 32]; apply(&mut r, 2, op, a, b); r }
pub fn fill(b: &mut [u8], kind: u32) { unsafe { vp_any(b.as_mut_ptr(), b.len(), kind) } }
pub fn byte() -> u8 { let mut b = [0u8; 1]; fill(&mut b, 2); b[0] }
pub fn assume(c: bool) { unsafe { vp_assume(c as u8) } }

static mut COORDINATES: bool = false;
/// From here on points are known by one coordinate, an integer modulo the group order (see the stand-in of the group).
pub fn coordinates() { unsafe { COORDINATES = true } }
pub fn in_coordinates() -> bool { unsafe { COORDINATES } }
