//! The interface between a harness and whatever runs it: the symbolic executor (which implements these
//! functions itself when it meets a call to them), or the native replay binary (which feeds them recorded values).

extern "C" {
    fn __sym_u(bits: u32, lo: u64, hi: u64) -> u64;
    fn __sym_i(bits: u32, lo: i64, hi: i64) -> i64;
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, id: u32);
    fn __sym_choose(n: u64) -> u64;
    fn __sym_param(i: u32) -> i64;
    fn __sym_reach(id: u32);
    fn __sym_observe(v: u64);
    fn __sym_allow_panic(b: bool);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_par_begin();
    fn __sym_par_task(t: u64);
    fn __sym_par_end();
}

/// An arbitrary unsigned value of `bits` bits in lo..=hi.
pub fn u(bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe { __sym_u(bits, lo, hi) }
}
pub fn any_u8() -> u8 {
    u(8, 0, 255) as u8
}
pub fn any_u16() -> u16 {
    u(16, 0, 0xffff) as u16
}
pub fn any_u32() -> u32 {
    u(32, 0, 0xffff_ffff) as u32
}
pub fn i16_in(lo: i64, hi: i64) -> i16 {
    unsafe { __sym_i(16, lo, hi) as i16 }
}
pub fn i32_in(lo: i64, hi: i64) -> i32 {
    unsafe { __sym_i(32, lo, hi) as i32 }
}
pub fn i64_in(lo: i64, hi: i64) -> i64 {
    unsafe { __sym_i(64, lo, hi) }
}
pub fn bytes(b: &mut [u8]) {
    unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
/// An assertion of the property. `id` names it in reports.
pub fn check(c: bool, id: u32) {
    unsafe { __sym_check(c, id) }
}
/// A nondeterministic choice in 0..n, explored by forking.
pub fn choose(n: u64) -> u64 {
    unsafe { __sym_choose(n) }
}
/// The i-th (concrete) parameter of the job.
pub fn param(i: u32) -> i64 {
    unsafe { __sym_param(i) }
}
/// A reachability witness: at least one path of the job has to come here.
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
/// A value compared between the symbolic executor and the native run when the encoding is validated.
pub fn observe(v: u64) {
    unsafe { __sym_observe(v) }
}
/// Panics end the path without a report while this is on (for calls outside the property).
pub fn allow_panic(b: bool) {
    unsafe { __sym_allow_panic(b) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
pub fn par_begin() {
    unsafe { __sym_par_begin() }
}
pub fn par_task(t: u64) {
    unsafe { __sym_par_task(t) }
}
pub fn par_end() {
    unsafe { __sym_par_end() }
}
