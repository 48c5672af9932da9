//! Valgrind client requests (no-ops outside valgrind): memcheck's definedness tracking is used as a
//! taint monitor. Magic sequences from valgrind.h / memcheck.h.
#[cfg(all(target_arch = "x86_64", not(miri)))]
pub fn request(default: usize, req: usize, a: usize, b: usize, c: usize) -> usize {
    let args: [usize; 6] = [req, a, b, c, 0, 0];
    let mut r = default;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, options(nostack)
        );
    }
    r
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
pub fn request(default: usize, _req: usize, _a: usize, _b: usize, _c: usize) -> usize {
    default
}
pub fn running() -> bool {
    request(0, 0x1001, 0, 0, 0) != 0
}
pub fn count_errors() -> usize {
    request(0, 0x1201, 0, 0, 0)
}
const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;
pub fn undefined<T: ?Sized>(t: &T) {
    request(0, MC + 1, t as *const T as *const u8 as usize, std::mem::size_of_val(t), 0);
}
pub fn defined<T: ?Sized>(t: &T) {
    request(0, MC + 2, t as *const T as *const u8 as usize, std::mem::size_of_val(t), 0);
}
/// V bits of a byte range: 0 = all defined
pub fn vbits(p: &[u8], out: &mut [u8]) -> usize {
    request(0, MC + 8, p.as_ptr() as usize, out.as_mut_ptr() as usize, p.len())
}
const CT: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;
/// callgrind: forget the counts so far
pub fn cost_zero() {
    request(0, CT + 1, 0, 0, 0);
}
/// callgrind: write the counts since, under this name (NUL-terminated)
pub fn cost_dump(name: &std::ffi::CStr) {
    request(0, CT + 3, name.as_ptr() as usize, 0, 0);
}
