//! Where the inputs live: exact-size heap blocks, or read-only pages fenced by inaccessible ones.

pub struct Arena {
    heap: Vec<*mut [u8]>,
    objs: Vec<*mut dyn std::any::Any>,
    maps: Vec<(usize, usize)>,
    drops: Vec<Box<dyn FnOnce()>>,
    sums: Vec<(usize, usize, u64)>,
}

fn sum(p: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in p.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100000001b3).rotate_left(29);
    }
    h
}

pub const PAGE: usize = 4096;

#[cfg(not(miri))]
fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("HARNESS-ERROR mmap failed");
            std::process::exit(3);
        }
        p as *mut u8
    }
}
#[cfg(not(miri))]
fn prot(p: *mut u8, len: usize, pr: i32) {
    unsafe {
        if libc::mprotect(p as *mut _, len, pr) != 0 {
            eprintln!("HARNESS-ERROR mprotect failed");
            std::process::exit(3);
        }
    }
}

impl Arena {
    pub fn new() -> Arena {
        Arena { heap: vec![], objs: vec![], maps: vec![], drops: vec![], sums: vec![] }
    }
    pub fn reset(&mut self) {
        for d in self.drops.drain(..) {
            d();
        }
        for p in self.objs.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
        for p in self.heap.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
        self.sums.clear();
        #[cfg(not(miri))]
        for (p, n) in self.maps.drain(..) {
            unsafe { libc::munmap(p as *mut _, n) };
        }
    }
    /// exact-size heap block; `off` bytes of slack in front move the address off its alignment
    pub fn heap(&mut self, data: &[u8], off: usize) -> &'static [u8] {
        let mut v = Vec::with_capacity(off + data.len());
        v.resize(off, 0x5a);
        v.extend_from_slice(data);
        let b = Box::into_raw(v.into_boxed_slice());
        let p = b as *const u8;
        self.heap.push(b);
        let r: &'static [u8] = unsafe { std::slice::from_raw_parts(p.add(off), data.len()) };
        if self.sums.len() < 64 && data.len() < 1 << 16 {
            self.sums.push((r.as_ptr() as usize, r.len(), sum(r)));
        }
        r
    }
    pub fn boxed<T: 'static>(&mut self, t: T) -> &'static mut T {
        let p: *mut T = Box::into_raw(Box::new(t));
        self.objs.push(p as *mut dyn std::any::Any);
        unsafe { &mut *p }
    }
    #[cfg(miri)]
    pub fn guarded(&mut self, data: &[u8], _kind: usize, _extra: usize) -> &'static [u8] {
        self.heap(data, 0)
    }
    #[cfg(miri)]
    pub fn guarded_obj<T: 'static>(&mut self, t: T, _at_end: bool) -> &'static mut T {
        self.boxed(t)
    }
    #[cfg(not(miri))]
    pub fn guarded(&mut self, data: &[u8], kind: usize, extra: usize) -> &'static [u8] {
        let n = data.len();
        let pages = (n + extra + PAGE - 1) / PAGE + if n + extra == 0 { 1 } else { 0 };
        let total = (pages + 2) * PAGE;
        let base = map(total);
        self.maps.push((base as usize, total));
        unsafe {
            let lo = base.add(PAGE);
            prot(lo, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            let at = match kind {
                0..=6 => lo.add(pages * PAGE - n),           // flush with the end
                7 | 8 => lo,                                 // flush with the start
                _ => lo.add(extra),                          // at a chosen misalignment
            };
            std::ptr::copy_nonoverlapping(data.as_ptr(), at, n);
            // an empty slice may point to an inaccessible byte: nothing of it may be read
            prot(lo, pages * PAGE, if n == 0 { libc::PROT_NONE } else { libc::PROT_READ });
            std::slice::from_raw_parts(at, n)
        }
    }
    #[cfg(not(miri))]
    pub fn guarded_obj<T: 'static>(&mut self, t: T, at_end: bool) -> &'static mut T {
        let n = std::mem::size_of::<T>();
        let pages = (n + PAGE - 1) / PAGE;
        let total = (pages + 2) * PAGE;
        let base = map(total);
        self.maps.push((base as usize, total));
        unsafe {
            let lo = base.add(PAGE);
            prot(lo, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            let at = if at_end { lo.add(pages * PAGE - n) } else { lo } as *mut T;
            at.write(t);
            let a = at as usize;
            self.drops.push(Box::new(move || std::ptr::drop_in_place(a as *mut T)));
            &mut *at
        }
    }
    pub fn verify(&self) -> Result<(), String> {
        for (p, n, h) in &self.sums {
            let s = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
            if sum(s) != *h {
                return Err(format!("an input slice of {} bytes was modified", n));
            }
        }
        Ok(())
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        self.reset()
    }
}

/// A mapping of `len` bytes whose content repeats every `period` bytes, backed by `period` bytes of
/// memory: lets slices far above 4 GiB exist in a few MiB.
#[cfg(not(miri))]
pub struct Repeated {
    pub ptr: *const u8,
    pub len: usize,
    total: usize,
}
#[cfg(not(miri))]
unsafe impl Send for Repeated {}
#[cfg(not(miri))]
unsafe impl Sync for Repeated {}
#[cfg(not(miri))]
impl Repeated {
    pub fn new(len: usize, period: &[u8]) -> Repeated {
        assert!(period.len() % PAGE == 0 && !period.is_empty());
        unsafe {
            let fd = libc::memfd_create(c"rep".as_ptr(), 0);
            if fd < 0 || libc::ftruncate(fd, period.len() as _) != 0 {
                eprintln!("HARNESS-ERROR memfd");
                std::process::exit(3);
            }
            let w = libc::mmap(std::ptr::null_mut(), period.len(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(w != libc::MAP_FAILED);
            std::ptr::copy_nonoverlapping(period.as_ptr(), w as *mut u8, period.len());
            libc::munmap(w, period.len());
            let n = (len + period.len() - 1) / period.len();
            let total = n * period.len() + 2 * PAGE;
            let base = map(total);
            for i in 0..n {
                let at = base.add(PAGE + i * period.len());
                let p = libc::mmap(at as *mut _, period.len(), libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
                if p == libc::MAP_FAILED {
                    eprintln!("HARNESS-ERROR mmap of repetition {}", i);
                    std::process::exit(3);
                }
            }
            libc::close(fd);
            // content starts so that it ends flush with the guard page
            let start = base.add(PAGE + n * period.len() - len);
            Repeated { ptr: start, len, total }
        }
    }
    pub fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
#[cfg(not(miri))]
impl Drop for Repeated {
    fn drop(&mut self) {
        unsafe {
            let p = (self.ptr as usize + self.len + PAGE - self.total) as *mut libc::c_void;
            libc::munmap(p, self.total);
        }
    }
}
