//! Memory between inaccessible pages.
use libc::{c_void, mmap, mprotect, munmap, MAP_ANONYMOUS, MAP_FAILED, MAP_NORESERVE, MAP_PRIVATE,
           PROT_NONE, PROT_READ, PROT_WRITE};

const PAGE: usize = 4096;
const GUARD: usize = 1 << 22;

pub struct Arena {
    map: *mut u8,
    pub data: *mut u8,
    pub size: usize,
}

/// Where in its arena a buffer is put
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    /// the byte after the buffer is inaccessible
    End,
    /// the byte before the buffer is inaccessible
    Start,
    /// that many bytes after the beginning of a page, accessible memory around
    Mid(usize),
}

impl Arena {
    pub fn new(size: usize) -> Arena {
        let size = size.div_ceil(PAGE) * PAGE;
        unsafe {
            let map = mmap(std::ptr::null_mut(), size + 2 * GUARD, PROT_NONE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            assert!(map != MAP_FAILED, "mmap of {size}");
            let data = map.cast::<u8>().add(GUARD);
            assert_eq!(mprotect(data.cast::<c_void>(), size, PROT_READ | PROT_WRITE), 0);
            Arena { map: map.cast(), data, size }
        }
    }
    /// From now on, the memory can only be read
    pub fn freeze(&self) {
        unsafe { assert_eq!(mprotect(self.data.cast::<c_void>(), self.size, PROT_READ), 0) };
    }
    /// Gives the memory back; it reads as zero afterwards
    pub fn forget(&self) {
        unsafe { libc::madvise(self.data.cast::<c_void>(), self.size, libc::MADV_DONTNEED) };
    }
    pub fn place(&self, len: usize, place: Place) -> *mut u8 {
        assert!(len <= self.size, "arena of {} too small for {len}", self.size);
        unsafe {
            match place {
                Place::End => self.data.add(self.size - len),
                Place::Start => self.data,
                Place::Mid(k) => {
                    assert!(k + len <= self.size);
                    self.data.add(k)
                }
            }
        }
    }
    pub fn bytes(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.data, self.size) }
    }
    /// The bytes up to `n` around a buffer, as far as they are accessible
    pub fn around(&self, p: *const u8, len: usize, n: usize) -> (usize, usize) {
        let off = p as usize - self.data as usize;
        (off.saturating_sub(n), (off + len + n).min(self.size))
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { munmap(self.map.cast::<c_void>(), self.size + 2 * GUARD) };
    }
}

/// Address space nothing may touch
pub fn phantom(size: usize) -> *mut u8 {
    unsafe {
        let map = mmap(std::ptr::null_mut(), size, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        assert!(map != MAP_FAILED, "mmap of {size}");
        map.cast()
    }
}

/// A lot of accessible memory that is only backed where it is touched
pub fn sparse(size: usize) -> Option<*mut u8> {
    unsafe {
        let map = mmap(std::ptr::null_mut(), size + 2 * GUARD, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if map == MAP_FAILED {
            return None;
        }
        let data = map.cast::<u8>().add(GUARD);
        if mprotect(data.cast::<c_void>(), size, PROT_READ | PROT_WRITE) != 0 {
            return None;
        }
        Some(data)
    }
}

pub fn unmap_sparse(data: *mut u8, size: usize) {
    unsafe { munmap(data.sub(GUARD).cast::<c_void>(), size + 2 * GUARD) };
}

/// Places for the arguments of C calls: each ends where memory ends, and what is
/// only to be read can only be read
pub struct Tight {
    rw: [*mut u8; 8],
    ro: [*mut u8; 8],
}

impl Tight {
    pub fn new() -> Tight {
        unsafe {
            let fd = libc::memfd_create(c"tight".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, 8 * PAGE as i64) == 0, "memfd");
            // inaccessible pages between the others
            let area = |prot: i32| -> [*mut u8; 8] {
                let a = phantom(17 * PAGE);
                std::array::from_fn(|k| {
                    let at = a.add((2 * k + 1) * PAGE);
                    let m = mmap(at.cast(), PAGE, prot, libc::MAP_SHARED | libc::MAP_FIXED, fd, (k * PAGE) as i64);
                    assert!(m != MAP_FAILED);
                    at
                })
            };
            let t = Tight { rw: area(PROT_READ | PROT_WRITE), ro: area(PROT_READ) };
            libc::close(fd);
            t
        }
    }
    /// A place that can be written
    pub fn place<T: Copy>(&self, slot: usize, v: &[T]) -> *mut T {
        let n = std::mem::size_of_val(v);
        assert!(n <= PAGE);
        unsafe {
            let at = self.rw[slot].add(PAGE - n).cast::<T>();
            std::ptr::copy_nonoverlapping(v.as_ptr(), at, v.len());
            at
        }
    }
    /// A place that can only be read
    pub fn constant<T: Copy>(&self, slot: usize, v: &[T]) -> *const T {
        let n = std::mem::size_of_val(v);
        self.place(slot, v);
        unsafe { self.ro[slot].add(PAGE - n).cast::<T>().cast_const() }
    }
}
