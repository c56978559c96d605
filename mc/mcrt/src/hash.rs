//! The standard library's hash maps are seeded from a thread local counter, so that the order in which
//! a map is iterated and dropped would differ between two runs of the same schedule. The counter is
//! set to a fixed value at the start of every execution.

use std::cell::Cell;
use std::collections::hash_map::RandomState;
use std::ffi::{c_char, c_int, c_void};

#[repr(C)]
struct PhdrInfo {
    addr: u64,
    name: *const c_char,
    phdr: *const Phdr,
    phnum: u16,
    adds: u64,
    subs: u64,
    tls_modid: usize,
    tls_data: *mut c_void,
}

#[repr(C)]
struct Phdr {
    p_type: u32,
    p_flags: u32,
    p_offset: u64,
    p_vaddr: u64,
    p_paddr: u64,
    p_filesz: u64,
    p_memsz: u64,
    p_align: u64,
}

extern "C" {
    fn dl_iterate_phdr(cb: extern "C" fn(*const PhdrInfo, usize, *mut c_void) -> c_int, data: *mut c_void) -> c_int;
}

#[derive(Default)]
struct Blocks(Vec<(usize, usize)>);

extern "C" fn collect(i: *const PhdrInfo, _: usize, data: *mut c_void) -> c_int {
    unsafe {
        let i = &*i;
        let out = &mut *(data as *mut Blocks);
        if !i.tls_data.is_null() {
            for k in 0..i.phnum as usize {
                let p = &*i.phdr.add(k);
                if p.p_type == 7 {
                    out.0.push((i.tls_data as usize, p.p_memsz as usize));
                }
            }
        }
    }
    0
}

fn keys() -> (u64, u64) {
    assert_eq!(std::mem::size_of::<RandomState>(), 16);
    unsafe { std::mem::transmute::<RandomState, (u64, u64)>(RandomState::new()) }
}

fn find() -> Option<*mut (u64, u64)> {
    let a = keys();
    let b = keys();
    // which of the two counts up
    let next = |x: (u64, u64)| if b.0 != a.0 { (x.0.wrapping_add(1), x.1) } else { (x.0, x.1.wrapping_add(1)) };
    if next(a) != b {
        return None;
    }
    let want = next(b);
    let mut blocks = Blocks::default();
    unsafe { dl_iterate_phdr(collect, &mut blocks as *mut Blocks as *mut c_void) };
    for (p, n) in blocks.0 {
        let mut o = 0;
        while o + 16 <= n {
            let q = (p + o) as *mut (u64, u64);
            if unsafe { q.read_volatile() } == want {
                // is it really this?
                unsafe { q.write_volatile((11, 22)) };
                if keys() == (11, 22) {
                    return Some(q);
                }
                unsafe { q.write_volatile(want) };
            }
            o += 8;
        }
    }
    None
}

thread_local! {
    static PLACE: Cell<Option<Option<usize>>> = const { Cell::new(None) };
}

/// Seed the hash maps created from now on in this thread. False if that is not possible.
pub fn seed(n: u64) -> bool {
    let p = PLACE.with(|c| match c.get() {
        Some(p) => p,
        None => {
            let p = find().map(|p| p as usize);
            c.set(Some(p));
            p
        }
    });
    if let Some(p) = p {
        unsafe { (p as *mut (u64, u64)).write_volatile((n, 0x9e37_79b9_7f4a_7c15)) };
    }
    p.is_some()
}

#[cfg(test)]
mod tests {
    #[test]
    fn seeds() {
        assert!(super::seed(1));
        let a = super::keys();
        let b = super::keys();
        assert!(super::seed(1));
        assert_eq!((a, b), (super::keys(), super::keys()));
    }
}
