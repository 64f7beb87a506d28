//! The C library's functions at which a task may hand over, and the captured standard output.
use crate::*;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

unsafe fn real(slot: &AtomicUsize, name: &CStr) -> usize {
    let f = slot.load(Relaxed);
    if f != 0 {
        return f;
    }
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
    if f == 0 {
        libc::abort();
    }
    slot.store(f, Relaxed);
    f
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static F: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $t>(real(&F, $name))
    }};
}
fn io_point() {
    if let Some(t) = me() {
        inside(|| point(t))
    }
}
macro_rules! op {
    ($name:ident, $c:literal, ($($a:ident: $t:ty),*) -> $r:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            let f = real!($c, unsafe extern "C" fn($($t),*) -> $r);
            io_point();
            f($($a),*)
        }
    };
}
op!(open, c"open", (path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int);
op!(open64, c"open64", (path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int);
op!(close, c"close", (fd: c_int) -> c_int);
op!(mkdir, c"mkdir", (path: *const c_char, mode: libc::mode_t) -> c_int);
op!(unlink, c"unlink", (path: *const c_char) -> c_int);
op!(rename, c"rename", (a: *const c_char, b: *const c_char) -> c_int);
op!(fsync, c"fsync", (fd: c_int) -> c_int);
op!(ftruncate64, c"ftruncate64", (fd: c_int, n: libc::off64_t) -> c_int);
op!(lseek64, c"lseek64", (fd: c_int, n: libc::off64_t, w: c_int) -> libc::off64_t);

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    io_point();
    if fd == 1 && CAPTURE.load(Relaxed) {
        inside(|| stdout(std::slice::from_raw_parts(b.cast(), n)));
        return n as isize;
    }
    real!(c"write", unsafe extern "C" fn(c_int, *const c_void, usize) -> isize)(fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, k: c_int) -> isize {
    io_point();
    if fd == 1 && CAPTURE.load(Relaxed) {
        let mut n = 0;
        for i in 0..k as usize {
            let x = &*v.add(i);
            inside(|| stdout(std::slice::from_raw_parts(x.iov_base.cast(), x.iov_len)));
            n += x.iov_len;
        }
        return n as isize;
    }
    real!(c"writev", unsafe extern "C" fn(c_int, *const libc::iovec, c_int) -> isize)(fd, v, k)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(t) = me() {
        inside(|| yields(t));
        return 0;
    }
    real!(c"sched_yield", unsafe extern "C" fn() -> c_int)()
}
/// The standard library's locks block by way of this one
#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if num == libc::SYS_futex {
        if let Some(t) = me() {
            let cmd = b as c_int & libc::FUTEX_CMD_MASK;
            if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                inside(|| futex_wait(t, a));
                return 0;
            }
            if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
                let n = inside(|| {
                    let n = futex_wake(a, c.min(MAX));
                    point(t);
                    n
                });
                if n > 0 {
                    return n as c_long;
                }
            }
        }
    }
    real!(c"syscall", unsafe extern "C" fn(c_long, usize, usize, usize, usize, usize, usize) -> c_long)(num, a, b, c, d, e, f)
}

type Routine = extern "C" fn(*mut c_void) -> *mut c_void;
/// Threads that the code under test starts are under control as well
#[no_mangle]
pub unsafe extern "C" fn pthread_create(id: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Routine, arg: *mut c_void) -> c_int {
    let r = real!(c"pthread_create", unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Routine, *mut c_void) -> c_int);
    let Some(t) = me() else { return r(id, attr, f, arg) };
    inside(|| {
        let Some(start) = thread_begins(f, arg) else { return r(id, attr, f, arg) };
        let slot = start.slot();
        let start = Box::into_raw(start);
        let e = r(id, attr, trampoline, start.cast());
        if e != 0 {
            drop(Box::from_raw(start));
            return e;
        }
        thread_began(t, slot, *id);
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(id: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if let Some(t) = me() {
        inside(|| thread_ends(t, id, true));
    }
    real!(c"pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(id, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(id: libc::pthread_t) -> c_int {
    if let Some(t) = me() {
        inside(|| thread_ends(t, id, false));
    }
    real!(c"pthread_detach", unsafe extern "C" fn(libc::pthread_t) -> c_int)(id)
}

extern "C" {
    fn __libc_free(p: *mut c_void);
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
}
unsafe fn freed(p: *mut c_void) {
    if !p.is_null() && DISCOVER.load(Relaxed) && me().is_some() {
        forget(p as usize, libc::malloc_usable_size(p));
    }
}
/// Memory that changes its owner by way of the allocator is not shared
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    freed(p);
    __libc_free(p)
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    freed(p);
    __libc_realloc(p, n)
}
