//! The functions that instrumented code calls before it accesses memory.
use crate::*;
use std::ffi::c_void;
#[inline]
fn acc(p: usize, n: usize, w: bool) {
    if let Some(t) = me() {
        inside(|| access(t, p, n, w))
    }
}
fn fun() {
    if let Some(t) = me() {
        inside(|| call(t))
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: *mut c_void) {
    fun()
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {
    fun()
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(p: usize, _: usize) {
    acc(p, 8, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(p: usize) {
    acc(p, 8, false)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    acc(s as usize, n, false);
    acc(d as usize, n, true);
    libc::memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    acc(s as usize, n, false);
    acc(d as usize, n, true);
    libc::memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    acc(d as usize, n, true);
    libc::memset(d, c, n)
}
macro_rules! plain {
    ($($name:ident $n:literal $w:literal)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: usize) {
            acc(p, $n, $w)
        }
    )*};
}
macro_rules! range {
    ($($name:ident $w:literal)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: usize, n: usize) {
            acc(p, n, $w)
        }
    )*};
}
range! { __tsan_read_range false __tsan_write_range true }
macro_rules! atomic {
    ($t:ident $a:ident $n:literal $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const std::sync::atomic::$a, _: i32) -> $t {
            acc(p as usize, $n, false);
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const std::sync::atomic::$a, v: $t, _: i32) {
            acc(p as usize, $n, true);
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t {
            acc(p as usize, $n, true);
            (*p).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const std::sync::atomic::$a, old: $t, new: $t, _: i32, _: i32) -> $t {
            acc(p as usize, $n, true);
            match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}
plain! {
    __tsan_read1 1 false
    __tsan_read2 2 false
    __tsan_read4 4 false
    __tsan_read8 8 false
    __tsan_read16 16 false
    __tsan_write1 1 true
    __tsan_write2 2 true
    __tsan_write4 4 true
    __tsan_write8 8 true
    __tsan_write16 16 true
    __tsan_read_write1 1 true
    __tsan_read_write2 2 true
    __tsan_read_write4 4 true
    __tsan_read_write8 8 true
    __tsan_read_write16 16 true
    __tsan_unaligned_read2 2 false
    __tsan_unaligned_read4 4 false
    __tsan_unaligned_read8 8 false
    __tsan_unaligned_read16 16 false
    __tsan_unaligned_write2 2 true
    __tsan_unaligned_write4 4 true
    __tsan_unaligned_write8 8 true
    __tsan_unaligned_write16 16 true
    __tsan_unaligned_read_write2 2 true
    __tsan_unaligned_read_write4 4 true
    __tsan_unaligned_read_write8 8 true
    __tsan_unaligned_read_write16 16 true
    __tsan_volatile_read1 1 false
    __tsan_volatile_read2 2 false
    __tsan_volatile_read4 4 false
    __tsan_volatile_read8 8 false
    __tsan_volatile_read16 16 false
    __tsan_volatile_write1 1 true
    __tsan_volatile_write2 2 true
    __tsan_volatile_write4 4 true
    __tsan_volatile_write8 8 true
    __tsan_volatile_write16 16 true
    __tsan_unaligned_volatile_read2 2 false
    __tsan_unaligned_volatile_read4 4 false
    __tsan_unaligned_volatile_read8 8 false
    __tsan_unaligned_volatile_read16 16 false
    __tsan_unaligned_volatile_write2 2 true
    __tsan_unaligned_volatile_write4 4 true
    __tsan_unaligned_volatile_write8 8 true
    __tsan_unaligned_volatile_write16 16 true
}
atomic! { u8 AtomicU8 1 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val }
atomic! { u16 AtomicU16 2 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val }
atomic! { u32 AtomicU32 4 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val }
atomic! { u64 AtomicU64 8 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val }
