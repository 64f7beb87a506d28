//! Interposition of the file operations of the process. Included by the checks that need it (`#[path]`), so that the
//! other checks run with the C library's own functions. A plan watches everything below one folder.
#![allow(dead_code, unknown_lints, invalid_runtime_symbol_definitions)]
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    /// position in the order of arrival
    pub seq: usize,
    pub kind: Kind,
    pub path: String,
    pub len: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Mkdir,
    /// for writing
    Open,
    Write,
    /// unlink, rmdir
    Remove,
    /// opening a folder or opening for reading
    Look,
    Rename,
    Sync,
    Truncate,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Go,
    Errno(i32),
    /// let only this many bytes through
    Short(usize),
    /// let this many bytes through, then end the process
    Die(usize),
}
pub struct Plan {
    pub root: String,
    pub log: Mutex<Vec<Op>>,
    pub decide: Box<dyn Fn(&Op) -> Act + Send + Sync>,
    pub die: Box<dyn Fn() -> i32 + Send + Sync>,
}
static PLANS: Mutex<Vec<Arc<Plan>>> = Mutex::new(vec![]);
static ANY: AtomicBool = AtomicBool::new(false);
static TRACKED: [AtomicBool; 4096] = [const { AtomicBool::new(false) }; 4096];
static FDS: Mutex<Option<HashMap<c_int, (Arc<Plan>, String)>>> = Mutex::new(None);
thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
}

pub fn start(p: Arc<Plan>) {
    PLANS.lock().unwrap().push(p);
    ANY.store(true, SeqCst);
}
pub fn stop(p: &Arc<Plan>) {
    let mut v = PLANS.lock().unwrap();
    v.retain(|q| !Arc::ptr_eq(q, p));
    if v.is_empty() {
        ANY.store(false, SeqCst);
    }
    if let Some(m) = &mut *FDS.lock().unwrap() {
        m.retain(|fd, (q, _)| {
            let stale = Arc::ptr_eq(q, p);
            if stale {
                TRACKED[*fd as usize].store(false, SeqCst);
            }
            !stale
        });
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = IN.with(|x| x.replace(true));
    let r = f();
    IN.with(|x| x.set(was));
    r
}
fn busy() -> bool {
    !ANY.load(SeqCst) || IN.try_with(|x| x.get()).unwrap_or(true)
}
fn errno() -> *mut c_int {
    unsafe { libc::__errno_location() }
}
fn plan_of(path: &str) -> Option<Arc<Plan>> {
    PLANS
        .lock()
        .unwrap()
        .iter()
        .find(|p| path.starts_with(p.root.as_str()) && matches!(path.as_bytes().get(p.root.len()), None | Some(b'/')))
        .cloned()
}
fn fd_of(fd: c_int) -> Option<(Arc<Plan>, String)> {
    if fd < 0 || fd as usize >= TRACKED.len() || !TRACKED[fd as usize].load(SeqCst) {
        return None;
    }
    FDS.lock().unwrap().as_ref()?.get(&fd).cloned()
}
pub fn track(fd: c_int, p: Arc<Plan>, path: String) {
    if fd >= 0 && (fd as usize) < TRACKED.len() {
        FDS.lock().unwrap().get_or_insert_with(HashMap::new).insert(fd, (p, path));
        TRACKED[fd as usize].store(true, SeqCst);
    }
}
fn untrack(fd: c_int) {
    if fd >= 0 && (fd as usize) < TRACKED.len() && TRACKED[fd as usize].swap(false, SeqCst) {
        if let Some(m) = &mut *FDS.lock().unwrap() {
            m.remove(&fd);
        }
    }
}
fn ask(p: &Plan, kind: Kind, path: &str, len: usize) -> Act {
    let op = {
        let mut l = p.log.lock().unwrap();
        let op = Op { seq: l.len(), kind, path: path[p.root.len().min(path.len())..].trim_start_matches('/').to_string(), len };
        l.push(op.clone());
        op
    };
    (p.decide)(&op)
}
unsafe fn real(slot: &AtomicUsize, name: &CStr) -> usize {
    let f = slot.load(Relaxed);
    if f != 0 {
        return f;
    }
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
    if f == 0 {
        libc::abort();
    }
    slot.store(f, Relaxed);
    f
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static F: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $t>(real(&F, $name))
    }};
}
unsafe fn text(p: *const c_char) -> String {
    String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()
}
unsafe fn full(dir: c_int, p: *const c_char) -> String {
    let t = text(p);
    if t.starts_with('/') || dir == libc::AT_FDCWD {
        return t;
    }
    match fd_of(dir) {
        Some((_, d)) => format!("{d}/{t}"),
        None => t,
    }
}
/// An operation on a path that either happens or fails
unsafe fn path_op(kind: Kind, path: String, go: impl FnOnce() -> c_int) -> c_int {
    let Some(p) = plan_of(&path) else { return go() };
    match quiet(|| ask(&p, kind, &path, 0)) {
        Act::Go | Act::Short(_) => go(),
        Act::Errno(e) => {
            *errno() = e;
            -1
        }
        Act::Die(n) => {
            if n > 0 {
                go();
            }
            libc::_exit((p.die)())
        }
    }
}
unsafe fn open_op(dir: c_int, path: *const c_char, flags: c_int, go: impl FnOnce() -> c_int) -> c_int {
    if busy() {
        return go();
    }
    let path = quiet(|| full(dir, path));
    let Some(p) = plan_of(&path) else {
        let fd = go();
        untrack(fd);
        return fd;
    };
    let kind = if flags & (libc::O_ACCMODE | libc::O_CREAT) != 0 { Kind::Open } else { Kind::Look };
    let fd = path_op(kind, path.clone(), go);
    if fd >= 0 {
        quiet(|| track(fd, p, path));
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let f = real!(c"open", unsafe extern "C" fn(*const c_char, c_int, libc::mode_t) -> c_int);
    open_op(libc::AT_FDCWD, path, flags, || f(path, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let f = real!(c"open64", unsafe extern "C" fn(*const c_char, c_int, libc::mode_t) -> c_int);
    open_op(libc::AT_FDCWD, path, flags, || f(path, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let f = real!(c"openat", unsafe extern "C" fn(c_int, *const c_char, c_int, libc::mode_t) -> c_int);
    open_op(dir, path, flags, || f(dir, path, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let f = real!(c"openat64", unsafe extern "C" fn(c_int, *const c_char, c_int, libc::mode_t) -> c_int);
    open_op(dir, path, flags, || f(dir, path, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let f = real!(c"close", unsafe extern "C" fn(c_int) -> c_int);
    if !busy() {
        quiet(|| untrack(fd));
    }
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    let f = real!(c"mkdir", unsafe extern "C" fn(*const c_char, libc::mode_t) -> c_int);
    if busy() {
        return f(path, mode);
    }
    path_op(Kind::Mkdir, quiet(|| text(path)), || f(path, mode))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let f = real!(c"unlink", unsafe extern "C" fn(*const c_char) -> c_int);
    if busy() {
        return f(path);
    }
    path_op(Kind::Remove, quiet(|| text(path)), || f(path))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let f = real!(c"rmdir", unsafe extern "C" fn(*const c_char) -> c_int);
    if busy() {
        return f(path);
    }
    path_op(Kind::Remove, quiet(|| text(path)), || f(path))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    let f = real!(c"unlinkat", unsafe extern "C" fn(c_int, *const c_char, c_int) -> c_int);
    if busy() {
        return f(dir, path, flags);
    }
    path_op(Kind::Remove, quiet(|| full(dir, path)), || f(dir, path, flags))
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = real!(c"rename", unsafe extern "C" fn(*const c_char, *const c_char) -> c_int);
    if busy() {
        return f(a, b);
    }
    path_op(Kind::Rename, quiet(|| text(b)), || f(a, b))
}
unsafe fn fd_op(fd: c_int, kind: Kind, go: impl FnOnce() -> c_int) -> c_int {
    if busy() {
        return go();
    }
    match quiet(|| fd_of(fd)) {
        None => go(),
        Some((_, path)) => path_op(kind, path, go),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let f = real!(c"fsync", unsafe extern "C" fn(c_int) -> c_int);
    fd_op(fd, Kind::Sync, || f(fd))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let f = real!(c"fdatasync", unsafe extern "C" fn(c_int) -> c_int);
    fd_op(fd, Kind::Sync, || f(fd))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: libc::off64_t) -> c_int {
    let f = real!(c"ftruncate64", unsafe extern "C" fn(c_int, libc::off64_t) -> c_int);
    fd_op(fd, Kind::Truncate, || f(fd, n))
}
unsafe fn write_op(fd: c_int, len: usize, go: impl Fn(usize) -> isize) -> isize {
    if busy() {
        return go(len);
    }
    let Some((p, path)) = quiet(|| fd_of(fd)) else { return go(len) };
    match quiet(|| ask(&p, Kind::Write, &path, len)) {
        Act::Go => go(len),
        Act::Errno(e) => {
            *errno() = e;
            -1
        }
        Act::Short(0) => 0,
        Act::Short(n) => go(n.min(len)),
        Act::Die(n) => {
            if n > 0 {
                go(n.min(len));
            }
            libc::_exit((p.die)())
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let f = real!(c"write", unsafe extern "C" fn(c_int, *const c_void, usize) -> isize);
    write_op(fd, n, |m| f(fd, b, m))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: libc::off64_t) -> isize {
    let f = real!(c"pwrite64", unsafe extern "C" fn(c_int, *const c_void, usize, libc::off64_t) -> isize);
    write_op(fd, n, |m| f(fd, b, m, o))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, k: c_int) -> isize {
    let f = real!(c"writev", unsafe extern "C" fn(c_int, *const libc::iovec, c_int) -> isize);
    let total = (0..k as usize).map(|i| (*v.add(i)).iov_len).sum();
    write_op(fd, total, |m| {
        if m == total {
            return f(fd, v, k);
        }
        let mut left = m;
        let mut w = vec![];
        for i in 0..k as usize {
            let mut x = *v.add(i);
            x.iov_len = x.iov_len.min(left);
            left -= x.iov_len;
            w.push(x);
        }
        f(fd, w.as_ptr(), k)
    })
}
