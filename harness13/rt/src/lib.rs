//! A controlled scheduler: real threads of which exactly one runs at a time; it may hand over at every memory access of
//! the instrumented code, at every file operation and wherever it would block.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, static_mut_refs, clippy::missing_safety_doc)]
mod hooks;
mod tsan;
use rayon_core::ctl::{self, Ctl};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// Slots for the main thread and the tasks of rayon
pub const POOL: usize = 6;
/// ... and for threads that the code under test starts by itself
pub const MAX: usize = 12;

/// Where a thread may hand over
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// every memory access
    Full,
    /// accesses to memory that several tasks use and at least one writes, calls, file operations
    Shared,
    /// file operations only
    Io,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Free,
    Ready,
    /// waits for a futex word
    Futex(usize),
    /// waits for another task to finish
    Task(usize),
}
/// A decision that may be taken differently
#[derive(Clone, Copy, Debug)]
pub struct Dec {
    /// number of alternatives to the default
    pub alts: u8,
    /// taking one is a preemption
    pub cost: u8,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub decs: Vec<Dec>,
    pub stdout: Vec<u8>,
    pub deadlock: bool,
    pub panicked: Option<String>,
    /// a deviation could not be taken
    pub diverged: bool,
    pub accesses: usize,
    pub switches: usize,
    pub shared: usize,
    pub forced: usize,
}
struct G {
    st: [St; MAX],
    cur: usize,
    mode: Mode,
    plan: Vec<(u32, u8)>,
    next: usize,
    out: Outcome,
    run_len: usize,
    jobs: [Option<Job>; MAX],
    swap: bool,
    /// the code under test has returned
    over: bool,
}
#[derive(Clone, Copy)]
struct Job {
    f: *mut (dyn FnMut(bool) + Send),
    migrated: bool,
    done: *mut bool,
}
static mut G_: G = G {
    st: [St::Free; MAX],
    cur: 0,
    mode: Mode::Full,
    plan: vec![],
    next: 0,
    out: Outcome {
        decs: vec![],
        stdout: vec![],
        deadlock: false,
        panicked: None,
        diverged: false,
        accesses: 0,
        switches: 0,
        shared: 0,
        forced: 0,
    },
    run_len: 0,
    jobs: [None; MAX],
    swap: true,
    over: false,
};
pub(crate) static ACTIVE: AtomicBool = AtomicBool::new(false);
/// bytes written to standard output outside of any task are kept as well while this is set
pub(crate) static CAPTURE: AtomicBool = AtomicBool::new(false);
static GO: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static HELPERS: AtomicUsize = AtomicUsize::new(0);
static MSG: Mutex<Option<String>> = Mutex::new(None);
thread_local! {
    pub(crate) static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN: Cell<bool> = const { Cell::new(false) };
}
fn g() -> &'static mut G {
    unsafe { &mut *std::ptr::addr_of_mut!(G_) }
}
/// Number of the calling thread if it is under control and not inside the runtime
#[inline]
pub(crate) fn me() -> Option<usize> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    let t = TASK.try_with(|x| x.get()).unwrap_or(usize::MAX);
    (t != usize::MAX && !IN.with(|x| x.get())).then_some(t)
}
pub(crate) fn inside<T>(f: impl FnOnce() -> T) -> T {
    let was = IN.with(|x| x.replace(true));
    let r = f();
    IN.with(|x| x.set(was));
    r
}
fn futex(a: &AtomicU32, op: i32, v: u32) {
    unsafe {
        let r: i64;
        std::arch::asm!(
            "syscall", inlateout("rax") libc::SYS_futex => r, in("rdi") a.as_ptr(), in("rsi") op | libc::FUTEX_PRIVATE_FLAG,
            in("rdx") v, in("r10") 0usize, in("r8") 0usize, in("r9") 0usize, out("rcx") _, out("r11") _
        );
        let _ = r;
    }
}
fn wait_go(t: usize) {
    let mut k = 0;
    while GO[t].load(Acquire) == 0 {
        k += 1;
        if k > 200 {
            futex(&GO[t], libc::FUTEX_WAIT, 0);
        } else {
            std::hint::spin_loop();
        }
    }
    GO[t].store(0, Release);
}
fn go(t: usize) {
    GO[t].store(1, Release);
    futex(&GO[t], libc::FUTEX_WAKE, 1);
}
fn switch(from: usize, to: usize) {
    if from == to {
        return;
    }
    let s = g();
    s.cur = to;
    s.out.switches += 1;
    s.run_len = 0;
    go(to);
    wait_go(from);
}
/// The alternative that the plan asks for at this decision; 0: the default
fn decide(alts: usize, cost: u8) -> usize {
    let s = g();
    if s.over {
        return 0;
    }
    let n = s.out.decs.len() as u32;
    s.out.decs.push(Dec { alts: alts as u8, cost });
    if let Some((at, alt)) = s.plan.get(s.next) {
        if *at == n {
            s.next += 1;
            if (*alt as usize) <= alts {
                return *alt as usize;
            }
            s.out.diverged = true;
        }
    }
    0
}
fn ready(except: usize) -> ([usize; MAX], usize) {
    let s = g();
    let mut v = [0; MAX];
    let mut n = 0;
    for (t, st) in s.st.iter().enumerate() {
        if t != except && *st == St::Ready {
            v[n] = t;
            n += 1;
        }
    }
    (v, n)
}
/// The running task may hand over here
pub(crate) fn point(t: usize) {
    let s = g();
    let (v, n) = ready(t);
    if n == 0 {
        return;
    }
    s.run_len += 1;
    if s.run_len > 30_000 {
        // spins on something another task has to do
        s.out.forced += 1;
        return switch(t, v[s.out.forced % n]);
    }
    match decide(n, 1) {
        0 => (),
        k => switch(t, v[k - 1]),
    }
}
/// The running task says that it is waiting for somebody else
pub(crate) fn yields(t: usize) {
    let (mut v, n) = ready(t);
    if n == 0 {
        return;
    }
    // in turn, so that two that wait do not keep a third from running
    let first = v[..n].iter().position(|x| *x > t).unwrap_or(0);
    v[..n].rotate_left(first);
    let k = if n > 1 { decide(n - 1, 0) } else { 0 };
    switch(t, v[k]);
}
/// The running task cannot go on: somebody else must
fn give_up(t: usize) {
    let s = g();
    let (v, n) = ready(t);
    if n == 0 {
        if s.st[t] == St::Ready {
            return;
        }
        s.out.deadlock = true;
        // let everything go on somehow: the verdict is known
        for (k, x) in s.st.iter_mut().enumerate() {
            if let St::Futex(_) = x {
                if k != t {
                    *x = St::Ready;
                }
            }
        }
        if let St::Futex(_) = s.st[t] {
            s.st[t] = St::Ready;
            return;
        }
        return;
    }
    let k = if n > 1 { decide(n - 1, 0) } else { 0 };
    switch(t, v[k]);
}
pub(crate) fn futex_wait(t: usize, addr: usize) {
    let s = g();
    s.st[t] = St::Futex(addr);
    while s.st[t] != St::Ready {
        give_up(t);
    }
}
pub(crate) fn futex_wake(addr: usize, n: usize) -> usize {
    let mut k = 0;
    for x in g().st.iter_mut() {
        if k < n && *x == St::Futex(addr) {
            *x = St::Ready;
            k += 1;
        }
    }
    k
}
static STDOUT: Mutex<Vec<u8>> = Mutex::new(vec![]);
pub(crate) fn stdout(b: &[u8]) {
    STDOUT.lock().unwrap().extend_from_slice(b)
}
pub(crate) fn access(t: usize, addr: usize, len: usize, write: bool) {
    let s = g();
    s.out.accesses += 1;
    match s.mode {
        Mode::Full => point(t),
        Mode::Io => (),
        Mode::Shared => {
            if note(t, addr, len, write) {
                point(t)
            }
        }
    }
}
pub(crate) fn call(t: usize) {
    if g().mode != Mode::Io {
        point(t)
    }
}
/// Who uses which memory: (address / 8) -> readers and writers; what is freed is forgotten
static mut MEM: Option<std::collections::HashMap<usize, (u16, u16)>> = None;
/// Memory that several tasks use and at least one writes; fixed after the discovery
static mut SHARED: Option<std::collections::HashSet<usize>> = None;
pub(crate) static DISCOVER: AtomicBool = AtomicBool::new(false);
/// Between `discover(true)` and `discover(false)` the memory that is shared between tasks is collected
pub fn discover(on: bool) {
    DISCOVER.store(on, SeqCst)
}
#[allow(static_mut_refs)]
fn note(t: usize, addr: usize, len: usize, write: bool) -> bool {
    inside(|| unsafe {
        let shared = SHARED.get_or_insert_with(Default::default);
        let range = addr / 8..=(addr + len.clamp(1, 1 << 16) - 1) / 8;
        if DISCOVER.load(Relaxed) {
            let m = MEM.get_or_insert_with(Default::default);
            for a in range.clone() {
                let e = m.entry(a).or_default();
                e.0 |= 1 << t;
                if write {
                    e.1 |= 1 << t;
                }
                if e.1 != 0 && (e.0 | e.1).count_ones() > 1 {
                    shared.insert(a);
                }
            }
        }
        let hit = range.into_iter().any(|a| shared.contains(&a));
        if hit {
            g().out.shared += 1;
        }
        hit
    })
}
#[allow(static_mut_refs)]
pub(crate) fn forget(addr: usize, len: usize) {
    inside(|| unsafe {
        if let Some(m) = &mut MEM {
            for a in addr / 8..(addr + len).div_ceil(8) {
                m.remove(&a);
            }
        }
    })
}
#[allow(static_mut_refs)]
pub(crate) fn forget_all() {
    inside(|| unsafe {
        if let Some(m) = &mut MEM {
            m.clear()
        }
    })
}
fn run_job(j: Job) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*j.f)(j.migrated) }));
    if r.is_err() {
        let m = inside(|| MSG.lock().unwrap().take()).unwrap_or_default();
        g().out.panicked.get_or_insert(m);
    }
}
fn helper(t: usize) {
    TASK.with(|x| x.set(t));
    ctl::set(Some(&CONTROLLER));
    loop {
        wait_go(t);
        let s = g();
        let j = s.jobs[t].take().unwrap();
        run_job(j);
        unsafe { *j.done = true };
        finish(t);
    }
}
/// What the thread had to do is done: hands over without waiting for anything
fn finish(t: usize) {
    let s = g();
    s.st[t] = St::Free;
    for x in s.st.iter_mut() {
        if *x == St::Task(t) {
            *x = St::Ready;
        }
    }
    if !s.st.contains(&St::Ready) {
        s.out.deadlock = true;
        s.st.iter_mut().for_each(|x| {
            if let St::Futex(_) = x {
                *x = St::Ready
            }
        });
    }
    let (v, n) = ready(t);
    let k = if n > 1 { decide(n - 1, 0) } else { 0 };
    s.cur = v[k];
    s.run_len = 0;
    s.out.switches += 1;
    go(v[k]);
}
/// The running thread goes on when thread h is done
fn wait_task(t: usize, h: usize, done: impl Fn() -> bool) {
    let s = g();
    while !done() {
        s.st[t] = St::Task(h);
        give_up(t);
    }
    s.st[t] = St::Ready;
}
/// Threads that the code under test starts by itself: identity, slot
static NATIVE: Mutex<Vec<(libc::pthread_t, usize)>> = Mutex::new(vec![]);
static ENDED: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
pub(crate) struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    slot: usize,
}
pub(crate) extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let s = *unsafe { Box::from_raw(p.cast::<Start>()) };
    TASK.with(|x| x.set(s.slot));
    ctl::set(Some(&CONTROLLER));
    inside(|| wait_go(s.slot));
    let r = (s.f)(s.arg);
    inside(|| {
        ENDED[s.slot].store(true, SeqCst);
        finish(s.slot);
    });
    TASK.with(|x| x.set(usize::MAX));
    ctl::set(None);
    r
}
/// A thread is about to be started: what it is to execute instead, if there is a slot for it
pub(crate) fn thread_begins(f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> Option<Box<Start>> {
    let s = g();
    let n = NATIVE.lock().unwrap();
    let slot = (POOL..MAX).find(|h| s.st[*h] == St::Free && !n.iter().any(|x| x.1 == *h))?;
    ENDED[slot].store(false, SeqCst);
    Some(Box::new(Start { f, arg, slot }))
}
/// ... it has been: from now on it may run
pub(crate) fn thread_began(t: usize, slot: usize, id: libc::pthread_t) {
    NATIVE.lock().unwrap().push((id, slot));
    g().st[slot] = St::Ready;
    let (v, n) = ready(t);
    match decide(n, 0) {
        0 => (),
        k => switch(t, v[k - 1]),
    }
}
/// The running thread is about to join or to detach that one
pub(crate) fn thread_ends(t: usize, id: libc::pthread_t, join: bool) {
    let mut n = NATIVE.lock().unwrap();
    let Some(k) = n.iter().position(|x| x.0 == id) else { return };
    let slot = if join { n[k].1 } else { n.swap_remove(k).1 };
    drop(n);
    if join {
        wait_task(t, slot, || ENDED[slot].load(SeqCst));
        NATIVE.lock().unwrap().retain(|x| x.0 != id);
    }
}
impl Start {
    pub(crate) fn slot(&self) -> usize {
        self.slot
    }
}
pub struct Controller;
static CONTROLLER: Controller = Controller;
impl Ctl for Controller {
    fn join(&self, a: &mut (dyn FnMut(bool) + Send), b: &mut (dyn FnMut(bool) + Send)) {
        let Some(t) = me() else {
            a(false);
            b(false);
            return;
        };
        let s = g();
        type F = *mut (dyn FnMut(bool) + Send + 'static);
        // both outlive this call, and both are finished when it returns
        let (a, b): (F, F) = unsafe { (std::mem::transmute(a), std::mem::transmute(b)) };
        // which of the two stays on this thread?
        let swapped = s.swap && decide(1, 0) == 1;
        let (mine, other) = if swapped { (b, a) } else { (a, b) };
        let h = match (1..POOL).find(|h| *h != t && s.st[*h] == St::Free) {
            Some(h) => h,
            None => {
                unsafe {
                    (*mine)(false);
                    (*other)(false);
                }
                return;
            }
        };
        let mut done = false;
        let done: *mut bool = &mut done;
        s.jobs[h] = Some(Job { f: other, migrated: true, done });
        s.st[h] = St::Ready;
        // who begins?
        let (v, n) = ready(t);
        match decide(n, 0) {
            0 => (),
            k => switch(t, v[k - 1]),
        }
        let mut unused = false;
        run_job(Job { f: mine, migrated: swapped, done: &mut unused });
        wait_task(t, h, || unsafe { done.read_volatile() });
    }
    fn spawn(&self, f: *mut (dyn FnMut(bool) + Send), done: *mut bool) -> Option<usize> {
        let t = me()?;
        let s = g();
        let h = (1..POOL).find(|h| *h != t && s.st[*h] == St::Free)?;
        s.jobs[h] = Some(Job { f, migrated: true, done });
        s.st[h] = St::Ready;
        let (v, n) = ready(t);
        match decide(n, 0) {
            0 => (),
            k => switch(t, v[k - 1]),
        }
        Some(h)
    }
    fn wait(&self, h: usize, done: *mut bool) {
        if let Some(t) = me() {
            wait_task(t, h, || unsafe { done.read_volatile() });
        }
    }
}
/// Runs f under the plan: (decision, alternative) pairs in ascending order; everywhere else the default is taken
pub fn execute<T>(plan: &[(u32, u8)], mode: Mode, swap: bool, f: impl FnOnce() -> T) -> (Result<T, String>, Outcome) {
    // the helpers wait for jobs from the beginning
    if HELPERS.swap(1, SeqCst) == 0 {
        for t in 1..POOL {
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || helper(t)).unwrap();
        }
    }
    let s = g();
    s.st = [St::Free; MAX];
    s.st[0] = St::Ready;
    s.cur = 0;
    s.mode = mode;
    s.swap = swap;
    s.over = false;
    s.plan = plan.to_vec();
    s.next = 0;
    s.out = Outcome::default();
    s.out.decs.reserve(1 << 12);
    s.run_len = 0;
    NATIVE.lock().unwrap().clear();
    forget_all();
    let old = ctl::set(Some(&CONTROLLER));
    TASK.with(|x| x.set(0));
    CAPTURE.store(true, SeqCst);
    ACTIVE.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // the last steps of threads that nobody waits for
    inside(|| {
        g().over = true;
        while let (v, 1..) = ready(0) {
            switch(0, v[0]);
        }
    });
    ACTIVE.store(false, SeqCst);
    TASK.with(|x| x.set(usize::MAX));
    let _ = std::io::Write::flush(&mut std::io::stdout());
    CAPTURE.store(false, SeqCst);
    ctl::set(old);
    let s = g();
    if s.next < s.plan.len() {
        s.out.diverged = true;
    }
    let mut o = std::mem::take(&mut s.out);
    o.stdout = std::mem::take(&mut *STDOUT.lock().unwrap());
    let r = match (r, &o.panicked) {
        (Ok(x), None) => Ok(x),
        (Ok(_), Some(m)) => Err(m.clone()),
        (Err(_), _) => Err(MSG.lock().unwrap().take().unwrap_or_default()),
    };
    (r, o)
}
/// To be called once: remembers the text of panics
pub fn init() {
    std::panic::set_hook(Box::new(|i| {
        inside(|| *MSG.lock().unwrap() = Some(i.to_string()));
    }));
}
