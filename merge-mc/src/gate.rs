//! Every system call a merge makes passes here first: the symbols below take the place of libc's in this executable.
//! For a thread that is under control they are where faults are injected and where a scheduler decides who goes on.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Call { Create, Make, Open, Write, ReadFile, ReadPipe, Unlink, Pipe, Poll, Spawn, Wait, Other }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Errno(c_int),
    /// Transfers this many bytes less than asked for, but at least one.
    Short(usize),
    /// Transfers one byte.
    One,
}
#[derive(Default)]
pub struct Faulty {
    pub plan: Vec<(Call, usize, Fault)>,
    pub seen: Mutex<(std::collections::BTreeMap<Call, usize>, Vec<(Call, usize, Fault)>)>,
}
/// How a thread is controlled: which calls fail, and who decides when it goes on.
#[derive(Default)]
pub struct Mode { pub faults: Faulty, pub sched: Option<(usize, *const Scheduler)> }
impl Mode {
    pub fn faults(plan: &[(Call, usize, Fault)]) -> Mode { Mode { faults: Faulty { plan: plan.to_vec(), ..Default::default() }, sched: None } }
    /// How often each kind of call was made.
    pub fn calls(&self) -> std::collections::BTreeMap<Call, usize> { self.faults.seen.lock().unwrap().0.clone() }
    /// The faults that took place.
    pub fn fired(&self) -> Vec<(Call, usize, Fault)> { self.faults.seen.lock().unwrap().1.clone() }
}

thread_local! {
    static ME: Cell<*const Mode> = const { Cell::new(std::ptr::null()) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
static PID: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

/// Runs f with this thread under control.
pub fn with<T>(m: &Mode, f: impl FnOnce() -> T) -> T {
    PID.store(unsafe { libc::getpid() }, std::sync::atomic::Ordering::SeqCst);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) { ME.with(|c| c.set(std::ptr::null())); }
    }
    let _off = Off;
    ME.with(|c| c.set(m));
    f()
}
/// The mode of this thread, unless it is in here already.
fn me() -> Option<&'static Mode> {
    let p = ME.with(|c| c.get());
    if p.is_null() || INSIDE.with(|c| c.get()) { return None; }
    if unsafe { raw(libc::SYS_getpid, [0; 6]) } as i32 != PID.load(std::sync::atomic::Ordering::SeqCst) { return None; }
    Some(unsafe { &*p })
}
fn inside<T>(f: impl FnOnce() -> T) -> T {
    INSIDE.with(|c| c.set(true));
    let r = f();
    INSIDE.with(|c| c.set(false));
    r
}
unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn sys(n: c_long, a: &[c_long]) -> c_long {
    let mut b = [0; 6];
    b[..a.len()].copy_from_slice(a);
    let r = raw(n, b);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
impl Faulty {
    fn fault(&self, c: Call) -> Option<Fault> {
        let mut s = self.seen.lock().unwrap();
        let k = s.0.entry(c).or_insert(0);
        *k += 1;
        let at = *k - 1;
        let f = self.plan.iter().find(|p| p.0 == c && p.1 == at).map(|p| p.2);
        if let Some(f) = f { s.1.push((c, at, f)); }
        f
    }
}

// ------------------------------------------------------------------------------------------- scheduling

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    Running,
    /// Before a call.
    At(Call),
    /// Waits for its tool to end.
    Blocked,
    /// Waits for the lock at that address.
    Waiting(usize),
    Done,
}
pub struct Shared {
    pub state: Vec<State>,
    pub granted: Option<usize>,
    pub tool_active: Vec<bool>,
    /// Which merge has just started its tool, until the scheduler has taken note.
    pub starting: Option<usize>,
}
pub struct Scheduler {
    pub shared: Mutex<Shared>,
    pub cv: Condvar,
    /// Only at the start of a merge and around its tool can somebody else go on.
    pub coarse: bool,
}

impl Scheduler {
    pub fn new(n: usize, coarse: bool) -> Scheduler {
        Scheduler { shared: Mutex::new(Shared { state: vec![State::Running; n], granted: None, tool_active: vec![false; n], starting: None }), cv: Condvar::new(), coarse }
    }
    /// Called by a merge: give up the turn until it is granted again.
    fn wait_turn(&self, id: usize, s: State) {
        let mut g = self.shared.lock().unwrap();
        g.state[id] = s;
        self.cv.notify_all();
        while g.granted != Some(id) { g = self.cv.wait(g).unwrap(); }
        g.granted = None;
        g.state[id] = State::Running;
    }
    fn spawned(&self, id: usize) {
        let mut g = self.shared.lock().unwrap();
        g.starting = Some(id);
        self.cv.notify_all();
        // until the scheduler has the tool in hand
        while g.starting == Some(id) { g = self.cv.wait(g).unwrap(); }
    }
    pub fn done(&self, id: usize) {
        inside(|| {
            let mut g = self.shared.lock().unwrap();
            g.state[id] = State::Done;
            self.cv.notify_all();
        })
    }
    /// The first step of a merge.
    pub fn begin(&self, id: usize) { inside(|| self.wait_turn(id, State::At(Call::Other))) }
}

/// Before a call: what is to happen to it.
fn point(c: Call) -> Option<Fault> {
    let m = me()?;
    inside(|| {
        if let Some((id, sched)) = m.sched {
            let sched = unsafe { &*sched };
            match c {
                Call::Pipe => {}
                Call::Poll | Call::Wait | Call::ReadPipe => {
                    if sched.shared.lock().unwrap().tool_active[id] { sched.wait_turn(id, State::Blocked); }
                }
                _ if sched.coarse => {}
                _ => sched.wait_turn(id, State::At(c)),
            }
        }
        m.faults.fault(c)
    })
}
fn read_kind(fd: c_int) -> Call {
    if me().is_none() { return Call::Other; }
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        raw(libc::SYS_fstat, [fd as c_long, &mut st as *mut _ as c_long, 0, 0, 0, 0]);
        if st.st_mode & libc::S_IFMT == libc::S_IFREG { Call::ReadFile } else { Call::ReadPipe }
    }
}
unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}
fn shorten(f: Option<Fault>, n: size_t) -> Result<size_t, c_int> {
    match f {
        None => Ok(n),
        Some(Fault::Errno(e)) => Err(e),
        Some(Fault::One) => Ok(n.min(1)),
        Some(Fault::Short(k)) => Ok(if n == 0 { 0 } else { n.saturating_sub(k).max(1) }),
    }
}
/// Only creating a file exclusively, where others create files, can find that it exists, and only an open is resumed when it is
/// interrupted: directories, files in directories of one's own and files that may exist are made by other calls.
unsafe fn opening(p: *const c_char, flags: c_int) -> Call {
    if flags & libc::O_CREAT == 0 { return Call::Open; }
    let shared = libc::getenv(c"TMPDIR".as_ptr());
    let shared = if shared.is_null() { b"/tmp" } else { CStr::from_ptr(shared).to_bytes() };
    let p = CStr::from_ptr(p).to_bytes();
    let within = p.iter().rposition(|c| *c == b'/').map_or(&b"."[..], |n| &p[..n]);
    let trim = |b: &[u8]| b.iter().rposition(|c| *c != b'/').map_or(0, |n| n + 1);
    let own = shared[..trim(shared)] != within[..trim(within)];
    if flags & libc::O_EXCL != 0 && !own { Call::Create } else { Call::Make }
}
macro_rules! plain {
    ($($name:ident ($($a:ident : $t:ty),*) -> $r:ty, $call:expr, $nr:expr, [$($x:expr),*];)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if me().is_some() {
                if let Some(Fault::Errno(e)) = point($call) { return fail(e) as $r; }
            }
            sys($nr, &[$($x as c_long),*]) as $r
        }
    )* };
}
plain! {
    open(p: *const c_char, f: c_int, m: c_int) -> c_int, opening(p, f), libc::SYS_openat, [libc::AT_FDCWD, p, f, m];
    open64(p: *const c_char, f: c_int, m: c_int) -> c_int, opening(p, f), libc::SYS_openat, [libc::AT_FDCWD, p, f | libc::O_LARGEFILE, m];
    unlink(p: *const c_char) -> c_int, Call::Unlink, libc::SYS_unlink, [p];
    mkdir(p: *const c_char, m: libc::mode_t) -> c_int, Call::Make, libc::SYS_mkdir, [p, m];
    rmdir(p: *const c_char) -> c_int, Call::Unlink, libc::SYS_rmdir, [p];
    rename(p: *const c_char, q: *const c_char) -> c_int, Call::Other, libc::SYS_rename, [p, q];
    chdir(p: *const c_char) -> c_int, Call::Other, libc::SYS_chdir, [p];
    ftruncate64(fd: c_int, n: i64) -> c_int, Call::Other, libc::SYS_ftruncate, [fd, n];
    writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t, Call::Write, libc::SYS_writev, [fd, v, n];
    poll(p: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int, Call::Poll, libc::SYS_poll, [p, n, t];
    waitpid(p: libc::pid_t, s: *mut c_int, o: c_int) -> c_int, Call::Wait, libc::SYS_wait4, [p, s, o, 0];
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let n = if me().is_some() {
        match shorten(point(Call::Write), n) {
            Ok(n) => n,
            Err(e) => return fail(e) as ssize_t,
        }
    } else {
        n
    };
    sys(libc::SYS_write, &[fd as c_long, b as c_long, n as c_long]) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: i64) -> ssize_t {
    let n = if me().is_some() {
        match shorten(point(Call::Write), n) {
            Ok(n) => n,
            Err(e) => return fail(e) as ssize_t,
        }
    } else {
        n
    };
    sys(libc::SYS_pwrite64, &[fd as c_long, b as c_long, n as c_long, o]) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let n = if me().is_some() {
        match shorten(point(read_kind(fd)), n) {
            Ok(n) => n,
            Err(e) => return fail(e) as ssize_t,
        }
    } else {
        n
    };
    sys(libc::SYS_read, &[fd as c_long, b as c_long, n as c_long]) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: i64) -> ssize_t {
    let n = if me().is_some() {
        match shorten(point(read_kind(fd)), n) {
            Ok(n) => n,
            Err(e) => return fail(e) as ssize_t,
        }
    } else {
        n
    };
    sys(libc::SYS_pread64, &[fd as c_long, b as c_long, n as c_long, o]) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, f: c_int) -> c_int {
    if me().is_some() {
        if let Some(Fault::Errno(e)) = point(Call::Pipe) { return fail(e); }
    }
    sys(libc::SYS_pipe2, &[fds as c_long, f as c_long]) as c_int
}
unsafe fn next(name: &CStr) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    p
}
type Spawn = unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int;
unsafe fn spawn(name: &CStr, pid: *mut libc::pid_t, p: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, env: *const *mut c_char) -> c_int {
    if me().is_some() {
        if let Some(Fault::Errno(e)) = point(Call::Spawn) { return e; }
    }
    let f: Spawn = std::mem::transmute(inside(|| next(name)));
    let r = inside(|| f(pid, p, a, b, argv, env));
    if r == 0 { started(); }
    r
}
fn started() {
    if let Some(Mode { sched: Some((id, sched)), .. }) = me() { inside(|| unsafe { &**sched }.spawned(*id)); }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut libc::pid_t, p: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, env: *const *mut c_char) -> c_int {
    spawn(c"posix_spawnp", pid, p, a, b, argv, env)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut libc::pid_t, p: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, env: *const *mut c_char) -> c_int {
    spawn(c"posix_spawn", pid, p, a, b, argv, env)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if me().is_some() {
        if let Some(Fault::Errno(e)) = point(Call::Spawn) { return fail(e); }
    }
    let f: unsafe extern "C" fn() -> libc::pid_t = std::mem::transmute(inside(|| next(c"fork")));
    let r = f();
    if r > 0 { started(); }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if me().is_some() { point(Call::Wait); }
    let f: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(next(c"pthread_join"));
    f(t, r)
}
/// Waiting on a lock: whoever holds it has to go on first.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    const WAIT: c_long = 0;
    const WAKE: c_long = 1;
    const WAIT_BITSET: c_long = 9;
    if n == libc::SYS_futex {
        if let Some(Mode { sched: Some((id, sched)), .. }) = me() {
            match b & 0x7f {
                WAIT | WAIT_BITSET => {
                    if *(a as *const u32) == c as u32 { inside(|| (**sched).wait_turn(*id, State::Waiting(a as usize))); }
                    return 0;
                }
                WAKE => inside(|| {
                    let mut g = (**sched).shared.lock().unwrap();
                    for s in g.state.iter_mut().filter(|s| **s == State::Waiting(a as usize)) { *s = State::At(Call::Other); }
                }),
                _ => {}
            }
        }
    }
    sys(n, &[a, b, c, d, e, f])
}
