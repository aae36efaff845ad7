//! Link-time seams: randomness (`getrandom`) and file I/O of the simulated processes.
//!
//! The executable defines these libc symbols itself, so both std and every dependency use them. They
//! pass through to the kernel unless the calling thread is inside a simulated run.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::Mutex;

use actix_rt::{sim, Rng};
use libc::{c_char, c_int, c_void, mode_t, size_t, ssize_t};

thread_local! {
    static HASH_SEED: Cell<Option<u64>> = const { Cell::new(None) };
    static DISK: RefCell<Option<Disk>> = const { RefCell::new(None) };
}

/// fixed seed for process-wide users of randomness (e.g. ahash's global keys)
const GLOBAL_SEED: u64 = 0x1234_5678;

pub fn seed_hashing(seed: u64) {
    HASH_SEED.with(|s| s.set(Some(seed)));
}

fn fill(buf: *mut u8, len: usize) {
    let seed = HASH_SEED
        .try_with(|s| {
            let v = s.get();
            if let Some(x) = v {
                s.set(Some(x.wrapping_add(0x9E37_79B9_7F4A_7C15)));
            }
            v
        })
        .ok()
        .flatten()
        .unwrap_or(GLOBAL_SEED);
    let mut r = Rng::new(seed);
    for i in 0..len {
        unsafe { *buf.add(i) = (r.next() >> 24) as u8 };
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: u32) -> ssize_t {
    fill(buf as *mut u8, len);
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    fill(buf as *mut u8, len);
    0
}

// ---------------------------------------------------------------------------------------------
// disk

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum DiskFault {
    /// the n-th write call on a simulated file fails with ENOSPC after a short write of some bytes,
    /// and so does every later one
    NoSpace { at: u64, partial: usize },
    /// the n-th write call fails with EIO (only that one)
    WriteError { at: u64 },
    /// the n-th write call is short (only part of the buffer is taken), no error
    ShortWrite { at: u64, bytes: usize },
    /// the n-th write is interrupted (EINTR)
    WriteInterrupted { at: u64 },
    /// the n-th read call fails with EIO; persistent or once
    ReadError { at: u64, persistent: bool },
    /// every read returns at most this many bytes
    ShortReads { bytes: usize },
    /// the n-th read is interrupted (EINTR)
    ReadInterrupted { at: u64 },
    /// the n-th open fails with this errno
    OpenError { at: u64, errno: i32 },
    /// the process dies at the n-th write call after `partial` of its bytes reached the disk
    CrashAtWrite { at: u64, partial: usize },
    /// the n-th close/fsync reports an error
    SyncError,
    /// renaming fails with this errno
    RenameError { errno: i32 },
}

impl DiskFault {
    pub fn kind(&self) -> &'static str {
        match self {
            DiskFault::NoSpace { .. } => "disk_enospc",
            DiskFault::WriteError { .. } => "disk_write_eio",
            DiskFault::ShortWrite { .. } => "disk_short_write",
            DiskFault::WriteInterrupted { .. } => "disk_write_eintr",
            DiskFault::ReadError { .. } => "disk_read_eio",
            DiskFault::ShortReads { .. } => "disk_short_reads",
            DiskFault::ReadInterrupted { .. } => "disk_read_eintr",
            DiskFault::OpenError { .. } => "disk_open_error",
            DiskFault::CrashAtWrite { .. } => "crash_at_write",
            DiskFault::SyncError => "disk_sync_error",
            DiskFault::RenameError { .. } => "disk_rename_error",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileStats {
    pub opens: u64,
    pub reads: u64,
    pub writes: u64,
    pub write_errors: u64,
    pub read_errors: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
}

struct Disk {
    root: String,
    faults: Vec<DiskFault>,
    fds: BTreeMap<c_int, String>,
    opens: u64,
    reads: u64,
    writes: u64,
    renames: u64,
    full: bool,
    /// nodes whose disk does not take anything any more
    dead: std::collections::HashSet<usize>,
    err_reads: u64,
    livelock: bool,
    stats: BTreeMap<String, FileStats>,
    hit: BTreeMap<&'static str, u64>,
    elsewhere: std::collections::BTreeSet<String>,
}

#[derive(Clone, Debug, Default)]
pub struct DiskReport {
    pub stats: BTreeMap<String, FileStats>,
    pub hit: BTreeMap<&'static str, u64>,
    /// the code kept reading an erroring file without end
    pub livelock: bool,
    pub writes: u64,
    pub renames: u64,
    pub reads: u64,
    pub opens: u64,
    /// files elsewhere that were opened for writing and are still there
    pub elsewhere: Vec<String>,
}

/// Files below `root` belong to the simulated processes of this thread from now on.
pub fn install_disk(root: &str, faults: Vec<DiskFault>) {
    DISK.with(|d| {
        *d.borrow_mut() = Some(Disk {
            root: root.to_string(),
            faults,
            fds: BTreeMap::new(),
            opens: 0,
            reads: 0,
            writes: 0,
            renames: 0,
            full: false,
            dead: Default::default(),
            err_reads: 0,
            livelock: false,
            stats: BTreeMap::new(),
            hit: BTreeMap::new(),
            elsewhere: Default::default(),
        })
    });
}

pub fn uninstall_disk() -> DiskReport {
    DISK.with(|d| match d.borrow_mut().take() {
        Some(d) => DiskReport {
            stats: d.stats,
            hit: d.hit,
            livelock: d.livelock,
            writes: d.writes,
            renames: d.renames,
            reads: d.reads,
            opens: d.opens,
            elsewhere: d.elsewhere.into_iter().filter(|n| std::fs::metadata(n).map_or(false, |m| m.is_file())).collect(),
        },
        None => DiskReport::default(),
    })
}

fn with_disk<R>(f: impl FnOnce(&mut Disk) -> R) -> Option<R> {
    DISK.try_with(|d| match d.try_borrow_mut() {
        Ok(mut d) => d.as_mut().map(f),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

static OPEN_LOCK: Mutex<()> = Mutex::new(());

/// A dead process does nothing any more: neither its destructors nor, after a panic (the release
/// profile aborts), the frames that unwind.
fn is_dead(d: &Disk) -> bool {
    sim::dying() || std::thread::panicking() || d.dead.contains(&sim::current_node().unwrap_or(0))
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let name = CStr::from_ptr(path).to_string_lossy().into_owned();
    let verdict = with_disk(|d| {
        if !name.starts_with(&d.root) {
            if flags & libc::O_ACCMODE != libc::O_RDONLY && !is_dead(d) {
                d.elsewhere.insert(name.clone());
            }
            return None;
        }
        let at = d.opens;
        d.opens += 1;
        if is_dead(d) {
            return Some(Err(libc::EIO));
        }
        for f in &d.faults {
            if let DiskFault::OpenError { at: a, errno } = f {
                if *a == at {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    return Some(Err(*errno));
                }
            }
        }
        Some(Ok(()))
    })
    .flatten();
    if let Some(Err(e)) = verdict {
        set_errno(e);
        return -1;
    }
    let _g = OPEN_LOCK.lock();
    let fd = libc::syscall(
        libc::SYS_openat,
        dirfd as libc::c_long,
        path,
        flags | libc::O_LARGEFILE,
        mode as libc::c_long,
    ) as c_int;
    if fd >= 0 {
        with_disk(|d| {
            if verdict.is_some() {
                d.fds.insert(fd, name.clone());
                d.stats.entry(name).or_default().opens += 1;
            } else {
                d.fds.remove(&fd);
            }
        });
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mode: mode_t,
) -> c_int {
    do_open(dirfd, path, flags, mode)
}

enum Io {
    Pass(usize),
    Fail(c_int),
    /// pretend success without touching the disk
    Swallow,
}

fn read_verdict(fd: c_int, len: usize) -> Io {
    with_disk(|d| {
        let name = match d.fds.get(&fd) {
            Some(n) => n.clone(),
            None => return Io::Pass(len),
        };
        let at = d.reads;
        d.reads += 1;
        d.stats.entry(name.clone()).or_default().reads += 1;
        if is_dead(d) {
            return Io::Fail(libc::EIO);
        }
        let mut n = len;
        for f in d.faults.clone() {
            match f {
                DiskFault::ReadError { at: a, persistent } => {
                    if a == at || (persistent && at > a) {
                        *d.hit.entry(f.kind()).or_insert(0) += 1;
                        d.stats.entry(name.clone()).or_default().read_errors += 1;
                        d.err_reads += 1;
                        if d.err_reads > 5_000 {
                            // an endless loop on a failing file: note it and end the file so that
                            // the simulation itself can go on
                            d.livelock = true;
                            return Io::Swallow;
                        }
                        return Io::Fail(libc::EIO);
                    }
                }
                DiskFault::ReadInterrupted { at: a } if a == at => {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    return Io::Fail(libc::EINTR);
                }
                DiskFault::ShortReads { bytes } => {
                    if n > bytes {
                        *d.hit.entry(f.kind()).or_insert(0) += 1;
                    }
                    n = n.min(bytes.max(1));
                }
                _ => {}
            }
        }
        Io::Pass(n)
    })
    .unwrap_or(Io::Pass(len))
}

fn write_verdict(fd: c_int, len: usize) -> Io {
    let mut crash = false;
    let v = with_disk(|d| {
        let name = match d.fds.get(&fd) {
            Some(n) => n.clone(),
            None => return Io::Pass(len),
        };
        let at = d.writes;
        d.writes += 1;
        d.stats.entry(name.clone()).or_default().writes += 1;
        if is_dead(d) {
            return Io::Swallow;
        }
        if d.full {
            d.stats.entry(name).or_default().write_errors += 1;
            return Io::Fail(libc::ENOSPC);
        }
        let mut n = len;
        for f in d.faults.clone() {
            match f {
                DiskFault::NoSpace { at: a, partial } if a == at => {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    d.full = true;
                    if partial == 0 || partial >= len {
                        d.stats.entry(name.clone()).or_default().write_errors += 1;
                        return Io::Fail(libc::ENOSPC);
                    }
                    n = partial;
                }
                DiskFault::WriteError { at: a } if a == at => {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    d.stats.entry(name.clone()).or_default().write_errors += 1;
                    return Io::Fail(libc::EIO);
                }
                DiskFault::WriteInterrupted { at: a } if a == at => {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    return Io::Fail(libc::EINTR);
                }
                DiskFault::ShortWrite { at: a, bytes } if a == at => {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    n = n.min(bytes.max(1));
                }
                DiskFault::CrashAtWrite { at: a, partial } if a == at => {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    d.dead.insert(sim::current_node().unwrap_or(0));
                    crash = true;
                    n = n.min(partial);
                    if n == 0 {
                        return Io::Swallow;
                    }
                }
                _ => {}
            }
        }
        Io::Pass(n)
    })
    .unwrap_or(Io::Pass(len));
    if crash {
        if let Some(n) = sim::current_node() {
            sim::request_crash(n);
        }
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    match read_verdict(fd, len) {
        Io::Fail(e) => {
            set_errno(e);
            -1
        }
        Io::Swallow => 0,
        Io::Pass(n) => {
            let r = libc::syscall(libc::SYS_read, fd as libc::c_long, buf, n) as ssize_t;
            if r > 0 {
                note_io(fd, r as u64, true);
            }
            r
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    match write_verdict(fd, len) {
        Io::Fail(e) => {
            set_errno(e);
            -1
        }
        Io::Swallow => len as ssize_t,
        Io::Pass(n) => {
            let r = libc::syscall(libc::SYS_write, fd as libc::c_long, buf, n) as ssize_t;
            if r > 0 {
                note_io(fd, r as u64, false);
            }
            r
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let tracked = with_disk(|d| d.fds.contains_key(&fd)).unwrap_or(false);
    if tracked {
        // a short vectored write: only the first non-empty buffer
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd as libc::c_long, iov, cnt as libc::c_long) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_common(fd)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_common(fd)
}

unsafe fn sync_common(fd: c_int) -> c_int {
    let bad = with_disk(|d| {
        d.fds.contains_key(&fd)
            && (d.faults.iter().any(|f| matches!(f, DiskFault::SyncError)))
    })
    .unwrap_or(false);
    if bad {
        with_disk(|d| *d.hit.entry("disk_sync_error").or_insert(0) += 1);
        set_errno(libc::EIO);
        return -1;
    }
    // simulated files live in a scratch directory: nothing to gain from a real sync
    0
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with_disk(|d| d.fds.remove(&fd));
    libc::syscall(libc::SYS_close, fd as libc::c_long) as c_int
}

/// Some(errno, 0 for "pretend success") if a change of the directory must not reach the disk
unsafe fn path_verdict(path: *const c_char, rename: bool) -> Option<c_int> {
    let name = CStr::from_ptr(path).to_string_lossy().into_owned();
    with_disk(|d| {
        if !name.starts_with(&d.root) {
            return None;
        }
        if is_dead(d) {
            return Some(0);
        }
        if rename {
            d.renames += 1;
            for f in &d.faults {
                if let DiskFault::RenameError { errno } = f {
                    *d.hit.entry(f.kind()).or_insert(0) += 1;
                    return Some(*errno);
                }
            }
        }
        None
    })
    .flatten()
}

unsafe fn answer(errno: c_int) -> c_int {
    if errno == 0 {
        return 0;
    }
    set_errno(errno);
    -1
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    match path_verdict(to, true) {
        Some(e) => answer(e),
        None => libc::syscall(libc::SYS_rename, from, to) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match path_verdict(path, false) {
        Some(e) => answer(e),
        None => libc::syscall(libc::SYS_unlink, path) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: libc::off64_t) -> c_int {
    if with_disk(|d| d.fds.contains_key(&fd) && is_dead(d)).unwrap_or(false) {
        return 0;
    }
    libc::syscall(libc::SYS_ftruncate, fd as libc::c_long, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, at: libc::off64_t) -> ssize_t {
    match write_verdict(fd, len) {
        Io::Fail(e) => {
            set_errno(e);
            -1
        }
        Io::Swallow => len as ssize_t,
        Io::Pass(n) => libc::syscall(libc::SYS_pwrite64, fd as libc::c_long, buf, n, at) as ssize_t,
    }
}

// ---------------------------------------------------------------------------------------------
// end of a process by `std::process::exit`

/// Inside a simulation `exit` ends the simulated process only.
#[no_mangle]
pub unsafe extern "C-unwind" fn exit(code: c_int) -> ! {
    if sim::is_installed() {
        forget_exit();
        std::panic::resume_unwind(Box::new(sim::NodeExit(code)));
    }
    let next = libc::dlsym(libc::RTLD_NEXT, c"exit".as_ptr());
    let next: extern "C" fn(c_int) -> ! = std::mem::transmute(next);
    next(code)
}

/// The standard library remembers the thread that has called `exit` (in an `Option` of its id, or by
/// the address of its errno) and does not allow a second call.
unsafe fn forget_exit() {
    let me = libc::__errno_location() as usize;
    let thread = libc::pthread_self() as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
    let mut last = 0;
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let (Some(range), Some(perm)) = (w.next(), w.next()) else { continue };
        let path = l.splitn(6, ' ').nth(5).unwrap_or("").trim();
        let (a, b) = range.split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        // data of the executable and the zero-initialised pages right behind it
        let own = path == exe || (path.is_empty() && a == last);
        if own {
            last = b;
        }
        if own && perm.starts_with("rw") {
            for p in (a..b).step_by(8) {
                let p = p as *mut usize;
                if p.read_volatile() == me {
                    p.write_volatile(0);
                }
                if p as usize > a && p.read_volatile() == thread && p.sub(1).read_volatile() == 1 {
                    p.sub(1).write_volatile(0);
                    p.write_volatile(0);
                }
            }
        }
    }
}

fn note_io(fd: c_int, n: u64, is_read: bool) {
    with_disk(|d| {
        if let Some(name) = d.fds.get(&fd).cloned() {
            let st = d.stats.entry(name).or_default();
            if is_read {
                st.bytes_read += n
            } else {
                st.bytes_written += n
            }
        }
    });
}
