//! File system calls of the process, counted and failing on demand within one
//! directory of the calling thread.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::ffi::CStr;
use std::path::{Path, PathBuf};

use libc::{c_char, c_int, c_void, mode_t, size_t, ssize_t};

/// What happens at the selected call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Blow {
    /// The process dies: nothing later reaches the disk.
    Crash,
    /// The call fails, later ones work.
    Error,
    /// The call and all later ones fail.
    Full,
}

#[derive(Clone, Debug)]
pub enum FsCall {
    Open,
    Write(usize),
    Sync,
    Rename,
    Remove,
}

#[derive(Default)]
struct Watch {
    dir: Option<String>,
    fds: BTreeSet<c_int>,
    calls: Vec<FsCall>,
    blow: Option<(usize, usize, Blow)>,
    dead: bool,
}

thread_local! {
    static WATCH: RefCell<Watch> = RefCell::new(Watch::default());
}

/// Starts watching the directory. The blow is struck at the given call, of
/// which (if it is a write) the given number of bytes is done.
pub fn watch(dir: &Path, blow: Option<(usize, usize, Blow)>) {
    WATCH.with(|w| {
        *w.borrow_mut() =
            Watch { dir: Some(dir.to_str().expect("utf8").to_string()), blow, ..Watch::default() }
    })
}
/// Stops watching, giving all calls made.
pub fn unwatch() -> Vec<FsCall> { WATCH.with(|w| std::mem::take(&mut *w.borrow_mut()).calls) }

enum Verdict {
    Pass,
    Fail,
    Part(usize),
}

fn judge(call: FsCall) -> Verdict {
    WATCH
        .try_with(|w| {
            let mut w = w.borrow_mut();
            if w.dead {
                return Verdict::Fail;
            }
            let n = w.calls.len();
            w.calls.push(call.clone());
            match w.blow {
                Some((at, part, blow)) if at == n => {
                    if blow != Blow::Error {
                        w.dead = true;
                    }
                    match call {
                        FsCall::Write(_) if part > 0 => Verdict::Part(part),
                        _ => Verdict::Fail,
                    }
                }
                _ => Verdict::Pass,
            }
        })
        .unwrap_or(Verdict::Pass)
}

fn inside(path: *const c_char) -> bool {
    WATCH
        .try_with(|w| {
            let w = w.borrow();
            match &w.dir {
                None => false,
                Some(d) => unsafe { CStr::from_ptr(path) }.to_bytes().starts_with(d.as_bytes()),
            }
        })
        .unwrap_or(false)
}
fn watched(fd: c_int) -> bool { WATCH.try_with(|w| w.borrow().fds.contains(&fd)).unwrap_or(false) }

unsafe fn refuse() -> c_int {
    *libc::__errno_location() = libc::EIO;
    -1
}

unsafe fn open_any(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let ours = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 && inside(path);
    if ours && !matches!(judge(FsCall::Open), Verdict::Pass) {
        return refuse();
    }
    let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int;
    if ours && fd >= 0 {
        WATCH.with(|w| w.borrow_mut().fds.insert(fd));
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_any(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_any(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = WATCH.try_with(|w| w.borrow_mut().fds.remove(&fd));
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if watched(fd) {
        match judge(FsCall::Write(len)) {
            Verdict::Pass => {}
            Verdict::Fail => return refuse() as ssize_t,
            Verdict::Part(n) => {
                libc::syscall(libc::SYS_write, fd, buf, n.min(len));
                return refuse() as ssize_t;
            }
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, len) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if watched(fd) {
        if !matches!(judge(FsCall::Sync), Verdict::Pass) {
            return refuse();
        }
        return 0;
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if watched(fd) {
        if !matches!(judge(FsCall::Sync), Verdict::Pass) {
            return refuse();
        }
        return 0;
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if (inside(from) || inside(to)) && !matches!(judge(FsCall::Rename), Verdict::Pass) {
        return refuse();
    }
    libc::syscall(libc::SYS_rename, from, to) as c_int
}
// copies inside of the kernel are refused, so that they are done by writes
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    from: c_int,
    off_from: *mut libc::off64_t,
    to: c_int,
    off_to: *mut libc::off64_t,
    len: size_t,
    flags: libc::c_uint,
) -> ssize_t {
    if watched(to) {
        *libc::__errno_location() = libc::ENOSYS;
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, from, off_from, to, off_to, len, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(to: c_int, from: c_int, off: *mut libc::off64_t, len: size_t) -> ssize_t {
    if watched(to) {
        *libc::__errno_location() = libc::ENOSYS;
        return -1;
    }
    libc::syscall(libc::SYS_sendfile, to, from, off, len) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: libc::off64_t) -> c_int {
    if watched(fd) && !matches!(judge(FsCall::Open), Verdict::Pass) {
        return refuse();
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if inside(path) && !matches!(judge(FsCall::Remove), Verdict::Pass) {
        return refuse();
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}

/// A directory removed at the end of its scope.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/verif/work" };
        let dir = PathBuf::from(format!("{base}/rgb-mc-{}-{n}-{name}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
    pub fn path(&self) -> PathBuf { self.0.clone() }
    /// All files with their content.
    pub fn image(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<_> = std::fs::read_dir(&self.0)
            .expect("scratch directory")
            .map(|e| {
                let e = e.expect("entry");
                (e.file_name().to_str().expect("utf8").to_string(), std::fs::read(e.path()).expect("readable"))
            })
            .collect();
        v.sort();
        v
    }
    pub fn restore(&self, image: &[(String, Vec<u8>)]) {
        for e in std::fs::read_dir(&self.0).expect("scratch directory") {
            std::fs::remove_file(e.expect("entry").path()).expect("removable");
        }
        for (name, data) in image {
            std::fs::write(self.0.join(name), data).expect("writable");
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        unwatch();
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
