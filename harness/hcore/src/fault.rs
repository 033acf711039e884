//! File system calls of this process on files below one directory can be made to fail: the n-th of
//! them (and, for a crash, all after it).  The functions of the C library are defined here again;
//! anything else is passed on to the kernel.
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::Mutex;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

pub struct Plan {
    dir: String,
    /// calls left before the fault
    left: usize,
    crash: bool,
    /// the failing write first writes half of what it was given
    half: bool,
    down: bool,
    full: bool,
    fds: Vec<c_int>,
    /// another program puts a file in place right before the n-th call
    race: Option<(CString, CString)>,
    renamed: bool,
    before: bool,
    pub hit: bool,
    pub calls: usize,
}

static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

pub fn arm(dir: &str, at: usize, crash: bool, half: bool, race: Option<(&str, &str)>) {
    *PLAN.lock().unwrap() = Some(Plan {
        dir: dir.to_string(),
        left: at,
        crash,
        half,
        down: false,
        full: false,
        fds: vec![],
        race: race.map(|(a, b)| (CString::new(a).unwrap(), CString::new(b).unwrap())),
        renamed: false,
        before: false,
        hit: false,
        calls: 0,
    });
}

/// (did the fault happen, was the file in place by then, number of calls seen)
pub fn disarm() -> (bool, bool, usize) {
    PLAN.lock().unwrap().take().map_or((false, false, 0), |p| (p.hit, p.before, p.calls))
}

#[derive(PartialEq)]
enum Verdict {
    Pass,
    Fail,
    Half,
}

fn step(p: &mut Plan, write: bool) -> Verdict {
    p.calls += 1;
    if p.down || (p.full && write) {
        return Verdict::Fail;
    }
    p.left = p.left.saturating_sub(1);
    if p.left > 0 || p.hit {
        return Verdict::Pass;
    }
    p.hit = true;
    p.before = p.renamed;
    if let Some((a, b)) = &p.race {
        unsafe { syscall(82, a.as_ptr(), b.as_ptr()) };
        return Verdict::Pass;
    }
    p.down = p.crash;
    if write && p.half {
        p.full = true;
        return Verdict::Half;
    }
    Verdict::Fail
}

fn fail(code: c_int) -> c_int {
    unsafe { *__errno_location() = code };
    -1
}

fn below(p: &Plan, path: *const c_char) -> bool {
    unsafe { CStr::from_ptr(path) }.to_str().map_or(false, |s| s.starts_with(&p.dir))
}

fn ret(r: c_long) -> c_long {
    r
}

#[no_mangle]
pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    const ACC: c_int = 3;
    let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = g.as_mut() {
        if (flags & ACC != 0 || p.race.is_some()) && below(p, path) {
            if step(p, false) != Verdict::Pass {
                return fail(28);
            }
            let fd = unsafe { syscall(257, -100 as c_long, path, flags as c_long, mode as c_long) } as c_int;
            if fd >= 0 && flags & ACC != 0 {
                p.fds.push(fd);
            }
            return fd;
        }
    }
    drop(g);
    unsafe { syscall(257, -100 as c_long, path, flags as c_long, mode as c_long) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd > 2 {
        let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(p) = g.as_mut() {
            if p.fds.contains(&fd) {
                match step(p, true) {
                    Verdict::Pass => {}
                    Verdict::Fail => return fail(28) as isize,
                    Verdict::Half => {
                        if n / 2 == 0 {
                            return fail(28) as isize;
                        }
                        return unsafe { syscall(1, fd as c_long, buf, n / 2) as isize };
                    }
                }
            }
        }
    }
    unsafe { ret(syscall(1, fd as c_long, buf, n)) as isize }
}

#[no_mangle]
pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = g.as_mut() {
        if below(p, a) || below(p, b) {
            if step(p, false) != Verdict::Pass {
                return fail(5);
            }
            p.renamed = true;
        }
    }
    unsafe { syscall(82, a, b) as c_int }
}

#[no_mangle]
pub extern "C" fn chmod(a: *const c_char, mode: u32) -> c_int {
    let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = g.as_mut() {
        if below(p, a) && step(p, false) != Verdict::Pass {
            return fail(1);
        }
    }
    unsafe { syscall(90, a, mode as c_long) as c_int }
}

/// nothing is done after a crash
#[no_mangle]
pub extern "C" fn unlink(a: *const c_char) -> c_int {
    let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = g.as_mut() {
        if p.down && below(p, a) {
            return fail(5);
        }
    }
    unsafe { syscall(87, a) as c_int }
}

#[no_mangle]
pub extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    let mut g = PLAN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = g.as_mut() {
        if p.fds.contains(&fd) && step(p, false) != Verdict::Pass {
            return fail(1);
        }
    }
    unsafe { syscall(91, fd as c_long, mode as c_long) as c_int }
}
