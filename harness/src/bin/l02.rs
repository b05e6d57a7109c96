//! The experiment log under crashes, I/O errors and concurrent appends.
//!
//! The file-system calls of the process are interposed (this executable
//! defines `open64`, `write`, `rename`, ... itself): calls on the log's files
//! are numbered, and a fault can be injected at any of them; for concurrency
//! the same calls are the scheduling points of a controlled scheduler.
use mc::dom::*;
use mc::eqs::*;
use mc::*;
use ruler::enumo::{Ruleset, Scheduler};
use ruler::{logger, Phase};
use serde_json::Value;
use std::cell::Cell;
use std::ffi::CStr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

// ------------------------------------------------------------ interposition

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const SYS_READ: i64 = 0;
const SYS_WRITE: i64 = 1;
const SYS_OPEN: i64 = 2;
const SYS_PWRITE: i64 = 18;
const SYS_RENAME: i64 = 82;
const SYS_MKDIR: i64 = 83;
const SYS_FTRUNCATE: i64 = 77;
const SYS_UNLINK: i64 = 87;
const SYS_FSYNC: i64 = 74;
const SYS_CLOSE: i64 = 3;

static COUNTING: AtomicBool = AtomicBool::new(false);
static CALL: AtomicI64 = AtomicI64::new(0);
static FAULT_AT: AtomicI64 = AtomicI64::new(-1);
/// 0 crash before, 1 crash after, 2 crash after a part of a write,
/// 3 fail with an error, 4 short write, 5 short write then fail once
static FAULT_KIND: AtomicI64 = AtomicI64::new(0);
static FAULT_ARG: AtomicI64 = AtomicI64::new(0);
/// descriptors of log files
static FDS: AtomicU64 = AtomicU64::new(0);
/// record calls as text on stderr
static TRACE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static RUN_LEN: Cell<u32> = const { Cell::new(0) };
    static TASK: Cell<i32> = const { Cell::new(-1) };
}

enum Do {
    Normal,
    CrashAfter,
    Torn(usize),
    Fail(i32),
    Short(usize),
}

fn ours(path: *const i8) -> bool {
    let s = unsafe { CStr::from_ptr(path) }.to_bytes();
    s.windows(7).any(|w| w == b"nightly")
}
fn is_fd(fd: i32) -> bool {
    (0..64).contains(&fd) && FDS.load(Ordering::SeqCst) >> fd & 1 == 1
}

fn die() -> ! {
    unsafe {
        syscall(231, 77i64); // exit_group
    }
    loop {}
}

fn enter(name: &str, len: usize) -> Do {
    let task = TASK.with(|t| t.get());
    if task >= 0 {
        GATE.step(task as usize);
        return Do::Normal;
    }
    if !COUNTING.load(Ordering::SeqCst) {
        return Do::Normal;
    }
    let i = CALL.fetch_add(1, Ordering::SeqCst);
    if TRACE.load(Ordering::SeqCst) {
        let s = format!("CALL {} {} {}\n", i, name, len);
        unsafe {
            syscall(SYS_WRITE, 2i64, s.as_ptr(), s.len());
        }
    }
    if i == FAULT_AT.load(Ordering::SeqCst) {
        let arg = FAULT_ARG.load(Ordering::SeqCst);
        match FAULT_KIND.load(Ordering::SeqCst) {
            0 => die(),
            1 => return Do::CrashAfter,
            2 => return Do::Torn(arg as usize),
            3 => return Do::Fail(arg as i32),
            4 => return Do::Short(arg as usize),
            5 => {
                // the next call on a log file fails
                FAULT_AT.store(i + 1, Ordering::SeqCst);
                FAULT_KIND.store(3, Ordering::SeqCst);
                FAULT_ARG.store(28, Ordering::SeqCst);
                return Do::Short(arg as usize);
            }
            _ => {}
        }
    }
    Do::Normal
}

unsafe fn finish(r: i64) -> i64 {
    // `syscall` already sets errno and returns -1
    r
}

unsafe fn run(name: &str, f: &mut dyn FnMut() -> i64) -> i64 {
    RUN_LEN.with(|r| r.set(0));
    match enter(name, 0) {
        Do::Fail(e) => {
            *__errno_location() = e;
            -1
        }
        Do::CrashAfter | Do::Torn(_) => {
            f();
            die()
        }
        _ => finish(f()),
    }
}

unsafe fn do_open(path: *const i8, flags: i32, mode: u32) -> i32 {
    if !ours(path) {
        return syscall(SYS_OPEN, path, flags as i64, mode as i64) as i32;
    }
    let fd = run("open", &mut || syscall(SYS_OPEN, path, flags as i64, mode as i64));
    if (0..64).contains(&fd) {
        FDS.fetch_or(1 << fd, Ordering::SeqCst);
    }
    fd as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if (0..64).contains(&fd) {
        FDS.fetch_and(!(1 << fd), Ordering::SeqCst);
    }
    syscall(SYS_CLOSE, fd as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if is_fd(fd) && TASK.with(|t| t.get()) >= 0 && !thin() {
        GATE.step(TASK.with(|t| t.get()) as usize);
    }
    syscall(SYS_READ, fd as i64, buf, n) as isize
}
/// Of a long run of reads or writes only the first four and then those whose
/// number is a power of two are points where another thread may run.
fn thin() -> bool {
    let k = RUN_LEN.with(|r| {
        r.set(r.get() + 1);
        r.get()
    });
    TASK.with(|t| t.get()) >= 0 && k > 4 && !k.is_power_of_two()
}
unsafe fn do_write(name: &str, n: usize, f: &mut dyn FnMut(usize) -> i64) -> isize {
    if thin() {
        return f(n) as isize;
    }
    match enter(name, n) {
        Do::Fail(e) => {
            *__errno_location() = e;
            -1
        }
        Do::CrashAfter => {
            f(n);
            die()
        }
        Do::Torn(j) => {
            f(j.min(n));
            die()
        }
        Do::Short(j) => f(j.clamp(1, n.max(1))) as isize,
        Do::Normal => f(n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if !is_fd(fd) {
        return syscall(SYS_WRITE, fd as i64, buf, n) as isize;
    }
    do_write("write", n, &mut |k| syscall(SYS_WRITE, fd as i64, buf, k))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    if !is_fd(fd) {
        return syscall(SYS_PWRITE, fd as i64, buf, n, off) as isize;
    }
    do_write("pwrite", n, &mut |k| syscall(SYS_PWRITE, fd as i64, buf, k, off))
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    if !ours(a) && !ours(b) {
        return syscall(SYS_RENAME, a, b) as i32;
    }
    run("rename", &mut || syscall(SYS_RENAME, a, b)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const i8, mode: u32) -> i32 {
    if !ours(p) {
        return syscall(SYS_MKDIR, p, mode as i64) as i32;
    }
    run("mkdir", &mut || syscall(SYS_MKDIR, p, mode as i64)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    if !ours(p) {
        return syscall(SYS_UNLINK, p) as i32;
    }
    run("unlink", &mut || syscall(SYS_UNLINK, p)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if !is_fd(fd) {
        return syscall(SYS_FTRUNCATE, fd as i64, n) as i32;
    }
    run("ftruncate", &mut || syscall(SYS_FTRUNCATE, fd as i64, n)) as i32
}
/// In the children time stands still, so that rows have the same size in
/// every run.
static FROZEN: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, out: *mut i64) -> i32 {
    if FROZEN.load(Ordering::SeqCst) {
        *out = 1_000_000;
        *out.add(1) = 0;
        return 0;
    }
    syscall(228, clock as i64, out) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if !is_fd(fd) {
        return syscall(SYS_FSYNC, fd as i64) as i32;
    }
    run("fsync", &mut || syscall(SYS_FSYNC, fd as i64)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if !is_fd(fd) {
        return syscall(75, fd as i64) as i32;
    }
    run("fdatasync", &mut || syscall(75, fd as i64)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const i8, b: *const i8) -> i32 {
    if !ours(a) && !ours(b) {
        return syscall(86, a, b) as i32;
    }
    run("link", &mut || syscall(86, a, b)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: i32, a: *const i8, db: i32, b: *const i8, fl: i32) -> i32 {
    let mut go = || syscall(265, da as i64, a, db as i64, b, fl as i64);
    if !ours(a) && !ours(b) {
        return go() as i32;
    }
    run("link", &mut go) as i32
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    if !is_fd(fd) || cnt < 1 {
        return syscall(20, fd as i64, iov, cnt as i64) as isize;
    }
    // a write of the first buffer is an allowed outcome of writev
    let first = &*iov;
    write(fd, first[0] as *const u8, first[1])
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, oa: *mut i64, b: i32, ob: *mut i64, n: usize, fl: u32) -> isize {
    if !is_fd(b) {
        return syscall(326, a as i64, oa, b as i64, ob, n, fl as i64) as isize;
    }
    // how much is left to copy is known to the kernel only: at most 4 KiB a time
    do_write("copywrite", n.min(4096), &mut |k| syscall(326, a as i64, oa, b as i64, ob, k, fl as i64))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: i32, a: i32, off: *mut i64, n: usize) -> isize {
    if !is_fd(b) {
        return syscall(40, b as i64, a as i64, off, n) as isize;
    }
    do_write("sendwrite", n.min(4096), &mut |k| syscall(40, b as i64, a as i64, off, k))
}

// --------------------------------------------------- controlled concurrency

#[derive(Default)]
struct G {
    at_gate: Vec<bool>,
    done: Vec<bool>,
    tid: Vec<i64>,
    grant: Option<usize>,
    free: bool,
}
struct Gate {
    m: Mutex<G>,
    cv: Condvar,
}
static GATE: Gate = Gate {
    m: Mutex::new(G {
        at_gate: vec![],
        done: vec![],
        tid: vec![],
        grant: None,
        free: false,
    }),
    cv: Condvar::new(),
};

fn asleep(tid: i64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rsplit(") ").next().unwrap_or("").starts_with('S'),
        Err(_) => false,
    }
}

impl Gate {
    fn reset(&self, n: usize) {
        *self.m.lock().unwrap() = G {
            at_gate: vec![false; n],
            done: vec![false; n],
            tid: vec![0; n],
            grant: None,
            free: false,
        };
    }
    fn step(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        if g.free {
            return;
        }
        g.at_gate[t] = true;
        self.cv.notify_all();
        while !g.free && g.grant != Some(t) {
            g = self.cv.wait(g).unwrap();
        }
        g.at_gate[t] = false;
        if g.grant == Some(t) {
            g.grant = None;
        }
        self.cv.notify_all();
    }
    /// Wait until every task is at its gate, done, or blocked elsewhere.
    /// Returns the tasks that can be granted a step.
    fn quiesce(&self) -> (Vec<usize>, bool) {
        let mut still = 0;
        let start = std::time::Instant::now();
        loop {
            let g = self.m.lock().unwrap();
            let pending: Vec<i64> = (0..g.done.len()).filter(|i| !g.done[*i] && !g.at_gate[*i]).map(|i| g.tid[i]).collect();
            let ready: Vec<usize> = (0..g.done.len()).filter(|i| g.at_gate[*i]).collect();
            let all_done = g.done.iter().all(|d| *d);
            if g.grant.is_none() {
                if pending.is_empty() {
                    return (ready, all_done);
                }
                let (g2, _) = self.cv.wait_timeout(g, Duration::from_micros(300)).unwrap();
                drop(g2);
                if pending.iter().all(|t| *t != 0 && asleep(*t)) {
                    still += 1;
                    if still >= 4 {
                        let g = self.m.lock().unwrap();
                        let p2: Vec<i64> = (0..g.done.len()).filter(|i| !g.done[*i] && !g.at_gate[*i]).map(|i| g.tid[i]).collect();
                        if p2 == pending && g.grant.is_none() {
                            let ready: Vec<usize> = (0..g.done.len()).filter(|i| g.at_gate[*i]).collect();
                            if !ready.is_empty() || start.elapsed() > Duration::from_millis(500) {
                                return (ready, false);
                            }
                        }
                        still = 0;
                    }
                } else {
                    still = 0;
                }
            } else {
                let (g2, _) = self.cv.wait_timeout(g, Duration::from_micros(300)).unwrap();
                drop(g2);
            }
        }
    }
    fn grant(&self, t: usize) {
        self.m.lock().unwrap().grant = Some(t);
        self.cv.notify_all();
    }
    fn release(&self) {
        self.m.lock().unwrap().free = true;
        self.cv.notify_all();
    }
}

// ------------------------------------------------------------------- rows

fn rules(n: usize) -> Vec<R> {
    (0..n).map(|i| R::p(&format!("(f{} ?a ?b) ==> (g{} ?b ?a)", i, i))).collect()
}

/// Row `i` is recognised by its phase name; its size varies.
fn append(kind: usize, i: usize) {
    match kind % 4 {
        0 => ff(i, 1),
        1 => ff(i, 0),
        2 => {
            let r: Ruleset<Free> = to_ruleset(&rules(2));
            logger::write_baseline(&r, &format!("row{}", i), &r, "base", Duration::from_millis(5));
        }
        _ => ff(i, 40),
    }
}
fn ff(i: usize, n: usize) {
    let rs = rules(n);
    let p = |s: String| Phase::<Free> {
        rules: Ruleset::default(),
        rules_name: s,
        scheduler: Scheduler::Simple(unlimited(1)),
    };
    logger::write_ff_phase(p(format!("row{}", i)), p("b".into()), p("c".into()), Duration::from_millis(7), &to_ruleset::<Free>(&rs));
}

fn row_id(v: &Value) -> Option<usize> {
    let s = match v.get("TYPE").and_then(|t| t.as_str()) {
        Some("ff_phases") => v["phase1"].as_str()?.strip_prefix("eqsat (")?.strip_suffix(")")?.to_string(),
        Some("baseline") => v["spec_name"].as_str()?.to_string(),
        _ => return None,
    };
    s.strip_prefix("row")?.parse().ok()
}

struct Dir(PathBuf);
impl Dir {
    fn new(tag: &str) -> Dir {
        let d = Dir(scratch_root().join(tag));
        let _ = std::fs::remove_dir_all(&d.0);
        std::fs::create_dir_all(&d.0).unwrap();
        d
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn rows(d: &Dir) -> Result<Vec<usize>, String> {
    let p = d.0.join("nightly/data/output.json");
    let s = match std::fs::read_to_string(&p) {
        Ok(s) => s,
        Err(_) => return Ok(vec![]),
    };
    if s.is_empty() {
        return Ok(vec![]);
    }
    let v: Vec<Value> = serde_json::from_str(&s).map_err(|e| format!("the log is unreadable: {} in {:?}", e, s.chars().take(120).collect::<String>()))?;
    v.iter().map(|r| row_id(r).ok_or_else(|| format!("the log contains a foreign row {}", r))).collect()
}

/// Contents of every file below the directory, for state counting.
fn snapshot(d: &Dir) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    if let Ok(rd) = std::fs::read_dir(d.0.join("nightly/data")) {
        for e in rd {
            let e = e.unwrap();
            out.push((e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default()));
        }
    }
    out.sort();
    out
}

/// Runs rows `from..to` in a child with one fault; returns (acknowledged rows,
/// failed rows, calls made).
fn child(d: &Dir, kind: usize, from: usize, to: usize, fault: (i64, i64, i64)) -> Result<(Vec<usize>, Vec<usize>, Vec<(String, usize)>, bool), String> {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--child", &kind.to_string(), &from.to_string(), &to.to_string(), &fault.0.to_string(), &fault.1.to_string(), &fault.2.to_string()])
        .current_dir(&d.0)
        .stdout(std::process::Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stderr).to_string();
    let mut ack = vec![];
    let mut failed = vec![];
    let mut calls = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "ACK" => ack.push(w[1].parse().unwrap()),
            "FAILED" => failed.push(w[1].parse().unwrap()),
            "CALL" => calls.push((w[2].to_string(), w[3].parse().unwrap())),
            _ => {}
        }
    }
    let crashed = out.status.code() == Some(77);
    if !crashed && out.status.code() != Some(0) {
        return Err(format!("child ended with {:?}: {}", out.status, text));
    }
    Ok((ack, failed, calls, crashed))
}

fn child_main(a: &[String]) {
    let n: Vec<i64> = a.iter().map(|x| x.parse().unwrap()).collect();
    FAULT_AT.store(n[3], Ordering::SeqCst);
    FAULT_KIND.store(n[4], Ordering::SeqCst);
    FAULT_ARG.store(n[5], Ordering::SeqCst);
    TRACE.store(true, Ordering::SeqCst);
    FROZEN.store(true, Ordering::SeqCst);
    COUNTING.store(true, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
    for i in n[1]..n[2] {
        let k = n[0] as usize + i as usize;
        let r = std::panic::catch_unwind(|| append(k, i as usize));
        let s = format!("{} {}\n", if r.is_ok() { "ACK" } else { "FAILED" }, i);
        unsafe {
            syscall(SYS_WRITE, 2i64, s.as_ptr(), s.len());
        }
    }
}

/// `got` must be the acknowledged rows in order, plus at most the rows of
/// `maybe` at their place.
fn judge(got: &[usize], acked: &[usize], maybe: &[usize]) -> Result<(), String> {
    let mut g: Vec<usize> = got.to_vec();
    for a in acked {
        if !got.contains(a) {
            return Err(format!("row {} was logged before, now the log holds rows {:?} only", a, got));
        }
    }
    g.retain(|x| !acked.contains(x));
    if let Some(x) = g.iter().find(|x| !maybe.contains(x)) {
        return Err(format!("unexpected row {} (rows {:?})", x, got));
    }
    if got.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("rows out of order or repeated: {:?}", got));
    }
    Ok(())
}

/// `before` rows are logged without fault, then two more with the fault, then
/// one more.
fn faulty(kind: usize, before: usize, fault: (i64, i64, i64), o: &mut Obs) -> Result<(), String> {
    let d = Dir::new("l02");
    let (a0, _, _, _) = child(&d, kind, 0, before, (-1, 0, 0))?;
    if a0.len() != before {
        return Err("logging without faults failed".into());
    }
    let (ack, failed, _, crashed) = child(&d, kind, before, before + 2, fault)?;
    let mut acked = a0;
    acked.extend(ack.iter().cloned());
    let mut maybe = failed;
    if crashed {
        maybe.push(before + ack.len() + maybe.len());
    }
    o.state(&snapshot(&d));
    o.trans(2);
    let got = rows(&d)?;
    judge(&got, &acked, &maybe)?;
    // and the log is usable afterwards
    let last = before + 2;
    let (ack2, _, _, _) = child(&d, kind, last, last + 1, (-1, 0, 0))?;
    if ack2 != vec![last] {
        return Err(format!("after the fault, with rows {:?} in the log, nothing can be logged any more", got));
    }
    acked.push(last);
    let got2 = rows(&d)?;
    judge(&got2, &acked, &maybe)?;
    if got2[..got2.len() - 1] != got[..] {
        return Err(format!("rows {:?} became {:?} by appending", got, got2));
    }
    o.state(&snapshot(&d));
    o.show(format!("rows {:?}", got2));
    o.traces(3);
    Ok(())
}

/// One controlled run: `prefix` gives the choices to make (indices into the
/// ready tasks); afterwards the lowest ready task continues.  Returns the
/// number of alternatives at each point.
fn controlled(n: usize, per: usize, kind: usize, before: usize, prefix: &[usize], o: &mut Obs) -> Result<(Vec<usize>, Vec<usize>), String> {
    let d = Dir::new("l02c");
    std::env::set_current_dir(&d.0).unwrap();
    for i in 0..before {
        append(kind + i, i);
    }
    GATE.reset(n);
    let mut widths = vec![];
    let mut taken = vec![];
    let mut stuck = false;
    let mut err = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                    let tid = unsafe { syscall(186) };
                    GATE.m.lock().unwrap().tid[t] = tid;
                    TASK.with(|x| x.set(t as i32));
                    let r = guard(|| {
                        for j in 0..per {
                            GATE.step(t);
                            append(kind + t + j, before + t * per + j);
                        }
                    });
                    TASK.with(|x| x.set(-1));
                    GATE.m.lock().unwrap().done[t] = true;
                    GATE.cv.notify_all();
                    r
                }).unwrap()
            })
            .collect();
        let mut last: Option<usize> = None;
        loop {
            let (ready, all) = GATE.quiesce();
            if all {
                break;
            }
            if ready.is_empty() {
                stuck = true;
                break;
            }
            // the running task first, so that choice 0 is "no switch"
            let mut order = ready.clone();
            if let Some(l) = last {
                order.sort_by_key(|t| (*t != l, *t));
            }
            let c = *prefix.get(widths.len()).unwrap_or(&0);
            let c = c.min(order.len() - 1);
            widths.push(order.len());
            taken.push(c);
            last = Some(order[c]);
            GATE.grant(order[c]);
        }
        GATE.release();
        for (t, h) in hs.into_iter().enumerate() {
            if let Err(e) = h.join().unwrap() {
                err = Some(format!("append in thread {}: {}", t, e));
            }
        }
    });
    o.trans(widths.len());
    o.state(&taken);
    if stuck {
        return Err(format!("no thread can proceed after choices {:?}", taken));
    }
    if let Some(e) = err {
        return Err(format!("{} (schedule {:?})", e, taken));
    }
    let got = rows(&d).map_err(|e| format!("{} (schedule {:?})", e, taken))?;
    o.state(&got);
    let mut sorted = got.clone();
    sorted.sort();
    let want: Vec<usize> = (0..before + n * per).collect();
    if sorted != want {
        return Err(format!("{} threads logged rows {:?}, the log holds {:?} (schedule {:?})", n, want, got, taken));
    }
    if got[..before] != want[..before] {
        return Err(format!("earlier rows moved: {:?}", got));
    }
    for t in 0..n {
        let mine: Vec<usize> = got.iter().cloned().filter(|r| *r >= before && (*r - before) / per == t).collect();
        if mine.windows(2).any(|w| w[0] > w[1]) {
            return Err(format!("the rows of thread {} are out of order: {:?}", t, got));
        }
    }
    Ok((widths, taken))
}

/// Depth-first over every schedule with at most `preempt` non-default choices.
fn schedules(n: usize, per: usize, kind: usize, before: usize, preempt: usize, cap: usize, o: &mut Obs) -> Result<(), String> {
    let mut work: Vec<Vec<usize>> = vec![vec![]];
    let mut runs = 0;
    while let Some(p) = work.pop() {
        runs += 1;
        if runs > cap {
            return Err(format!("more than {} schedules", cap));
        }
        let (w, t) = controlled(n, per, kind, before, &p, o)?;
        let used = p.iter().filter(|c| **c > 0).count();
        if used < preempt {
            for i in p.len()..w.len() {
                for alt in 1..w[i] {
                    let mut q = t[..i].to_vec();
                    q.push(alt);
                    work.push(q);
                }
            }
        }
    }
    o.traces(runs);
    o.show(format!("{} schedules", runs));
    Ok(())
}

fn explore(ctx: &mut Ctx) {
    for kind in 0..4 {
        for before in [0usize, 1, 2, 5] {
            if (before == 5 || before == 1) && ctx.quick() && kind % 2 == 1 {
                continue;
            }
            // the calls made without a fault
            let d = Dir::new("l02probe");
            let probe = child(&d, kind, 0, before, (-1, 0, 0)).and_then(|_| child(&d, kind, before, before + 2, (-1, 0, 0)));
            drop(d);
            let calls = match probe {
                Ok(x) => x.2,
                Err(e) => {
                    ctx.case(|| "logging without faults".into(), |_| Err(e.clone()));
                    return;
                }
            };
            if calls.is_empty() {
                ctx.case(|| "logging touches no file".into(), |_| Err("no file-system call was observed".into()));
                return;
            }
            // of a long run of writes the first and last two and four between
            let mut keep = vec![true; calls.len()];
            let mut few = false;
            let mut i = 0;
            while i < calls.len() {
                let mut j = i;
                while j < calls.len() && calls[j].0.contains("write") {
                    j += 1;
                }
                if j - i > 8 {
                    few = true;
                    for k in i + 2..j - 2 {
                        keep[k] = (k - i) % ((j - i) / 4) == 0;
                    }
                }
                i = j.max(i + 1);
            }
            for (i, (name, len)) in calls.iter().enumerate() {
                if !keep[i] {
                    continue;
                }
                let mut faults: Vec<(i64, i64)> = vec![(0, 0), (1, 0)];
                for e in [4, 5, 28] {
                    faults.push((3, e));
                }
                if name.contains("write") {
                    let len = *len as i64;
                    let stride = if few { (len / 2).max(1) } else { ctx.pick((len / 16).max(1), (len / 400).max(1)) };
                    let mut js: Vec<i64> = (0..len).step_by(stride as usize).collect();
                    js.extend([1, len - 1]);
                    if !few {
                        js.extend([2, 3, len - 3, len - 2]);
                    }
                    js.retain(|j| *j >= 0 && *j <= len);
                    js.sort();
                    js.dedup();
                    for j in js {
                        faults.push((2, j));
                        if j > 0 && (j / stride % 4 == 0 || j < 4) {
                            faults.push((4, j));
                            faults.push((5, j));
                        }
                    }
                }
                for (k, arg) in faults {
                    ctx.case(
                        || {
                            let what = match k {
                                0 => "crash before".to_string(),
                                1 => "crash after".to_string(),
                                2 => format!("crash after {} bytes of", arg),
                                3 => format!("errno {} from", arg),
                                4 => format!("only {} bytes written by", arg),
                                _ => format!("only {} bytes written by, then no space after", arg),
                            };
                            format!("row sizes {}, {} rows logged before, then {} call {} ({})", kind, before, what, i, name)
                        },
                        |o| faulty(kind, before, (i as i64, k, arg), o),
                    );
                }
            }
        }
    }
    for (n, per, before, preempt) in [(2usize, 1usize, 0usize, 12usize), (2, 1, 2, 12), (3, 1, 0, 3), (3, 1, 1, 2), (2, 2, 0, 3), (2, 2, 1, 3), (4, 1, 0, 2), (3, 2, 0, 2)] {
        for kind in 0..ctx.pick(2, 4) {
            let extra = ctx.pick(0, 2);
            ctx.case(
                || format!("{} threads with {} rows each after {} rows, row sizes {}: every schedule with at most {} switches", n, per, before, kind, preempt + extra),
                |o| schedules(n, per, kind, before, preempt + extra, 200_000, o),
            );
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--child" {
        child_main(&args[2..]);
        return;
    }
    mc::main(
        Check {
            id: "L02",
            level: "model_checking",
            rule: "crashes: every file-system call of two appends (4 row-size patterns, 0-5 earlier rows) x crash before, crash \
                   after, crash inside a write after j bytes (about 16 (thorough 400) values of j per write, all near the ends), \
                   errors EINTR/EIO/ENOSPC, short writes and short writes followed by an error; then the log is read and one more \
                   row is appended in a fresh process. Concurrency: 2-4 threads appending 1-2 rows, every schedule of their \
                   file-system calls with a bounded number of switches (unbounded for two threads). State = contents of the log \
                   directory, or schedule; transition = call.",
            assumptions: &["a crash ends the process; writes that completed before it are on disk (no power failure)", "one process at a time writes the log"],
            case_timeout_s: 300,
            single_thread: false,
            ..Check::DEFAULT
        },
        explore,
    )
}
