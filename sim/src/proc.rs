//! Processes: every simulated system lives in a fresh child process, because the code
//! under test keeps its tables for the life of the process.
use simcore::json::{self, J};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Shared memory of a fixed size.
pub struct Shm {
    pub base: *mut u8,
    pub size: usize,
}
const HDR: usize = 64;
impl Shm {
    pub fn new(size: usize) -> Shm {
        let base = unsafe { mmap(std::ptr::null_mut(), size, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
        assert!(base as isize != -1, "harness: mmap");
        Shm { base, size }
    }
    pub fn len(&self) -> &AtomicU64 {
        unsafe { &*(self.base as *const AtomicU64) }
    }
    /// a word for progress marks
    pub fn mark(&self) -> &AtomicU32 {
        unsafe { &*(self.base.add(8) as *const AtomicU32) }
    }
    pub fn put(&self, s: &[u8]) {
        let n = s.len().min(self.size - HDR);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.base.add(HDR), n) };
        self.len().store(n as u64, Release);
    }
    pub fn get(&self) -> Vec<u8> {
        let n = self.len().load(Acquire) as usize;
        unsafe { std::slice::from_raw_parts(self.base.add(HDR), n).to_vec() }
    }
    pub fn get_str(&self) -> String {
        String::from_utf8_lossy(&self.get()).into_owned()
    }
}

/// Where a dying child writes what happened.
static mut FATAL_SHM: Option<(*mut u8, usize)> = None;
fn fatal_shm() -> Option<Shm> {
    unsafe { FATAL_SHM.map(|(base, size)| Shm { base, size }) }
}
pub fn on_fatal(m: &'static str) -> ! {
    simrt::quiet(|| {
        let (sw, sp) = simrt::trace_so_far();
        let j = json::obj(vec![
            ("fatal", json::s(m)),
            ("multi", J::Bool(simrt::multi())),
            ("switches", json::arr(&sw, |(a, b)| J::A(vec![json::n(*a as i64), json::n(*b)]))),
            ("spurious_waits", json::arr(&sp, |a| json::n(*a as i64))),
        ]);
        match fatal_shm() {
            Some(s) => s.put(j.dump().as_bytes()),
            None => eprintln!("{}", j.dump()),
        }
    });
    simrt::die(97)
}
pub fn harness_panic(m: &str) -> ! {
    simrt::quiet(|| match fatal_shm() {
        Some(s) => s.put(m.as_bytes()),
        None => eprintln!("harness: {m}"),
    });
    simrt::die(98)
}

pub enum Ended {
    Ok,
    /// budget used up or deadlock: message and schedule so far
    Fatal(String, J),
    /// killed by a signal, or an abort
    Crash(String),
    /// wall-clock backstop
    Timeout,
    Harness(String),
}
static mut COV: Option<*mut u8> = None;
/// Basic blocks reached are collected here from all children.
pub fn set_cov(s: &Shm) {
    unsafe { COV = Some(s.base.add(HDR)) }
}

/// Stack for runs in general: nesting in the source is nesting of calls, and how much
/// of it fits is not what is judged.
pub const DEEP: u64 = 64;
/// Megabytes the stack may grow to, from here on.
pub fn stack(mb: u64) {
    let m = [mb << 20, DEEP << 20];
    unsafe { setrlimit(3, &m) };
}

/// Fork; the child runs `f` and exits.
pub fn in_child(shm: &Shm, secs: u32, f: impl FnOnce()) -> Ended {
    shm.len().store(0, Relaxed);
    shm.mark().store(0, Relaxed);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        unsafe {
            FATAL_SHM = Some((shm.base, shm.size));
            simrt::ON_FATAL = on_fatal;
            prctl(1, 9, 0, 0, 0);
            alarm(secs);
            // memory used up is a crash of the run, not of the sandbox
            let m = [3u64 << 30, 3u64 << 30];
            setrlimit(9, &m);
            stack(DEEP);
        }
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
            simrt::die(96);
        }
        unsafe {
            if let Some(c) = COV {
                let n = (simrt::GUARDS as usize + 1).min(simrt::MAXG);
                for i in 0..n {
                    if simrt::HIT[i] != 0 {
                        *c.add(i) = 1;
                    }
                }
            }
        }
        simrt::die(0);
    }
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let sig = st & 0x7f;
    let code = (st >> 8) & 0xff;
    if sig == 14 {
        Ended::Timeout
    } else if sig != 0 {
        Ended::Crash(format!("killed by signal {sig}"))
    } else if code == 0 {
        Ended::Ok
    } else if code == 97 {
        let j = J::parse(&shm.get_str()).unwrap_or(J::Null);
        Ended::Fatal(j.get("fatal").str().to_string(), j)
    } else if code == 98 {
        Ended::Harness(shm.get_str())
    } else if code == 96 {
        Ended::Crash("a panic left the run".into())
    } else {
        Ended::Crash(format!("exit status {code}"))
    }
}
pub fn spawn(f: impl FnOnce()) -> i32 {
    let pid = unsafe { fork() };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        unsafe {
            prctl(1, 9, 0, 0, 0);
        }
        f();
        simrt::die(0);
    }
    pid
}
pub fn wait(pid: i32) -> i32 {
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    st
}
/// No address-space randomisation: addresses are the same in every run.
pub fn fixed_addresses() {
    const NO_RANDOM: u64 = 0x0040000;
    unsafe {
        let p = personality(0xffff_ffff);
        let z = [0u64, 0];
        setrlimit(4, &z); // no core files
        if p >= 0 && p as u64 & NO_RANDOM == 0 && std::env::var_os("SIM_NO_REEXEC").is_none() {
            if personality(p as u64 | NO_RANDOM) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args_os().skip(1))
                    .env("SIM_NO_REEXEC", "1")
                    .exec();
                eprintln!("harness: exec: {e}");
            }
        }
    }
}
