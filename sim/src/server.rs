//! Fork servers: real c8s processes parked before main(), one per worker,
//! build profile and slot.  Everything a simulated process does reaches us as
//! a request in a shared-memory region; exactly one party runs at a time.

use crate::scenario::ProcSpec;
use std::ffi::CString;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const DATA_MAX: usize = 1 << 20;
const PATH_MAX: usize = 4096;
const ARGS_MAX: usize = 65536;

pub const ST_RUN: u32 = 1;
pub const ST_REQ: u32 = 2;
pub const ST_EXIT: u32 = 3;
pub const ST_START: u32 = 4;
pub const ST_READY: u32 = 5;

#[repr(C)]
pub struct Region {
    state: u32,
    pid: u32,
    op: u32,
    path1_len: u32,
    path2_len: u32,
    data_len: u32,
    a: [i64; 6],
    ret: i64,
    err: i32,
    die: i32,
    r: [i64; 8],
    wstatus: i32,
    alloc_count: u32,
    alloc_fired: u32,
    unhandled: u32,
    alloc_fail_at: u32,
    alloc_fail_len: u32,
    heap_shift: u32,
    argc: u32,
    envc: u32,
    args_len: u32,
    cpu_limit: u32,
    stack_kb: u32,
    cpus: u32,
    args: [u8; ARGS_MAX],
    path1: [u8; PATH_MAX],
    path2: [u8; PATH_MAX],
    data: [u8; DATA_MAX],
}

#[derive(Clone)]
pub struct Config {
    pub debug_bin: String,
    pub release_bin: String,
    pub shim: String,
    pub cpu_limit: u32,
    pub wall_limit: Duration,
}

pub struct Server {
    child: Child,
    region: *mut Region,
    wall_limit: Duration,
}

/// A simulated process is parked at a request, or gone.
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum At {
    Request,
    Exited(i32),
    /// No request and no exit within the wall-clock limit.
    Stuck,
    /// The fork server itself is gone: a harness failure.
    Broken,
}

impl Server {
    pub fn spawn(cfg: &Config, release: bool) -> Result<Server, String> {
        unsafe {
            let name = CString::new("c8sim").unwrap();
            let fd = libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC);
            if fd < 0 {
                return Err("memfd_create failed".into());
            }
            let size = std::mem::size_of::<Region>();
            if libc::ftruncate(fd, size as i64) != 0 {
                return Err("ftruncate failed".into());
            }
            let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            if p == libc::MAP_FAILED {
                return Err("mmap failed".into());
            }
            let bin = if release { &cfg.release_bin } else { &cfg.debug_bin };
            let mut c = Command::new(bin);
            c.env_clear()
                .env("LD_PRELOAD", &cfg.shim)
                .env("C8SIM_SHM_FD", "100")
                .current_dir("/")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null());
            c.pre_exec(move || {
                if libc::dup2(fd, 100) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                // Best effort: with it, even addresses repeat from run to run.
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
            let child = c.spawn().map_err(|e| format!("cannot start {}: {}", bin, e))?;
            libc::close(fd);
            let mut s = Server { child, region: p as *mut Region, wall_limit: cfg.wall_limit };
            let region = s.region;
            (*region).cpu_limit = cfg.cpu_limit;
            (*region).stack_kb = 8192;
            let deadline = Instant::now() + Duration::from_secs(60);
            loop {
                let st = s.state();
                if st == ST_READY {
                    return Ok(s);
                }
                if let Ok(Some(x)) = s.child.try_wait() {
                    return Err(format!("fork server ended early: {:?}", x));
                }
                if Instant::now() > deadline {
                    return Err("fork server did not start".into());
                }
                s.futex_wait(st, Duration::from_millis(20));
            }
        }
    }

    fn word(&self) -> &std::sync::atomic::AtomicU32 {
        unsafe { &*(std::ptr::addr_of!((*self.region).state) as *const std::sync::atomic::AtomicU32) }
    }
    fn state(&self) -> u32 {
        self.word().load(std::sync::atomic::Ordering::SeqCst)
    }
    fn set_state(&self, v: u32) {
        self.word().store(v, std::sync::atomic::Ordering::SeqCst);
        unsafe {
            libc::syscall(libc::SYS_futex, self.word().as_ptr(), libc::FUTEX_WAKE, i32::MAX, 0, 0, 0);
        }
    }
    fn futex_wait(&self, v: u32, t: Duration) {
        let ts = libc::timespec { tv_sec: t.as_secs() as i64, tv_nsec: t.subsec_nanos() as i64 };
        unsafe {
            libc::syscall(libc::SYS_futex, self.word().as_ptr(), libc::FUTEX_WAIT, v, &ts as *const _, 0, 0);
        }
    }

    /// Waits until the running process parks or exits.
    pub fn wait(&mut self) -> At {
        let mut deadline: Option<Instant> = None;
        loop {
            match self.state() {
                ST_REQ => return At::Request,
                ST_EXIT => return At::Exited(unsafe { (*self.region).wstatus }),
                st => {
                    self.futex_wait(st, Duration::from_millis(500));
                    let s2 = self.state();
                    if s2 == ST_REQ || s2 == ST_EXIT {
                        continue;
                    }
                    let d = *deadline.get_or_insert_with(|| Instant::now() + self.wall_limit);
                    if let Ok(Some(_)) = self.child.try_wait() {
                        return At::Broken;
                    }
                    if Instant::now() > d {
                        let pid = unsafe { (*self.region).pid };
                        if pid > 1 {
                            unsafe { libc::kill(pid as i32, libc::SIGKILL) };
                        }
                        let t = Instant::now() + Duration::from_secs(20);
                        while self.state() != ST_EXIT && Instant::now() < t {
                            let st = self.state();
                            self.futex_wait(st, Duration::from_millis(100));
                        }
                        return if self.state() == ST_EXIT { At::Stuck } else { At::Broken };
                    }
                }
            }
        }
    }

    pub fn start(&mut self, p: &ProcSpec) -> At {
        unsafe {
            let r = &mut *self.region;
            let mut n = 0;
            let mut put = |r: &mut Region, s: &[u8]| {
                let k = s.len().min(ARGS_MAX - n - 1);
                r.args[n..n + k].copy_from_slice(&s[..k]);
                r.args[n + k] = 0;
                n += k + 1;
            };
            for a in &p.argv {
                put(r, a.as_bytes());
            }
            for (k, v) in &p.env {
                put(r, format!("{}={}", k, v).as_bytes());
            }
            r.argc = p.argv.len() as u32;
            r.envc = p.env.len() as u32;
            r.args_len = n as u32;
            r.alloc_count = 0;
            r.alloc_fired = 0;
            r.unhandled = 0;
            r.die = 0;
            r.alloc_fail_at = p.alloc_fail_at;
            r.alloc_fail_len = p.alloc_fail_len;
            r.heap_shift = p.heap_shift;
            r.cpus = [1, 2, 3, 4, 6, 8, 16, 64][(crate::rng::mix(&[p.entropy, 11]) % 8) as usize];
        }
        self.set_state(ST_START);
        self.wait()
    }

    pub fn request(&self) -> (u32, [i64; 6], String, String, Vec<u8>) {
        unsafe {
            let r = &*self.region;
            let p1 = String::from_utf8_lossy(&r.path1[..r.path1_len as usize]).into_owned();
            let p2 = String::from_utf8_lossy(&r.path2[..r.path2_len as usize]).into_owned();
            (r.op, r.a, p1, p2, r.data[..r.data_len as usize].to_vec())
        }
    }

    /// The pending call, if it is a lock request that is prepared to wait.
    pub fn wants_lock(&self) -> Option<(i64, i64)> {
        unsafe {
            let r = &*self.region;
            (r.op == crate::kernel::op::FLOCK && r.a[1] & libc::LOCK_NB as i64 == 0).then(|| (r.a[0], r.a[1]))
        }
    }

    pub fn answer(&mut self, resp: &crate::kernel::Resp) -> At {
        unsafe {
            let r = &mut *self.region;
            r.ret = resp.ret;
            r.err = resp.err;
            r.die = resp.die as i32;
            r.r = resp.r;
            r.data[..resp.data.len()].copy_from_slice(&resp.data);
        }
        self.set_state(ST_RUN);
        self.wait()
    }

    pub fn allocs(&self) -> (u32, u32) {
        unsafe { ((*self.region).alloc_count, (*self.region).alloc_fired) }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe {
            libc::munmap(self.region as *mut _, std::mem::size_of::<Region>());
        }
    }
}
