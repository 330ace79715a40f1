//! The at-asm command under the simulator: real processes whose every file call is decided
//! by the plan, one call of one process at a time, on a scratch directory.
use crate::ctx::*;
use crate::json::J;
use crate::model;
use std::collections::BTreeMap;
use std::fs;
use std::io::Read as _;
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

#[repr(C)]
struct Req {
    op: i32,
    fd: i32,
    len: i64,
    prev: i64,
    perr: i32,
    flags: i32,
    path: [u8; 1024],
    path2: [u8; 1024],
}
#[repr(C)]
struct Rsp {
    verdict: i32,
    err: i32,
    n: i64,
}
const GO: i32 = 0;
const CLIP: i32 = 1;
const FAIL: i32 = 2;
const KILL_BEFORE: i32 = 3;
const KILL_AFTER: i32 = 4;
const CLIP_KILL: i32 = 5;
const ZERO: i32 = 6;
const GIFT: i32 = 7;
/// In a plan: a write that accepts nothing.
pub const WZERO: i64 = 999;
const OPEN: i32 = 2;
const READ: i32 = 3;
const WRITE: i32 = 4;
const CLOSE: i32 = 5;
const DUP: i32 = 19;
const NOMEM: i32 = 24;
const CLOCK: i32 = 25;
const ENTROPY: i32 = 26;
const START: i32 = 1;
const STAT: i32 = 6;
const LSTAT: i32 = 8;

/// What is at a path, symbolic links followed.
#[derive(Clone, PartialEq, Debug)]
pub enum At {
    Absent,
    File(Vec<u8>),
    Other,
}

pub struct Env {
    pub base: PathBuf,
    bin: PathBuf,
    shim: PathBuf,
    uid: bool,
}

impl Env {
    pub fn new(tag: &str) -> Env {
        let pref = if fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
        let base = PathBuf::from(format!("{}/atsim-{:08}-{}", pref, std::process::id(), tag));
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(&base).expect("scratch");
        let me = std::env::var("ATSIM_TOOLS").unwrap_or_else(|_| "/verif/target".into());
        let mut e = Env {
            base,
            bin: PathBuf::from(&me).join("bin/at-asm"),
            shim: PathBuf::from(&me).join("bin/shim.so"),
            uid: unsafe { libc::geteuid() } == 0,
        };
        if e.uid && !e.works() {
            e.uid = false;
        }
        e
    }
    /// Can the command be started as an unprivileged user here?
    fn works(&self) -> bool {
        let d = self.base.join("probe");
        if fs::create_dir_all(&d).is_err() || std::os::unix::fs::chown(&d, Some(65534), Some(65534)).is_err() {
            return false;
        }
        let c = |p: &std::path::Path| std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
        let (bin, shim, f) = (c(&self.bin), c(&self.shim), c(&d.join("f")));
        let mut st = -1;
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let ok = libc::setresgid(65534, 65534, 65534) == 0
                    && libc::setresuid(65534, 65534, 65534) == 0
                    && libc::access(bin.as_ptr(), libc::X_OK) == 0
                    && libc::access(shim.as_ptr(), libc::R_OK) == 0
                    && libc::open(f.as_ptr(), libc::O_CREAT | libc::O_WRONLY, 0o600) >= 0;
                libc::_exit(!ok as i32);
            }
            while pid > 0 && libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        }
        let ok = st == 0;
        let _ = fs::remove_dir_all(&d);
        ok
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.base);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Exit(i32),
    /// killed by the simulator
    Killed,
    /// any other signal
    Signal(i32),
    /// exceeded its events
    Endless,
}
impl End {
    pub fn ok(self) -> bool {
        self == End::Exit(0)
    }
    pub fn failed(self) -> bool {
        matches!(self, End::Exit(c) if c != 0) || matches!(self, End::Signal(_))
    }
}

pub struct Proc {
    plan: J,
    pub src: String,
    pub out: String,
    src_real: Option<PathBuf>,
    out_real: PathBuf,
    child: Option<Child>,
    sock: i32,
    err: fs::File,
    pending: Option<Box<Req>>,
    pub end: Option<End>,
    ev: i64,
    pos: [usize; 5],
    fds: BTreeMap<i32, PathBuf>,
    last: (i32, i32, String),
    read_src: i64,
    wrote: i64,
    kill_sent: bool,
    rfail_fired: bool,
    // facts for the oracles
    pub src_read_failed: bool,
    pub out_write_failed: bool,
    pub failing: bool,
    pub no_memory: bool,
    pub cleanup_failed: bool,
    pub stderr_failed: bool,
    pub opened_out: bool,
    pub killed_midway: bool,
    pub stderr: String,
    /// what was written to standard output and standard error
    pub said: [i64; 2],
    /// the errors that opening, reading and writing were failed with, and other calls
    /// (interrupts and standard streams aside)
    pub errors: Vec<i32>,
    pub others: Vec<i32>,
    pub zero: bool,
}

fn cstr(b: &[u8]) -> String {
    let e = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..e]).into_owned()
}

pub fn at(p: &Path) -> At {
    match fs::metadata(p) {
        Err(_) => At::Absent,
        Ok(m) if m.is_file() => fs::read(p).map(At::File).unwrap_or(At::Other),
        Ok(_) => At::Other,
    }
}

/// Every entry below `d`, links not followed.
pub fn listing(d: &Path) -> BTreeMap<String, (char, Vec<u8>)> {
    fn go(root: &Path, d: &Path, out: &mut BTreeMap<String, (char, Vec<u8>)>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let k = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                let m = match fs::symlink_metadata(&p) {
                    Ok(m) => m,
                    Err(_) => continue,
                };
                let t = m.file_type();
                if t.is_symlink() {
                    let l = fs::read_link(&p).map(|x| x.to_string_lossy().into_owned().into_bytes()).unwrap_or_default();
                    out.insert(k, ('l', l));
                } else if t.is_dir() {
                    out.insert(k, ('d', vec![]));
                    go(root, &p, out);
                } else if t.is_fifo() || t.is_socket() {
                    out.insert(k, ('s', vec![]));
                } else {
                    out.insert(k, ('f', fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut o = BTreeMap::new();
    go(d, d, &mut o);
    o
}

/// Source bytes of a file entry.
pub fn source(f: &J) -> Vec<u8> {
    let mut v = model::render(f.a("lines"), f.i("nonl") != 0);
    let d = f.get("dmg");
    if !d.is_null() {
        let at = (d.u("at") as usize).min(v.len());
        v.insert(at, d.u("b") as u8);
    }
    v
}
pub fn filler(f: &J) -> Vec<u8> {
    let mut r = crate::rng::Rng::new(f.u("fill"));
    (0..f.u("len").min(1 << 20)).map(|_| r.u64() as u8).collect()
}

/// What an earlier run left: the object of "olines", then cut off, changed at one byte, prolonged.
fn earlier_object(f: &J) -> Option<Vec<u8>> {
    let mut v = match model::assemble(f.a("olines")) {
        Some(Ok(o)) => model::image(&o)?,
        _ => return None,
    };
    if !f.get("cut").is_null() {
        v.truncate(f.u("cut") as usize);
    }
    if !f.get("at").is_null() && !v.is_empty() {
        let i = f.u("at") as usize % v.len();
        v[i] ^= 0x11;
    }
    for i in 0..f.u("add").min(1 << 16) {
        v.push((i * 7) as u8);
    }
    Some(v)
}

/// The output path of a command line, relative to the directory.
pub fn out_path(src: &str, out: &str) -> String {
    if !out.is_empty() {
        return out.trim_start_matches('@').to_string();
    }
    // default output: the source path with the extension o
    let s = src.trim_start_matches('@');
    let (d, f) = match s.rfind('/') {
        Some(i) => s.split_at(i + 1),
        None => ("", s),
    };
    let stem = match f.rfind('.') {
        Some(i) if i > 0 => &f[..i],
        _ => f,
    };
    format!("{}{}.o", d, stem)
}

/// Contents of files the program looks for although nobody named them.
const GIFTS: [&str; 5] = ["", "1\n", "debug = 1\nalign = 16\nsection = .data\n", "section .text\nret\n", "\u{fffd}\0\n"];

pub struct World<'a> {
    pub env: &'a Env,
    pub dir: PathBuf,
    pub ent: u64,
    phases: std::cell::Cell<usize>,
}

impl<'a> World<'a> {
    pub fn new(env: &'a Env, ent: u64) -> Result<World<'a>, String> {
        let dir = env.base.join("d");
        let tmp = env.base.join("tmp");
        let w = World { env, dir, ent, phases: Default::default() };
        for d in [&w.dir, &tmp] {
            let _ = fs::remove_dir_all(d);
            fs::create_dir_all(d).map_err(|e| format!("scratch: {}", e))?;
            w.own(d);
        }
        for (i, t) in GIFTS.iter().enumerate() {
            fs::write(env.base.join(format!("gift{}", i)), t).map_err(|e| format!("scratch: {}", e))?;
        }
        Ok(w)
    }
    fn own(&self, p: &Path) {
        if self.env.uid {
            let _ = std::os::unix::fs::lchown(p, Some(65534), Some(65534));
        }
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.dir.join(p)
    }
    /// Create or replace a file as the plan describes.
    pub fn place(&self, f: &J) -> bool {
        let name = f.s("p");
        if name.is_empty() || name.starts_with('/') || name.split('/').any(|c| c == "..") {
            return false;
        }
        let p = self.path(name);
        if let Some(d) = p.parent() {
            if fs::create_dir_all(d).is_err() {
                return false;
            }
            self.own(d);
        }
        let ok = if f.i("dir") != 0 {
            fs::create_dir_all(&p).is_ok()
        } else if f.i("gone") != 0 {
            let _ = fs::remove_file(&p);
            return true;
        } else if !f.s("link").is_empty() {
            let _ = fs::remove_file(&p);
            !f.s("link").starts_with('/')
                && !f.s("link").contains("..")
                && std::os::unix::fs::symlink(f.s("link"), &p).is_ok()
        } else if !f.s("hard").is_empty() {
            let _ = fs::remove_file(&p);
            fs::hard_link(self.path(f.s("hard")), &p).is_ok()
        } else if !f.get("fill").is_null() {
            if p.is_dir() {
                return false;
            }
            fs::write(&p, filler(f)).is_ok()
        } else if !f.get("olines").is_null() {
            if p.is_dir() {
                return false;
            }
            match earlier_object(f) {
                Some(b) => fs::write(&p, b).is_ok(),
                None => false,
            }
        } else if !f.get("lines").is_null() {
            if p.is_dir() {
                return false;
            }
            fs::write(&p, source(f)).is_ok()
        } else {
            false
        };
        if ok {
            self.own(&p);
            if !f.get("mt").is_null() {
                if let Ok(h) = fs::File::open(&p) {
                    let t = libc::timespec { tv_sec: f.i("mt"), tv_nsec: 0 };
                    unsafe { libc::futimens(h.as_raw_fd(), [t, t].as_ptr()) };
                }
            }
        }
        ok
    }

    /// argument text: "@x" is the absolute form of x
    fn arg(&self, s: &str) -> String {
        match s.strip_prefix('@') {
            Some(r) => self.path(r).to_string_lossy().into_owned(),
            None => s.to_string(),
        }
    }

    fn spawn(&self, p: &J, idx: usize) -> Result<Proc, String> {
        let mut sv = [0i32; 2];
        let err = unsafe {
            if libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()) != 0 {
                return Err("socketpair".into());
            }
            let m = libc::memfd_create(c"err".as_ptr(), libc::MFD_CLOEXEC);
            if m < 0 {
                return Err("memfd".into());
            }
            fs::File::from_raw_fd(m)
        };
        let src = p.s("src").trim_start_matches('@').to_string();
        let out = out_path(p.s("src"), p.s("out"));
        let mut c = Command::new(&self.env.bin);
        let (sa, oa) = (self.arg(p.s("src")), self.arg(p.s("out")));
        match p.i("form") {
            _ if !p.get("args").is_null() => {
                // a command line that names no single source
                cnt(C::probe_malformed_command);
                c.args(p.a("args").iter().map(|a| self.arg(a.str())));
            }
            _ if p.s("out").is_empty() => {
                c.arg(&sa);
            }
            1 => {
                c.arg(&sa).arg("-o").arg(&oa);
            }
            _ => {
                c.arg("-o").arg(&oa).arg(&sa);
            }
        }
        if p.s("out").is_empty() {
            cnt(C::probe_default_output);
        }
        let tmp = self.env.base.join("tmp");
        let id = self.phases.get() * 10 + idx;
        let cwd = match p.s("cwd") {
            "" => self.dir.clone(),
            d => self.path(d),
        };
        let umask = if p.get("umask").is_null() { 0o022 } else { p.u("umask") as u32 & 0o077 };
        c.env_clear();
        for e in p.a("env") {
            let (k, v) = (e.s("k"), e.s("v"));
            if !k.is_empty() && !k.contains('=') && !k.starts_with("LD_") && !k.starts_with("MALLOC") && !k.starts_with("GLIBC") {
                c.env(k, v);
                cnt(C::fault_environment);
            }
        }
        if !p.s("decoy").is_empty() {
            // variables asked for may name a place where files of the same names lie
            c.env("ATSIM_DECOY", self.path(p.s("decoy")));
        }
        if !p.get("oom").is_null() {
            let o = p.get("oom");
            c.env("ATSIM_OOM", format!("{}:{}:{}", o.u("at"), o.u("sticky"), o.u("min")));
        }
        if !p.get("clk").is_null() {
            c.env("ATSIM_CLOCK", format!("{}:{}", p.i("clk"), p.i("step")));
            cnt(C::fault_clock);
        }
        if !p.get("heap").is_null() {
            c.env("ATSIM_HEAP", format!("{}:{}", p.u("heap") % 100000, p.u("fillb") & 0xff));
            cnt(C::fault_heap_layout);
        }
        let (ent, pid) = match p.get("ent").is_null() {
            true => (self.ent * 1000 + id as u64, 1000 + id as u64),
            false => (p.u("ent"), 2 + p.u("pid") % 4000000),
        };
        if !p.s("argv0").is_empty() {
            c.arg0(p.s("argv0"));
        }
        let stdin = match p.u("stdin") {
            0 => Stdio::null(),
            n => match fs::File::open(self.env.base.join(format!("gift{}", n as usize % GIFTS.len()))) {
                Ok(f) => Stdio::from(f),
                Err(_) => Stdio::null(),
            },
        };
        if p.u("ino") > 0 {
            cnt(C::fault_inode_numbers);
        }
        c.current_dir(&cwd)
            .env("LD_PRELOAD", &self.env.shim)
            .env("ATSIM_FD", "100")
            .env("ATSIM_ROOT", &self.env.base)
            .env("ATSIM_SEED", format!("{}", ent))
            .env("ATSIM_PID", format!("{}", pid))
            .env("ATSIM_ENV", format!("{}", p.u("aenv")))
            .env("ATSIM_INO", format!("{}", p.u("ino")))
            .env("TMPDIR", &tmp)
            .stdin(stdin)
            .stdout(Stdio::from(err.try_clone().map_err(|e| e.to_string())?))
            .stderr(Stdio::from(err.try_clone().map_err(|e| e.to_string())?));
        let (theirs, uid) = (sv[1], self.env.uid);
        unsafe {
            c.pre_exec(move || {
                if libc::dup2(theirs, 100) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 12, rlim_max: 14 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let lim = libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 };
                libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
                libc::umask(umask);
                libc::personality(0x0040000);
                if uid {
                    if libc::setresgid(65534, 65534, 65534) != 0 || libc::setresuid(65534, 65534, 65534) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                }
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("spawn: {}", e))?;
        unsafe { libc::close(sv[1]) };
        cnt(C::processes_run);
        Ok(Proc {
            src_real: fs::canonicalize(self.path(&src)).ok(),
            out_real: fs::canonicalize(self.path(&out)).unwrap_or_else(|_| self.path(&out)),
            plan: p.clone(),
            src,
            out,
            child: Some(child),
            sock: sv[0],
            err,
            pending: None,
            end: None,
            ev: 0,
            pos: [0; 5],
            fds: BTreeMap::new(),
            last: (0, -1, String::new()),
            read_src: 0,
            wrote: 0,
            kill_sent: false,
            rfail_fired: false,
            src_read_failed: false,
            out_write_failed: false,
            failing: false,
            no_memory: false,
            cleanup_failed: false,
            stderr_failed: false,
            opened_out: false,
            killed_midway: false,
            stderr: String::new(),
            said: [0; 2],
            errors: vec![],
            others: vec![],
            zero: false,
        })
    }

    /// Run the processes of one phase to their ends.
    pub fn phase(&self, ph: &J) -> Result<Vec<Proc>, String> {
        let mut ps = vec![];
        self.phases.set(self.phases.get() + 1);
        for (i, p) in ph.a("procs").iter().enumerate() {
            ps.push(self.spawn(p, i)?);
        }
        let sched = ph.a("sched");
        let mut k = 0;
        let mut cur = 0usize;
        loop {
            for p in ps.iter_mut() {
                if p.end.is_none() && p.pending.is_none() {
                    p.next()?;
                }
            }
            let live: Vec<usize> = (0..ps.len()).filter(|&i| ps[i].end.is_none()).collect();
            if live.is_empty() {
                break;
            }
            let t = if k < sched.len() {
                let x = sched[k].int() as usize;
                k += 1;
                live[x % live.len()]
            } else if live.contains(&cur) {
                cur
            } else {
                live[0]
            };
            if t != cur && ps.len() > 1 {
                cnt(C::thread_switches);
                if ps[cur].end.is_none() && ps[cur].opened_out && ps[cur].wrote == 0 {
                    cnt(C::probe_switch_between_open_and_write);
                }
            }
            cur = t;
            log(0x9000 + t as u64);
            let w = &self.dir;
            ps[t].answer(w);
        }
        for p in ps.iter_mut() {
            unsafe { libc::close(p.sock) };
            let mut s = Vec::new();
            let mut f = fs::File::open(format!("/proc/self/fd/{}", p.err.as_raw_fd())).map_err(|e| e.to_string())?;
            f.read_to_end(&mut s).map_err(|e| e.to_string())?;
            p.stderr = String::from_utf8_lossy(&s).into_owned();
        }
        Ok(ps)
    }
}

impl Proc {
    /// The processor time used so far, if the process sleeps.
    fn sleeping(&self) -> Option<String> {
        let s = fs::read_to_string(format!("/proc/{}/stat", self.child.as_ref()?.id())).ok()?;
        let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
        (f.first() == Some(&"S")).then(|| f.get(11..13).map(|x| x.join(" ")).unwrap_or_default())
    }
    /// Wait for this process's next call, or its end.
    fn next(&mut self) -> Result<(), String> {
        let mut q: Box<Req> = Box::new(unsafe { std::mem::zeroed() });
        unsafe {
            let mut pf = libc::pollfd { fd: self.sock, events: libc::POLLIN, revents: 0 };
            let mut waited = 0;
            let mut asleep = 0;
            let mut spent = String::new();
            loop {
                let r = libc::poll(&mut pf, 1, 5000);
                if r > 0 {
                    break;
                }
                if r == 0 {
                    waited += 5;
                    // asleep and using no time: waits for something that never comes
                    let s = self.sleeping();
                    asleep = if s.is_some() && s.as_deref() == Some(&spent) { asleep + 1 } else { 0 };
                    spent = s.unwrap_or_default();
                    if asleep >= 2 {
                        let _ = self.child.as_mut().unwrap().kill();
                        self.end = Some(End::Endless);
                        self.ev = self.ev.max(1);
                        break;
                    }
                    if waited >= 120 {
                        let _ = self.child.as_mut().unwrap().kill();
                        return Err("a process under test did not reach its next call".into());
                    }
                }
            }
            let n = libc::recv(self.sock, &mut *q as *mut Req as *mut libc::c_void, std::mem::size_of::<Req>(), 0);
            if n == std::mem::size_of::<Req>() as isize {
                self.pending = Some(q);
                return Ok(());
            }
        }
        let st = self.child.as_mut().unwrap().wait().map_err(|e| e.to_string())?;
        let e = match (st.code(), st.signal()) {
            (Some(c), _) => End::Exit(c),
            (_, Some(_)) if self.kill_sent => End::Killed,
            (_, s) => End::Signal(s.unwrap_or(0)),
        };
        if self.ev == 0 {
            return Err(format!("the command could not be started under the simulator ({:?})", e));
        }
        let e = if self.end == Some(End::Endless) { End::Endless } else { e };
        log(match e {
            End::Exit(c) => 0xE000 + c as u64,
            End::Killed => 0xE200,
            End::Signal(s) => 0xE300 + s as u64,
            End::Endless => 0xE400,
        });
        cnt(if e.ok() { C::probe_exit0 } else { C::probe_exit_fail });
        self.end = Some(e);
        Ok(())
    }

    fn list(&mut self, i: usize, key: &str) -> Option<i64> {
        let l = self.plan.a(key);
        let v = l.get(self.pos[i]).map(|x| x.int() as i64);
        self.pos[i] += 1;
        let t = match i {
            1 => self.plan.i("rt"),
            2 => self.plan.i("wt"),
            _ => 0,
        };
        v.or(if t > 0 { Some(t) } else { None })
    }

    fn answer(&mut self, dir: &Path) {
        let q = self.pending.take().unwrap();
        cnt(C::syscall_events);
        // what became of the previous call
        if self.last.0 == OPEN && q.prev >= 0 {
            let p = PathBuf::from(&self.last.2);
            let p = fs::canonicalize(&p).unwrap_or(p);
            // the output path may be a link to a file that this call created
            if p == self.out_real || fs::canonicalize(&self.out_real).map_or(false, |o| o == p) {
                self.opened_out = true;
            }
            self.fds.insert(q.prev as i32, p);
        } else if self.last.0 == DUP && q.prev >= 0 {
            if let Some(p) = self.fds.get(&self.last.1).cloned() {
                self.fds.insert(q.prev as i32, p);
            }
        } else if self.last.0 == READ && q.prev > 0 && self.is_src(self.last.1) {
            self.read_src += q.prev;
        } else if self.last.0 == WRITE && q.prev > 0 && self.last.1 > 2 {
            self.wrote += q.prev;
        } else if self.last.0 == CLOSE {
            self.fds.remove(&self.last.1);
        }
        let path = cstr(&q.path);
        let rel = path.strip_prefix(dir.to_str().unwrap_or("\u{1}")).unwrap_or("?").to_string();
        log((q.op as u64) << 48 ^ (q.fd as u64 & 0xfff) << 32 ^ if q.fd == 2 && q.op == WRITE { 0 } else { q.len as u64 & 0xffffffff });
        if self.last.1 != 2 {
            log(q.prev as u64 ^ (q.perr as u64) << 40);
        }
        if q.op != START {
            log_str(&rel);
        }
        let mut v = self.decide(&q);
        if v.verdict == GO && self.plan.u("gift") > 0 && self.unforeseen(&q, &path, dir) {
            cnt(C::fault_unforeseen_file);
            v = Rsp { verdict: GIFT, err: 0, n: (self.plan.u("gift") % GIFTS.len() as u64) as i64 };
        }
        self.zero |= v.verdict == ZERO;
        let std = q.op == WRITE && (q.fd == 1 || q.fd == 2);
        if v.verdict == FAIL && v.err != libc::EINTR && !std {
            if [OPEN, READ, WRITE].contains(&q.op) {
                self.errors.push(v.err);
            } else {
                self.others.push(v.err);
            }
        }
        if std && (v.verdict == GO || v.verdict == CLIP) {
            self.said[q.fd as usize - 1] += if v.verdict == CLIP { v.n.min(q.len) } else { q.len };
        }
        // a crash at this event?
        let kill = self.plan.get("kill").clone();
        if !kill.is_null() && kill.i("ev") == self.ev {
            self.kill_sent = true;
            let mid = q.op == WRITE && q.fd > 2;
            match kill.i("mode") {
                1 if v.verdict == GO || v.verdict == CLIP => {
                    cnt(C::fault_kill_after);
                    v.verdict = if v.verdict == CLIP { CLIP_KILL } else { KILL_AFTER };
                    self.killed_midway = self.opened_out;
                }
                2 if mid && (v.verdict == GO || v.verdict == CLIP) => {
                    cnt(C::fault_kill_mid_write);
                    let n = kill.i("n").max(0);
                    v = Rsp { verdict: CLIP_KILL, err: 0, n: if v.verdict == CLIP { n.min(v.n) } else { n } };
                    self.killed_midway = true;
                    cnt(C::probe_killed_leaving_partial);
                }
                _ => {
                    cnt(C::fault_kill_before);
                    self.killed_midway = self.opened_out;
                    v.verdict = KILL_BEFORE;
                }
            }
        }
        self.ev += 1;
        let total: i64 = 3000 + 8 * (self.read_src + self.wrote) + 4 * (0..5).map(|i| self.pos[i] as i64).sum::<i64>().min(20000);
        if self.ev > total {
            let _ = self.child.as_mut().unwrap().kill();
            self.end = Some(End::Endless);
            let _ = self.child.as_mut().unwrap().wait();
            return;
        }
        log((v.verdict as u64) << 32 ^ v.err as u64 ^ (v.n as u64) << 8);
        self.last = (q.op, q.fd, path);
        unsafe {
            libc::send(self.sock, &v as *const Rsp as *const libc::c_void, std::mem::size_of::<Rsp>(), libc::MSG_NOSIGNAL);
        }
    }

    /// Is this a look for a file that does not exist and that nobody named?
    fn unforeseen(&self, q: &Req, path: &str, dir: &Path) -> bool {
        let reads = q.op == OPEN && q.flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) == libc::O_RDONLY;
        let p = Path::new(path);
        let stem = |p: &Path| p.file_stem().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
        let name = p.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
        (reads || q.op == STAT || q.op == LSTAT)
            && !name.is_empty()
            && fs::symlink_metadata(p).is_err()
            && [&self.src, &self.out].iter().all(|f| {
                let f = dir.join(f);
                !name.contains(&stem(&f)) && f != p
            })
    }

    fn is_src(&self, fd: i32) -> bool {
        self.src_real.is_some() && self.fds.get(&fd) == self.src_real.as_ref()
    }

    fn decide(&mut self, q: &Req) -> Rsp {
        let go = Rsp { verdict: GO, err: 0, n: 0 };
        let fail = |e: i64| Rsp { verdict: FAIL, err: e as i32, n: 0 };
        let clip = |n: i64| Rsp { verdict: CLIP, err: 0, n };
        match q.op {
            START | CLOSE => go,
            NOMEM => {
                cnt(C::fault_no_memory);
                self.failing = true;
                self.no_memory = true;
                go
            }
            CLOCK => {
                cnt(C::probe_clock_asked);
                go
            }
            ENTROPY => {
                cnt(C::probe_entropy_asked);
                go
            }
            OPEN => match self.list(0, "o") {
                Some(0) => {
                    cnt(C::fault_eintr_open);
                    fail(libc::EINTR as i64)
                }
                Some(e) if e < 0 => {
                    cnt(C::fault_open_error);
                    self.failing = true;
                    fail(-e)
                }
                _ => go,
            },
            READ => {
                let rf = self.plan.get("rfail").clone();
                let mut cap = i64::MAX;
                if !rf.is_null() && self.is_src(q.fd) {
                    let left = rf.i("at") - self.read_src;
                    if left <= 0 && (rf.i("sticky") != 0 || !self.rfail_fired) {
                        self.rfail_fired = true;
                        self.failing = true;
                        self.src_read_failed = true;
                        cnt(C::fault_sys_read_error);
                        return fail(rf.i("err").max(1));
                    }
                    if left > 0 {
                        cap = left;
                    }
                }
                match self.list(1, "r") {
                    Some(0) => {
                        cnt(C::fault_eintr_read);
                        fail(libc::EINTR as i64)
                    }
                    Some(e) if e < 0 => {
                        self.failing = true;
                        if self.is_src(q.fd) {
                            self.src_read_failed = true;
                        }
                        cnt(C::fault_sys_read_error);
                        fail(-e)
                    }
                    Some(n) if n.min(cap) < q.len => {
                        cnt(C::fault_short_read);
                        clip(n.min(cap))
                    }
                    _ if cap < q.len => clip(cap),
                    _ => go,
                }
            }
            WRITE if q.fd == 1 || q.fd == 2 => match self.list(3, "e") {
                Some(0) => {
                    cnt(C::fault_stderr_short);
                    fail(libc::EINTR as i64)
                }
                Some(e) if e < 0 => {
                    cnt(C::fault_stderr_error);
                    self.stderr_failed = true;
                    fail(-e)
                }
                Some(n) if n < q.len => {
                    cnt(C::fault_stderr_short);
                    clip(n)
                }
                _ => go,
            },
            WRITE => {
                let d = self.plan.get("disk").clone();
                let mut cap = i64::MAX;
                if !d.is_null() {
                    let left = d.i("at") - self.wrote;
                    if left <= 0 {
                        cnt(C::fault_disk_full);
                        self.failing = true;
                        self.out_write_failed = true;
                        cnt(C::probe_failed_after_truncate);
                        if d.i("err") == WZERO {
                            return Rsp { verdict: ZERO, err: 0, n: 0 };
                        }
                        return fail(d.i("err").max(1));
                    }
                    cap = left;
                }
                match self.list(2, "w") {
                    Some(0) => {
                        cnt(C::fault_eintr_write);
                        fail(libc::EINTR as i64)
                    }
                    Some(e) if e < 0 => {
                        cnt(C::fault_sys_write_error);
                        self.failing = true;
                        self.out_write_failed = true;
                        if e == -WZERO {
                            return Rsp { verdict: ZERO, err: 0, n: 0 };
                        }
                        fail(-e)
                    }
                    Some(n) if n.min(cap) < q.len => {
                        cnt(C::fault_short_write);
                        clip(n.min(cap))
                    }
                    _ if cap < q.len => clip(cap),
                    _ => go,
                }
            }
            _ => match self.list(4, "m") {
                Some(e) if e < 0 => {
                    cnt(C::fault_meta_error);
                    self.failing = true;
                    if self.opened_out {
                        self.cleanup_failed = true;
                    }
                    fail(-e)
                }
                _ => go,
            },
        }
    }
}

pub fn same_file(a: &Path, b: &Path) -> bool {
    match (fs::metadata(a), fs::metadata(b)) {
        (Ok(x), Ok(y)) => x.ino() == y.ino() && x.dev() == y.dev(),
        _ => false,
    }
}
