//! Per-run context in memory shared between a worker and the forked child that executes a
//! run: counters, event log hash, verdict. Nothing here draws randomness or reads a clock.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, Ordering};

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum C { $($n),*, _end }
        pub const CNAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
counters!(
    // events
    stream_reads, stream_writes, syscall_events, processes_run, thread_switches, bytes_delivered, bytes_accepted,
    // faults that actually fired
    fault_short_read, fault_short_write, fault_eintr_read, fault_eintr_write, fault_read_error_passing,
    fault_read_error_lasting, fault_write_error_passing, fault_write_error_lasting, fault_write_zero,
    fault_damaged_byte, fault_truncated_stream, fault_eintr_open, fault_open_error, fault_sys_read_error,
    fault_sys_write_error, fault_disk_full, fault_meta_error, fault_stderr_short, fault_stderr_error, fault_kill_before,
    fault_kill_after, fault_kill_mid_write, fault_process_stall, fault_no_memory, fault_clock, fault_environment, fault_heap_layout, fault_inode_numbers, fault_unforeseen_file,
    // probes: rare conditions worth reaching
    probe_split_in_utf8, probe_split_in_crlf, probe_eintr_at_eof, probe_line_over_8k, probe_source_over_64k, probe_source_over_1m,
    probe_fail_inside_line, probe_fail_between_lines, probe_fail_at_eof, probe_refused_source, probe_sut_panicked,
    probe_sut_exited, probe_write_fail_in_padding_or_tables, probe_write_after_failed_write, probe_session_after_failed_read, probe_two_files, probe_cause_named, probe_earlier_work, probe_reader_nested,
    probe_big_endian, probe_wide_record, probe_out_longer_before, probe_out_shorter_before, probe_out_absent_before,
    probe_out_is_symlink, probe_alias_same_path, probe_alias_symlink, probe_alias_hardlink, probe_default_output, probe_bytes_behind_name, probe_odd_description, probe_odd_refused, probe_clock_asked, probe_entropy_asked, probe_worlds_compared,
    probe_killed_leaving_partial, probe_failed_after_truncate, probe_shared_source, probe_switch_between_open_and_write,
    probe_neighbour_killed, probe_neighbour_failed, probe_bad_line_after_big_line, probe_storm_over_64,
    probe_refusing_forever, probe_exit0, probe_exit_fail, probe_rerun_after_kill, probe_rerun_after_fail,
    probe_decode_refused_damage, probe_announced_over_allowance, probe_malformed_command, probe_decode_accepted_damage,
    skipped_plan, inconclusive_run, control_also_fails,
);
pub const NC: usize = C::_end as usize;

pub const RUNNING: u32 = 0;
pub const DONE: u32 = 1;
pub const VIOL: u32 = 2;
pub const HARNESS: u32 = 3;

#[repr(C)]
pub struct Shm {
    pub state: u32,
    /// what a child that dies without verdict means: 0 = fine, 1 = violation `msg`, 2 = violation if it aborted
    pub death: u32,
    pub hash: u64,
    pub steps: u64,
    pub cnt: [u64; NC],
    pub class_len: u32,
    pub msg_len: u32,
    pub class: [u8; 64],
    pub msg: [u8; 2048],
}

static SHM: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM.store(p as *mut Shm, Ordering::SeqCst);
    }
}
#[allow(clippy::mut_from_ref)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM.load(Ordering::Relaxed) }
}
pub fn reset() {
    unsafe { std::ptr::write_bytes(SHM.load(Ordering::Relaxed), 0, 1) }
    shm().hash = 0xcbf29ce484222325;
}
/// Set the record of the last execution aside while another one runs.
pub fn save() -> Box<Shm> {
    unsafe { Box::new(std::ptr::read(SHM.load(Ordering::Relaxed))) }
}
pub fn restore(s: Box<Shm>) {
    unsafe { std::ptr::write(SHM.load(Ordering::Relaxed), *s) }
}
pub fn cnt(c: C) {
    shm().cnt[c as usize] += 1;
}
pub fn cnt_n(c: C, n: u64) {
    shm().cnt[c as usize] += n;
}
pub fn log(x: u64) {
    let s = shm();
    s.hash = crate::rng::mix(s.hash ^ x);
    s.steps += 1;
}
pub fn log_str(t: &str) {
    let mut h = 5381u64;
    for b in t.bytes() {
        h = h.wrapping_mul(33) ^ b as u64;
    }
    log(h);
}

fn put(class: &str, msg: &str) {
    let s = shm();
    let c = class.as_bytes();
    let n = c.len().min(64);
    s.class[..n].copy_from_slice(&c[..n]);
    s.class_len = n as u32;
    let mut m = msg.len().min(2048);
    while !msg.is_char_boundary(m) {
        m -= 1;
    }
    s.msg[..m].copy_from_slice(&msg.as_bytes()[..m]);
    s.msg_len = m as u32;
}
pub fn class() -> String {
    String::from_utf8_lossy(&shm().class[..shm().class_len as usize]).into_owned()
}
pub fn msg() -> String {
    String::from_utf8_lossy(&shm().msg[..shm().msg_len as usize]).into_owned()
}

/// Record a violation and end the run at once.
pub fn violation_now(class: &str, msg: &str) -> ! {
    put(class, msg);
    shm().state = VIOL;
    unsafe { libc::_exit(0) }
}
pub fn inconclusive() -> ! {
    cnt(C::inconclusive_run);
    shm().state = DONE;
    unsafe { libc::_exit(0) }
}
/// From now on, the death of the child means: fine.
pub fn death_is_fine() {
    shm().death = 0;
}
/// From now on, the death of the child is this violation.
pub fn death_is(class: &str, msg: &str) {
    put(class, msg);
    shm().death = 1;
}

/// From now on, an abort of the child is this violation.
pub fn abort_is(class: &str, msg: &str) {
    put(class, msg);
    shm().death = 2;
}

pub enum V {
    Ok,
    Viol(String, String),
    Harness(String),
}
pub type R = Result<(), (String, String)>;
pub fn bad<T>(class: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((class.to_string(), msg.into()))
}

/// Call code under test; a panic is its way to report failure.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    crate::meter::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::meter::leave();
    r.map_err(|e| {
        cnt(C::probe_sut_panicked);
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

static mut ENTROPY: u64 = 0;
/// The only entropy the process offers: std's hash keys come from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let b = buf as *mut u8;
    for i in 0..len {
        ENTROPY = ENTROPY.wrapping_add(0x9E3779B97F4A7C15);
        *b.add(i) = crate::rng::mix(ENTROPY) as u8;
    }
    len as libc::ssize_t
}

static mut TICKS: u32 = 0;
/// Five seconds more have passed; after four of these the run counts as hung. (Ticks that
/// only a stalled machine missed are not made up for.)
extern "C" fn tick(_: libc::c_int) {
    unsafe {
        TICKS += 1;
        if TICKS >= 4 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::raise(libc::SIGALRM);
        } else {
            libc::alarm(5);
        }
    }
}

/// Run `f` in a forked child and turn what happened into a verdict.
pub fn in_child(f: impl FnOnce() -> R, entropy: u64) -> V {
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return V::Harness("fork failed".into());
        }
        if pid == 0 {
            ENTROPY = entropy;
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(nul, 1);
            libc::dup2(nul, 2);
            let lim = libc::rlimit { rlim_cur: 16, rlim_max: 18 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = tick as *const () as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
            libc::alarm(5);
            std::panic::set_hook(Box::new(|_| {}));
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(Ok(())) => shm().state = DONE,
                Ok(Err((c, m))) => {
                    put(&c, &m);
                    shm().state = VIOL;
                }
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    put("harness", &m);
                    shm().state = HARNESS;
                }
            }
            libc::_exit(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                return V::Harness("waitpid failed".into());
            }
        }
        match shm().state {
            DONE => V::Ok,
            VIOL => V::Viol(class(), msg()),
            HARNESS => V::Harness(msg()),
            _ => {
                // ended inside the code under test
                if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
                    return V::Harness("run was killed from outside".into());
                }
                if libc::WIFSIGNALED(st) && [libc::SIGXCPU, libc::SIGALRM].contains(&libc::WTERMSIG(st)) {
                    return V::Viol("hang".into(), "did not end (time limit of the run)".into());
                }
                cnt(C::probe_sut_exited);
                log(st as u64);
                let aborted = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGABRT;
                if shm().death == 1 || shm().death == 2 && aborted {
                    V::Viol(class(), format!("{} (process ended with wait status {:#x})", msg(), st))
                } else {
                    V::Ok
                }
            }
        }
    }
}
