//! Simulated streams: every answer to a read or write call is decided by the plan.
//!
//! Stream spec (JSON): {"ops":[..],"tail":k,"ia":[[at,count],..],"fail":{"at","kind","sticky"}}
//!   ops   one entry per call: 0 = interrupted, n = at most n bytes
//!   tail  after ops: at most k bytes per call (0 = no limit)
//!   ia    when exactly `at` bytes have passed: interrupt the next `count` calls
//!   ie    every call is interrupted this many times before it is answered
//!   fail  when exactly `at` bytes have passed: fail with `kind`, once or for ever
use crate::ctx::{cnt, log, violation_now, C};
use crate::json::J;
use crate::sched;
use std::io::{self, Error, ErrorKind, Read, Write};

pub const RKINDS: usize = 69;

/// An interruption, in the forms streams report it.
fn interrupted(n: u64) -> Error {
    match n % 4 {
        0 | 1 => Error::from(ErrorKind::Interrupted),
        2 => Error::from_raw_os_error(libc::EINTR),
        _ => Error::new(ErrorKind::Interrupted, "simulated interruption"),
    }
}
pub fn error(kind: u64, write: bool) -> Error {
    let os = Error::from_raw_os_error;
    match kind {
        0 => os(libc::EIO),
        1 => os(libc::EAGAIN),
        2 => Error::from(ErrorKind::UnexpectedEof),
        3 => os(libc::ETIMEDOUT),
        4 => Error::new(ErrorKind::Other, "simulated failure"),
        5 => Error::from(ErrorKind::InvalidData),
        6 => os(libc::ECONNRESET),
        7 => os(libc::EPIPE),
        8 => os(libc::EACCES),
        9 => {
            if write {
                os(libc::ENOSPC)
            } else {
                os(libc::EISDIR)
            }
        }
        10 => Error::from(ErrorKind::OutOfMemory),
        12 => os(libc::EINVAL),
        13 => os(libc::EBADF),
        14 => os(libc::ENXIO),
        15 => os(libc::EPERM),
        16 => os(if write { libc::EFBIG } else { libc::EOVERFLOW }),
        17 => os(if write { libc::EDQUOT } else { libc::ENOTCONN }),
        18 => os(if write { libc::EROFS } else { libc::ENODEV }),
        19 => os(libc::ENOMEM),
        20 => os(libc::EBUSY),
        21 => Error::from(ErrorKind::BrokenPipe),
        22 => Error::from(ErrorKind::WouldBlock),
        23 => Error::from(ErrorKind::TimedOut),
        24 => Error::from(ErrorKind::NotFound),
        25 => Error::from(ErrorKind::InvalidInput),
        26 => Error::from(ErrorKind::ConnectionAborted),
        27 => Error::new(ErrorKind::UnexpectedEof, "simulated failure"),
        28..=60 => {
            use ErrorKind::*;
            let kinds = [
                PermissionDenied, ConnectionRefused, ConnectionReset, NotConnected, AddrInUse, AddrNotAvailable, AlreadyExists, Unsupported,
                HostUnreachable, NetworkUnreachable, NetworkDown, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
                StaleNetworkFileHandle, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock,
                TooManyLinks, InvalidFilename, ArgumentListTooLong, InvalidData, Other, WriteZero, BrokenPipe, TimedOut, WouldBlock, OutOfMemory,
            ];
            let k = kinds[(kind - 28) as usize];
            if kind % 2 == 0 {
                Error::from(k)
            } else {
                Error::new(k, "simulated failure")
            }
        }
        61 => os(libc::ECANCELED),
        62 => os(libc::EILSEQ),
        63 => os(libc::EREMOTEIO),
        64 => os(libc::ENOLCK),
        65 => os(libc::ENOTSUP),
        66 => os(libc::ERANGE),
        67 => os(libc::ENOSYS),
        68 => Error::other("simulated failure"),
        _ => {
            if write {
                Error::from(ErrorKind::WriteZero)
            } else {
                os(libc::ESTALE)
            }
        }
    }
}

struct Ctl {
    id: u64,
    ops: Vec<i64>,
    pos: usize,
    tail: usize,
    ia: Vec<(usize, i64)>,
    ie: u64,
    ie_left: u64,
    fail: Option<(usize, u64, bool)>,
    failed: bool,
    done: usize,
    intr_row: u32,
    calls: u64,
    limit: u64,
}
enum Ans {
    Intr,
    Fail(u64),
    Take(usize),
}
impl Ctl {
    fn new(id: u64, spec: &J, total: usize) -> Ctl {
        let ops: Vec<i64> = spec.a("ops").iter().map(|x| x.int() as i64).collect();
        let ia: Vec<(usize, i64)> = spec
            .a("ia")
            .iter()
            .filter(|x| x.arr().len() == 2)
            .map(|x| (x.arr()[0].int() as usize, x.arr()[1].int() as i64))
            .collect();
        let f = spec.get("fail");
        let fail = if f.is_null() { None } else { Some((f.u("at") as usize, f.u("kind"), f.i("sticky") != 0)) };
        let ie = spec.u("ie").min(100);
        let intr: u64 = ops.iter().filter(|&&x| x == 0).count() as u64 + ia.iter().map(|x| x.1.max(0) as u64).sum::<u64>();
        Ctl {
            id,
            limit: (2000 + 8 * (total as u64 + ops.len() as u64 + intr)) * (1 + ie),
            ie,
            ie_left: ie,
            ops,
            pos: 0,
            tail: spec.u("tail") as usize,
            ia,
            fail,
            failed: false,
            done: 0,
            intr_row: 0,
            calls: 0,
        }
    }
    /// Decide the answer to a call that could pass at most `max` bytes (0 = end of input).
    fn answer(&mut self, want: usize, max: usize) -> Ans {
        sched::yield_now();
        self.calls += 1;
        if self.calls > self.limit {
            let repeats = self.failed;
            violation_now(
                "endless-retry",
                &format!(
                    "stream {} got {} calls while only {} bytes passed{}",
                    self.id,
                    self.calls,
                    self.done,
                    if repeats { "; the stream keeps failing" } else { "" }
                ),
            );
        }
        log(self.id << 56 ^ (want as u64) << 24 ^ self.done as u64);
        for e in self.ia.iter_mut() {
            if e.0 == self.done && e.1 > 0 {
                e.1 -= 1;
                self.intr_row += 1;
                if self.intr_row == 65 {
                    cnt(C::probe_storm_over_64);
                }
                return Ans::Intr;
            }
        }
        if self.ie_left > 0 {
            self.ie_left -= 1;
            return Ans::Intr;
        }
        self.ie_left = self.ie;
        let mut m = max.min(want);
        if let Some((at, k, sticky)) = self.fail {
            if self.done >= at && (sticky || !self.failed) {
                self.failed = true;
                return Ans::Fail(k);
            }
            if self.done < at {
                m = m.min(at - self.done);
            }
        }
        for e in &self.ia {
            if e.1 > 0 && self.done < e.0 {
                m = m.min(e.0 - self.done);
            }
        }
        if self.pos < self.ops.len() {
            let o = self.ops[self.pos];
            self.pos += 1;
            if o <= 0 {
                self.intr_row += 1;
                if self.intr_row == 65 {
                    cnt(C::probe_storm_over_64);
                }
                return Ans::Intr;
            }
            m = m.min(o as usize);
        } else if self.tail > 0 {
            m = m.min(self.tail);
        }
        self.intr_row = 0;
        Ans::Take(m)
    }
}

pub struct SimReader<'a> {
    data: &'a [u8],
    c: Ctl,
    eof: u64,
    /// called once when this many bytes were delivered (work nested inside a read call)
    pub nested: Option<(usize, Box<dyn FnMut() + 'a>)>,
}
impl<'a> SimReader<'a> {
    pub fn new(id: u64, data: &'a [u8], spec: &J) -> Self {
        SimReader { data, c: Ctl::new(id, spec, data.len()), eof: 0, nested: None }
    }
    pub fn delivered(&self) -> usize {
        self.c.done
    }
    pub fn fail_fired(&self) -> bool {
        self.c.failed
    }
}
impl<'a> Read for SimReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _p = crate::meter::pause();
        cnt(C::stream_reads);
        if let Some((at, _)) = &self.nested {
            if self.c.done >= *at {
                let (_, mut f) = self.nested.take().unwrap();
                cnt(C::probe_reader_nested);
                f();
            }
        }
        let left = self.data.len() - self.c.done;
        match self.c.answer(buf.len(), left) {
            Ans::Intr => {
                cnt(C::fault_eintr_read);
                if left == 0 {
                    cnt(C::probe_eintr_at_eof);
                }
                log(1);
                Err(interrupted(self.c.calls))
            }
            Ans::Fail(k) => {
                let sticky = self.c.fail.map_or(false, |f| f.2);
                cnt(if sticky { C::fault_read_error_lasting } else { C::fault_read_error_passing });
                if left == 0 {
                    cnt(C::probe_fail_at_eof)
                } else if self.c.done == 0 || self.data[self.c.done - 1] == b'\n' {
                    cnt(C::probe_fail_between_lines)
                } else {
                    cnt(C::probe_fail_inside_line)
                }
                log(0x100 + k);
                Err(error(k, false))
            }
            Ans::Take(n) => {
                let d = self.c.done;
                if n < left.min(buf.len()) {
                    cnt(C::fault_short_read);
                    if self.data[d + n] & 0xc0 == 0x80 {
                        cnt(C::probe_split_in_utf8);
                    }
                    if n > 0 && self.data[d + n] == b'\n' && self.data[d + n - 1] == b'\r' {
                        cnt(C::probe_split_in_crlf);
                    }
                }
                buf[..n].copy_from_slice(&self.data[d..d + n]);
                self.c.done += n;
                crate::ctx::cnt_n(C::bytes_delivered, n as u64);
                crate::meter::met(n);
                if left == 0 && !buf.is_empty() {
                    // end of input is an answer too; asking for ever is not work that ends
                    self.eof += 1;
                    if self.eof > 1000 {
                        violation_now("endless-retry", "kept reading after end of input 1000 times");
                    }
                }
                log(0x200 + n as u64);
                Ok(n)
            }
        }
    }
}

pub struct SimWriter<'a> {
    /// when known, what must arrive: checked on every call
    expect: Option<&'a [u8]>,
    c: Ctl,
    pub got: Vec<u8>,
    class: &'static str,
}
impl<'a> SimWriter<'a> {
    pub fn new(id: u64, expect: Option<&'a [u8]>, class: &'static str, spec: &J, total: usize) -> Self {
        SimWriter { expect, c: Ctl::new(id, spec, total), got: Vec::new(), class }
    }
    pub fn fail_fired(&self) -> bool {
        self.c.failed
    }
    /// bytes that may still be accepted before a planned failure, if any
    pub fn fail_at(&self) -> Option<usize> {
        self.c.fail.map(|f| f.0)
    }
}
impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _p = crate::meter::pause();
        cnt(C::stream_writes);
        if buf.is_empty() {
            sched::yield_now();
            return Ok(0);
        }
        match self.c.answer(buf.len(), buf.len()) {
            Ans::Intr => {
                cnt(C::fault_eintr_write);
                log(1);
                Err(interrupted(self.c.calls))
            }
            Ans::Fail(k) => {
                log(0x100 + k);
                if k == 99 {
                    cnt(C::fault_write_zero);
                    return Ok(0);
                }
                let sticky = self.c.fail.map_or(false, |f| f.2);
                cnt(if sticky { C::fault_write_error_lasting } else { C::fault_write_error_passing });
                Err(error(k, true))
            }
            Ans::Take(n) => {
                if n < buf.len() {
                    cnt(C::fault_short_write);
                }
                if let Some(e) = self.expect {
                    let at = self.got.len();
                    let ok = e.get(at..at + n) == Some(&buf[..n]);
                    if !ok {
                        let d = (0..n).find(|&i| e.get(at + i) != Some(&buf[i])).unwrap_or(0);
                        violation_now(
                            self.class,
                            &format!(
                                "byte {} handed to the stream is {:#04x}, expected {}",
                                at + d,
                                buf[d],
                                match e.get(at + d) {
                                    Some(x) => format!("{:#04x}", x),
                                    None => format!("nothing after {} bytes", e.len()),
                                }
                            ),
                        );
                    }
                }
                self.got.extend_from_slice(&buf[..n]);
                self.c.done += n;
                crate::ctx::cnt_n(C::bytes_accepted, n as u64);
                log(0x200 + n as u64);
                let mut h = 0u64;
                for b in &buf[..n] {
                    h = h.wrapping_mul(31).wrapping_add(*b as u64);
                }
                log(h);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
