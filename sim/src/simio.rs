//! The simulated file: the only stream the code under test ever sees. Its
//! behaviour (splitting, interruptions, failures, full disk, end of data) is a
//! plan drawn before the operation starts, so one plan is one exact behaviour.

use crate::ctx::{Ctx, Digest, FAULT, Rng};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Full,
    One,
    Fixed(usize),
    Random(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// This call fails once.
    Err(usize),
    /// This call and all later ones fail.
    Sticky(usize),
    /// This read or write transfers nothing.
    Zero,
    /// From this call on reads and writes transfer nothing.
    Stall,
    /// The caller's stream panics.
    Panic,
}

/// Failure kinds a stream may report; a non-zero number is a raw OS error, whose
/// kind is whatever the standard library makes of it.
pub const KINDS: &[(ErrorKind, i32)] = &[
    (ErrorKind::Other, 0),
    (ErrorKind::PermissionDenied, 0),
    (ErrorKind::StorageFull, 0),
    (ErrorKind::BrokenPipe, 0),
    (ErrorKind::TimedOut, 0),
    (ErrorKind::WouldBlock, 0),
    (ErrorKind::UnexpectedEof, 0),
    (ErrorKind::InvalidData, 0),
    (ErrorKind::NotConnected, 0),
    (ErrorKind::OutOfMemory, 0),
    (ErrorKind::WriteZero, 0),
    (ErrorKind::InvalidInput, 0),
    (ErrorKind::ConnectionReset, 0),
    (ErrorKind::Other, 5),
    (ErrorKind::StorageFull, 28),
    (ErrorKind::Unsupported, 0),
];

pub fn make_error(k: usize) -> io::Error {
    let (kind, raw) = KINDS[k % KINDS.len()];
    if raw != 0 { io::Error::from_raw_os_error(raw) } else { io::Error::new(kind, "injected failure") }
}
pub fn kind_of(k: usize) -> ErrorKind {
    make_error(k).kind()
}

pub struct StepLimit;
pub struct InjectedPanic;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    /// Interruptions per 256 reads or writes.
    pub eintr: u64,
    pub rng: Rng,
    pub events: Vec<(u64, Ev)>,
    /// Offset at which the disk is full.
    pub capacity: Option<u64>,
    /// The stream ends here although more data is stored.
    pub eof_at: Option<u64>,
    pub max_calls: u64,
    /// Position of the first byte stored here; the stream is a window of a larger one.
    pub origin: u64,
}

impl std::fmt::Debug for Rng {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Rng")
    }
}

impl Plan {
    pub fn clean() -> Self {
        Plan {
            chunk: Chunk::Full,
            eintr: 0,
            rng: Rng::new(0),
            events: Vec::new(),
            capacity: None,
            eof_at: None,
            max_calls: 50_000_000,
            origin: 0,
        }
    }
    /// A delivery that changes nothing but the splitting and interruptions.
    pub fn benign(c: &mut Ctx) -> Self {
        let mut p = Plan::clean();
        p.chunk = match c.weighted(FAULT, &[2, 2, 3, 3]) {
            0 => Chunk::Full,
            1 => Chunk::One,
            2 => Chunk::Fixed(c.pick(FAULT, &[2usize, 3, 4, 5, 7, 8, 11, 12, 16, 100, 255, 1000, 4095, 8192, 32768, 40000])),
            _ => Chunk::Random(c.pick(FAULT, &[2usize, 3, 8, 64, 1000, 100_000])),
        };
        p.eintr = c.pick(FAULT, &[0u64, 0, 2, 20, 90, 128]);
        if c.chance(FAULT, 1, 12) {
            let end = c.pick(FAULT, &[1u64 << 16, 1 << 31, 1 << 32, 1 << 45]);
            p.origin = end - c.choose(FAULT, 3000) as u64;
            c.fault("far_position");
        }
        p.rng = Rng::new(c.choose(FAULT, 1 << 24) as u64);
        p
    }
}

#[derive(Clone, Debug)]
pub struct WriteRec {
    pub off: u64,
    pub data: Vec<u8>,
}

pub struct SimFile {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub calls: u64,
    pub op_calls: [u64; 4],
    pub eintrs: u64,
    consecutive: u32,
    sticky: Option<usize>,
    stalled: bool,
    limit_hit: bool,
    /// Failures handed to the caller, in order.
    pub fired: Vec<(u64, Op, ErrorKind)>,
    pub zero: u64,
    pub short: u64,
    pub panicked: u64,
    pub full: u64,
    pub early_eof: u64,
    pub log: Option<Vec<WriteRec>>,
    pub digest: Digest,
    pub trace: Option<Vec<String>>,
    pub max_off: u64,
    pub bytes_moved: u64,
}

impl SimFile {
    pub fn new(data: Vec<u8>, plan: Plan) -> Self {
        SimFile {
            data,
            pos: 0,
            plan,
            calls: 0,
            op_calls: [0; 4],
            eintrs: 0,
            consecutive: 0,
            sticky: None,
            stalled: false,
            limit_hit: false,
            fired: Vec::new(),
            zero: 0,
            short: 0,
            panicked: 0,
            full: 0,
            early_eof: 0,
            log: None,
            digest: Digest::new(),
            trace: None,
            max_off: 0,
            bytes_moved: 0,
        }
    }
    pub fn at(mut self, pos: u64) -> Self {
        self.pos = pos;
        self
    }
    pub fn traced(mut self, c: &Ctx) -> Self {
        if c.trace_on {
            self.trace = Some(Vec::new());
        }
        self
    }
    pub fn logged(mut self) -> Self {
        self.log = Some(Vec::new());
        self
    }
    pub fn limit_hit(&self) -> bool {
        self.limit_hit
    }
    /// True once any failure other than an interruption reached the caller.
    pub fn failed(&self) -> bool {
        !self.fired.is_empty() || self.zero > 0 || self.full > 0 || self.early_eof > 0
    }
    pub fn disturbed(&self) -> bool {
        self.failed() || self.eintrs > 0 || self.short > 0 || self.panicked > 0
    }

    /// Adds what happened on this stream to the run's statistics and digest.
    pub fn settle(&mut self, c: &mut Ctx, what: &str) {
        c.io_steps += self.calls;
        c.digest.add(self.digest.0);
        c.fault_n("short_transfer", self.short);
        c.fault_n("interrupted_call", self.eintrs);
        c.fault_n("zero_length_transfer", self.zero);
        c.fault_n("stream_panic", self.panicked);
        c.fault_n("disk_full", self.full);
        c.fault_n("early_end_of_stream", self.early_eof);
        for (_, op, _) in &self.fired {
            c.fault(match op {
                Op::Read => "read_error",
                Op::Write => "write_error",
                Op::Seek => "seek_error",
                Op::Flush => "flush_error",
            });
        }
        if let Some(t) = self.trace.take() {
            c.trace.push(format!("-- stream of {what}: {} calls", self.calls));
            let n = t.len();
            if n > 400 {
                c.trace.extend(t[..200].iter().cloned());
                c.trace.push(format!("   … {} calls …", n - 400));
                c.trace.extend(t[n - 200..].iter().cloned());
            } else {
                c.trace.extend(t);
            }
        }
    }

    fn ev(&mut self, op: Op) -> Result<Option<Ev>, io::Error> {
        crate::sched::point();
        let k = self.calls;
        self.calls += 1;
        self.op_calls[op as usize] += 1;
        self.digest.add(op as u64 + 16 * (self.pos & 0xFFFF_FFFF));
        if k >= self.plan.max_calls || self.limit_hit {
            if !self.limit_hit {
                self.limit_hit = true;
                if !std::thread::panicking() {
                    std::panic::panic_any(StepLimit);
                }
            }
            return Err(io::Error::other("step limit"));
        }
        if let Some(e) = self.sticky {
            return Err(self.fail(op, e));
        }
        let ev = self.plan.events.iter().find(|e| e.0 == k).map(|e| e.1);
        match ev {
            Some(Ev::Err(e)) => return Err(self.fail(op, e)),
            Some(Ev::Sticky(e)) => {
                self.sticky = Some(e);
                return Err(self.fail(op, e));
            }
            Some(Ev::Panic) => {
                if !std::thread::panicking() {
                    self.panicked += 1;
                    self.tr(|_| format!("   call {k} {op:?} -> panic"));
                    std::panic::panic_any(InjectedPanic);
                }
                return Err(self.fail(op, 0));
            }
            Some(Ev::Stall) => self.stalled = true,
            _ => {}
        }
        if self.stalled && matches!(op, Op::Read | Op::Write) {
            return Ok(Some(Ev::Zero));
        }
        Ok(ev)
    }

    fn fail(&mut self, op: Op, e: usize) -> io::Error {
        let err = make_error(e);
        self.fired.push((self.calls - 1, op, err.kind()));
        self.digest.add(0xE000 + e as u64);
        self.tr(|s| format!("   call {} {op:?} @{} -> {:?}", s.calls - 1, s.pos, err.kind()));
        err
    }

    fn tr<F: FnOnce(&Self) -> String>(&mut self, f: F) {
        if self.trace.is_some() {
            let s = f(self);
            if let Some(t) = &mut self.trace {
                t.push(s);
            }
        }
    }

    fn interrupted(&mut self, op: Op) -> bool {
        if self.plan.eintr > 0 && self.consecutive < 3 && self.plan.rng.below(256) < self.plan.eintr {
            self.consecutive += 1;
            self.eintrs += 1;
            self.digest.add(0x1717);
            self.tr(|s| format!("   call {} {op:?} @{} -> Interrupted", s.calls - 1, s.pos));
            return true;
        }
        self.consecutive = 0;
        false
    }

    fn cut(&mut self, want: usize) -> usize {
        if want <= 1 {
            return want;
        }
        let n = match self.plan.chunk {
            Chunk::Full => want,
            Chunk::One => 1,
            Chunk::Fixed(k) => want.min(k.max(1)),
            Chunk::Random(k) => 1 + self.plan.rng.below(want.min(k.max(1)) as u64) as usize,
        };
        // Large transfers in not too many pieces.
        let n = if want > 8192 { n.max(want / 2048) } else { n };
        if n < want {
            self.short += 1;
        }
        n
    }
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let ev = self.ev(Op::Read)?;
        if self.interrupted(Op::Read) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len() as u64;
        if let Some(e) = self.plan.eof_at
            && e < end
        {
            if self.pos >= e && !buf.is_empty() {
                self.early_eof += 1;
            }
            end = e;
        }
        let avail = end.saturating_sub(self.pos) as usize;
        let mut n = buf.len().min(avail);
        if ev == Some(Ev::Zero) {
            if n > 0 {
                self.zero += 1;
            }
            n = 0;
        }
        n = self.cut(n);
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.digest.add(n as u64);
        let want = buf.len();
        self.tr(|s| format!("   call {} Read {want} @{p} -> {n}", s.calls - 1));
        self.pos += n as u64;
        self.bytes_moved += n as u64;
        self.max_off = self.max_off.max(self.pos);
        Ok(n)
    }
}

impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let ev = self.ev(Op::Write)?;
        if self.interrupted(Op::Write) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if ev == Some(Ev::Zero) {
            if n > 0 {
                self.zero += 1;
            }
            n = 0;
        }
        n = self.cut(n);
        if let Some(cap) = self.plan.capacity {
            let room = cap.saturating_sub(self.pos);
            if n > 0 && room == 0 {
                self.full += 1;
                self.fired.push((self.calls - 1, Op::Write, ErrorKind::StorageFull));
                self.tr(|s| format!("   call {} Write {} @{} -> StorageFull", s.calls - 1, buf.len(), s.pos));
                return Err(io::Error::from_raw_os_error(28));
            }
            if (n as u64) > room {
                n = room as usize;
                self.short += 1;
            }
        }
        let p = self.pos as usize;
        if n > 0 {
            if self.data.len() < p {
                self.data.resize(p, 0);
            }
            let over = n.min(self.data.len() - p);
            self.data[p..p + over].copy_from_slice(&buf[..over]);
            self.data.extend_from_slice(&buf[over..n]);
            if let Some(l) = &mut self.log {
                l.push(WriteRec { off: p as u64, data: buf[..n].to_vec() });
            }
        }
        self.digest.bytes(&buf[..n]);
        let want = buf.len();
        self.tr(|s| format!("   call {} Write {want} @{p} -> {n}", s.calls - 1));
        self.pos += n as u64;
        self.bytes_moved += n as u64;
        self.max_off = self.max_off.max(self.pos);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.ev(Op::Flush)?;
        Ok(())
    }
}

impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.ev(Op::Seek)?;
        let np = match to {
            SeekFrom::Start(p) => p as i128 - self.plan.origin as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        self.digest.add(np as u64);
        self.tr(|s| format!("   call {} Seek {to:?} -> {np}", s.calls - 1));
        Ok(self.pos + self.plan.origin)
    }
}
