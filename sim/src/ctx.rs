//! One run = one integer. Every decision of a run is drawn from one of four
//! choice streams derived from that integer; the drawn values are recorded, so
//! that a recorded run can be replayed and shrunk without the generator.

use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_add(0x9E37_79B9_7F4A_7C15))
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((self.next() >> 11) as u128 * n as u128 >> 53) as u64 }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

/// Rolling digest of a run's events.
#[derive(Clone, Copy)]
pub struct Digest(pub u64);

impl Digest {
    pub fn new() -> Self {
        Digest(0xCBF2_9CE4_8422_2325)
    }
    #[inline]
    pub fn add(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9FB2_1C65_1E98_DF25).rotate_left(29);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(w));
        }
        self.add(b.len() as u64);
    }
}

pub const DOC: usize = 0;
pub const OP: usize = 1;
pub const FAULT: usize = 2;
pub const SCHED: usize = 3;
pub const NSTREAMS: usize = 4;
pub const STREAM_NAMES: [&str; NSTREAMS] = ["doc", "op", "fault", "sched"];

pub struct Stream {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Stream {
    fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => self.rng.below(n as u64) as u32,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }

    /// Draws an index with the given weights; index 0 is the simplest outcome.
    fn weighted(&mut self, w: &[u32]) -> u32 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(w.len() as u32 - 1),
            None => {
                let total: u64 = w.iter().map(|x| *x as u64).sum();
                let mut x = self.rng.below(total);
                let mut i = 0;
                while x >= w[i] as u64 {
                    x -= w[i] as u64;
                    i += 1;
                }
                i as u32
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable class of the violation; minimisation keeps the class.
    pub class: String,
    pub detail: String,
}

/// When set, every drawn choice is also written here at once, so that the
/// choices of a run that kills its process are not lost.
pub static RECORD: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

fn through(s: usize, v: u32) {
    if let Some(mut f) = RECORD.get() {
        let mut b = [s as u8; 5];
        b[1..].copy_from_slice(&v.to_le_bytes());
        let _ = std::io::Write::write_all(&mut f, &b);
    }
}

pub struct Ctx {
    pub streams: [Stream; NSTREAMS],
    pub digest: Digest,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub io_steps: u64,
    pub oracle_evals: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub thorough: bool,
    /// Documents with long lists are wanted.
    pub long: bool,
}

pub type Choices = [Vec<u32>; NSTREAMS];

impl Ctx {
    pub fn new(run_seed: u64, replay: Option<Choices>, trace_on: bool, thorough: bool) -> Self {
        let mut replay = replay.map(|r| r.into_iter());
        let streams = std::array::from_fn(|i| Stream {
            rng: Rng::new(mix(run_seed, 0x5151 + i as u64)),
            replay: replay.as_mut().map(|r| r.next().unwrap_or_default()),
            pos: 0,
            rec: Vec::new(),
        });
        Ctx {
            streams,
            digest: Digest::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            io_steps: 0,
            oracle_evals: 0,
            trace_on,
            trace: Vec::new(),
            thorough,
            long: false,
        }
    }
    pub fn choose(&mut self, s: usize, n: usize) -> usize {
        let v = self.streams[s].choose(n as u32);
        if n > 1 {
            through(s, v);
        }
        v as usize
    }
    pub fn range(&mut self, s: usize, lo: usize, hi: usize) -> usize {
        lo + self.choose(s, hi - lo + 1)
    }
    /// True with probability p/q; the recorded value 0 means false.
    pub fn chance(&mut self, s: usize, p: u32, q: u32) -> bool {
        self.weighted(s, &[q - p, p]) == 1
    }
    pub fn weighted(&mut self, s: usize, w: &[u32]) -> usize {
        let v = self.streams[s].weighted(w);
        through(s, v);
        v as usize
    }
    pub fn pick<T: Copy>(&mut self, s: usize, v: &[T]) -> T {
        v[self.choose(s, v.len())]
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_default() += 1;
    }
    pub fn fault_n(&mut self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind).or_default() += n;
        }
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_default() += 1;
    }
    pub fn eval(&mut self) {
        self.oracle_evals += 1;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace_on {
            self.trace.push(f());
        }
    }
    pub fn recorded(&self) -> Choices {
        std::array::from_fn(|i| self.streams[i].rec.clone())
    }
}

pub fn violation<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail })
}

/// Shortens long debug output for reports.
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}…(+{} bytes)", &s[..end], s.len() - end)
}
