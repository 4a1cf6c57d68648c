//! One simulated run: the tape of choices, the event log, the counters.
//!
//! Everything a run does is a function of its tape. In a search run the tape
//! is filled by a PRNG seeded from (seed, property, run index); in a replay
//! the recorded numbers are used again (0, the simplest choice, past the end).

use std::collections::BTreeMap;
use std::fmt::{self, Write as _};
use std::sync::Mutex;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> Res<T> {
    Err(Viol {
        class: class.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::ctx::viol($class, format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($arg:tt)*) => { $ctx.log(format_args!($($arg)*)) };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ mix(index))
}

struct Prng(u64);
impl Prng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

enum Source {
    Prng(Prng),
    Tape(Vec<u32>, usize),
}

/// FNV-1a over the text of the event log.
pub struct LogHash(pub u64);
impl fmt::Write for LogHash {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut h = self.0;
        for b in s.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = h;
        Ok(())
    }
}

pub struct Inner {
    source: Source,
    pub tape: Vec<u32>,
    pub hash: LogHash,
    pub text: Option<String>,
    pub steps: u64,
    pub faults: u64,
    pub switches: u64,
    /// hash of switches and faults only
    pub trace: LogHash,
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub reported: Option<Viol>,
    /// choices are written here as they are drawn, for runs that kill the process
    mirror: Option<std::fs::File>,
}

pub struct Ctx {
    pub inner: Mutex<Inner>,
    /// thorough tier: larger cases are allowed
    pub thorough: bool,
}

pub struct RunOut {
    pub hash: u64,
    pub steps: u64,
    pub faults: u64,
    pub switches: u64,
    pub trace: u64,
    pub nontrivial: bool,
    pub tape: Vec<u32>,
    pub text: Option<String>,
}

impl Ctx {
    fn with(source: Source, verbose: bool, thorough: bool) -> Ctx {
        Ctx {
            inner: Mutex::new(Inner {
                source,
                tape: Vec::with_capacity(256),
                hash: LogHash(0xcbf2_9ce4_8422_2325),
                text: verbose.then(String::new),
                steps: 0,
                faults: 0,
                switches: 0,
                trace: LogHash(0xcbf2_9ce4_8422_2325),
                nontrivial: false,
                counters: BTreeMap::new(),
                reported: None,
                mirror: std::env::var_os("JJSIM_MIRROR")
                    .and_then(|f| std::fs::File::create(f).ok()),
            }),
            thorough,
        }
    }

    pub fn from_seed(seed: u64, verbose: bool, thorough: bool) -> Ctx {
        Ctx::with(Source::Prng(Prng(seed)), verbose, thorough)
    }

    pub fn from_tape(tape: Vec<u32>, verbose: bool, thorough: bool) -> Ctx {
        Ctx::with(Source::Tape(tape, 0), verbose, thorough)
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        crate::alloc::pause(|| match self.inner.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        })
    }

    /// A number in 0..n; 0 is the simplest choice.
    pub fn draw(&self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        crate::alloc::pause(|| {
            let mut i = self.lock();
            let v = match &mut i.source {
                Source::Prng(p) => (p.next() >> 16) % n as u64,
                Source::Tape(t, at) => {
                    let v = t.get(*at).copied().unwrap_or(0);
                    *at += 1;
                    u64::from(v) % n as u64
                }
            };
            i.tape.push(v as u32);
            if let Some(f) = &mut i.mirror {
                let _ = std::io::Write::write_all(f, &(v as u32).to_le_bytes());
            }
            v as usize
        })
    }

    /// lo..=hi, lo simplest
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.draw(hi - lo + 1)
    }

    /// true with probability num/den; false is the simplest choice
    pub fn chance(&self, num: usize, den: usize) -> bool {
        self.draw(den) >= den - num
    }

    pub fn coin(&self) -> bool {
        self.draw(2) == 1
    }

    pub fn pick<'x, T>(&self, items: &'x [T]) -> &'x T {
        &items[self.draw(items.len())]
    }

    /// index by weight; list the simplest first
    pub fn weighted(&self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }

    pub fn log(&self, args: fmt::Arguments<'_>) {
        crate::alloc::pause(|| {
            let mut i = self.lock();
            i.steps += 1;
            let _ = i.hash.write_fmt(args);
            let _ = i.hash.write_str("\n");
            if let Some(t) = &mut i.text {
                if t.len() < 4_000_000 {
                    let _ = t.write_fmt(args);
                    t.push('\n');
                }
            }
        });
    }

    /// Count a probe ("this was reached").
    pub fn hit(&self, name: &'static str) {
        self.hits(name, 1);
    }

    pub fn hits(&self, name: &'static str, n: u64) {
        crate::alloc::pause(|| {
            *self.lock().counters.entry(name).or_insert(0) += n;
        });
    }

    /// A fault of this kind actually fired. Names start with "fault.".
    pub fn fault(&self, name: &'static str) {
        crate::alloc::pause(|| {
            let mut i = self.lock();
            i.faults += 1;
            let steps = i.steps;
            let _ = writeln!(i.trace, "{name}@{steps}");
            *i.counters.entry(name).or_insert(0) += 1;
        });
    }

    /// Another simulated party goes on at this point.
    pub fn switched(&self, from: usize, to: usize) {
        crate::alloc::pause(|| {
            let mut i = self.lock();
            i.switches += 1;
            let steps = i.steps;
            let _ = writeln!(i.trace, "{from}>{to}@{steps}");
        });
    }

    pub fn nontrivial(&self) {
        crate::alloc::pause(|| self.lock().nontrivial = true);
    }

    /// Used inside callbacks, where no violation can be returned.
    pub fn report(&self, class: &str, msg: String) {
        crate::alloc::pause(|| {
            let mut i = self.lock();
            if i.reported.is_none() {
                i.reported = Some(Viol {
                    class: class.to_string(),
                    msg,
                });
            }
        });
    }

    pub fn take_reported(&self) -> Res {
        match crate::alloc::pause(|| self.lock().reported.take()) {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }

    pub fn finish(self, counters: &mut BTreeMap<&'static str, u64>) -> RunOut {
        let i = match self.inner.into_inner() {
            Ok(i) => i,
            Err(p) => p.into_inner(),
        };
        for (k, v) in &i.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        RunOut {
            hash: i.hash.0,
            steps: i.steps,
            faults: i.faults,
            switches: i.switches,
            trace: i.trace.0,
            nontrivial: i.nontrivial || i.faults > 0 || i.switches > 0,
            tape: i.tape,
            text: i.text,
        }
    }
}

/// Shortened, printable form of bytes for logs and messages.
pub struct Show<'a>(pub &'a [u8]);
impl fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let max = 160;
        let b = self.0;
        let (head, tail) = if b.len() > max {
            (&b[..max / 2], &b[b.len() - max / 2..])
        } else {
            (b, &b[..0])
        };
        f.write_char('«')?;
        show(head, f)?;
        if b.len() > max {
            write!(f, "…({} bytes)…", b.len())?;
            show(tail, f)?;
        }
        f.write_char('»')
    }
}
fn show(b: &[u8], f: &mut fmt::Formatter<'_>) -> fmt::Result {
    for chunk in b.utf8_chunks() {
        for c in chunk.valid().chars() {
            if c.is_control() {
                write!(f, "\\x{:02x}", c as u32)?;
            } else {
                f.write_char(c)?;
            }
        }
        for x in chunk.invalid() {
            write!(f, "\\x{x:02x}")?;
        }
    }
    Ok(())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h
}
