//! Storing and reading back byte streams through the library, with readers and writers whose every
//! transfer the simulator decides.
use crate::rng::Rng;
use crate::scen::Content;
use crate::viol::Viol;
use serde::{Deserialize, Serialize};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::file::{put_data, read_data};
use std::io::{Error, ErrorKind, Read, Write};

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Cuts {
    pub seed: u64,
    /// 0 whole buffers, 1 single bytes, 2 random up to `max`, 3 sizes around powers of two, 4 mixed
    pub mode: u8,
    pub max: u64,
    /// percent of calls that are interrupted
    pub intr: u32,
    /// a real error once this many bytes were transferred
    pub err: Option<(u64, u8)>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct StreamSpec {
    /// "" = in memory, otherwise a database path on the simulated disk
    pub db: String,
    pub content: Content,
    pub reader: Cuts,
    pub writer: Cuts,
    /// store it again cut up differently
    pub again: Option<Cuts>,
    pub faults: Vec<crate::world::Fault>,
}

pub const ERRS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
];

/// Not an error but a writer that takes no more bytes.
pub const TAKES_NOTHING: u8 = 8;

const SIZES: [u64; 22] = [
    1, 2, 63, 64, 65, 511, 512, 4095, 4096, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 98304, 131072,
];

struct Flow {
    c: Cuts,
    rng: Rng,
    done: u64,
    failed: bool,
}

impl Flow {
    fn new(c: &Cuts) -> Flow {
        Flow { rng: Rng::new(c.seed), c: c.clone(), done: 0, failed: false }
    }
    /// How many of `n` bytes move now.
    fn next(&mut self, n: usize) -> Result<usize, Error> {
        if self.rng.chance(u64::from(self.c.intr), 100) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut k = match if self.c.mode == 4 { self.rng.below(4) as u8 } else { self.c.mode } {
            0 => n as u64,
            1 => 1,
            2 => self.rng.range(1, self.c.max.max(1)),
            _ => *self.rng.pick(&SIZES),
        }
        .min(n as u64);
        if let Some((at, kind)) = self.c.err {
            if !self.failed {
                if self.done >= at && kind != TAKES_NOTHING {
                    self.failed = true;
                    return Err(Error::new(ERRS[kind as usize % ERRS.len()], "simulated"));
                }
                k = k.min(at.max(self.done + 1) - self.done);
            }
        }
        self.done += k;
        Ok(k as usize)
    }
}

struct Rd<'a> {
    data: &'a [u8],
    pos: usize,
    f: Flow,
}
impl Read for Rd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        if buf.is_empty() {
            return Ok(0);
        }
        if left == 0 {
            // an error placed at the very end comes instead of the end of the stream
            if let Some((at, kind)) = self.f.c.err {
                if !self.f.failed && at >= self.data.len() as u64 {
                    self.f.failed = true;
                    return Err(Error::new(ERRS[kind as usize % ERRS.len()], "simulated"));
                }
            }
            return Ok(0);
        }
        let n = self.f.next(left.min(buf.len()))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Wr {
    got: Vec<u8>,
    f: Flow,
}
impl Write for Wr {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((at, TAKES_NOTHING)) = self.f.c.err {
            if self.f.done >= at {
                self.f.failed = true;
                return Ok(0);
            }
        }
        let n = self.f.next(buf.len())?;
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("first difference at byte {} (lengths {} stored, {} read back)", at, a.len(), b.len())
}

fn put(ds: &mut SqliteDS, data: &[u8], cuts: &Cuts, reliable: bool, what: &str, out: &mut Vec<Viol>) -> Option<snapcd::key::Key> {
    let mut rd = Rd { data, pos: 0, f: Flow::new(cuts) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| put_data(ds, &mut rd)));
    let failed = rd.f.failed;
    let pos = rd.pos;
    match r {
        Err(_) => {
            if reliable {
                out.push(Viol::new(&["C06"], "stream-panic", format!("{}: storing {} bytes panicked", what, data.len())));
            }
            None
        }
        Ok(Err(e)) => {
            if !failed && reliable {
                out.push(Viol::new(&["C06"], "stream-spurious-error", format!("{}: storing {} bytes failed without cause: {}", what, data.len(), e)));
            }
            None
        }
        Ok(Ok(k)) => {
            if failed {
                out.push(Viol::new(
                    &["C06"],
                    "stream-error-swallowed",
                    format!("{}: the reader failed after {} of {} bytes, yet a key was returned", what, pos, data.len()),
                ));
                return None;
            }
            if pos != data.len() {
                out.push(Viol::new(&["C06"], "stream-not-read-to-end", format!("{}: only {} of {} bytes were read, yet a key was returned", what, pos, data.len())));
                return None;
            }
            Some(k)
        }
    }
}

fn get(ds: &SqliteDS, key: snapcd::key::Key, data: &[u8], cuts: &Cuts, reliable: bool, what: &str, out: &mut Vec<Viol>) {
    let mut wr = Wr { got: vec![], f: Flow::new(cuts) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read_data(ds, key, &mut wr)));
    let failed = wr.f.failed;
    match r {
        Err(_) => {
            if reliable {
                out.push(Viol::new(&["C06"], "stream-panic", format!("{}: reading back {} bytes panicked", what, data.len())));
            }
        }
        Ok(Err(e)) => {
            if !failed && reliable {
                out.push(Viol::new(&["C06", "C01"], "stream-read-fails", format!("{}: what was stored cannot be read back: {}", what, e)));
            } else if !data.starts_with(&wr.got) {
                out.push(Viol::new(&["C06"], "stream-wrong-prefix", format!("{}: {}", what, first_diff(data, &wr.got))));
            }
        }
        Ok(Ok(())) => {
            if failed {
                out.push(Viol::new(&["C06"], "stream-error-swallowed", format!("{}: the writer failed, yet reading back reported success", what)));
            } else if wr.got != data {
                out.push(Viol::new(&["C06", "C01"], "stream-differs", format!("{}: {}", what, first_diff(data, &wr.got))));
            }
        }
    }
}

/// Runs inside a simulated process; prints what it found wrong.
pub fn body(s: &StreamSpec) -> i32 {
    let mut out = vec![];
    let data = s.content.make();
    let mem = s.db.is_empty();
    let reliable = mem || s.faults.iter().all(|f| matches!(f, crate::world::Fault::Stall { .. } | crate::world::Fault::Short { .. }));
    let plain = Cuts { seed: 0, mode: 0, max: 0, intr: 0, err: None };
    let ds = std::panic::catch_unwind(|| if mem { SqliteDS::new(":memory:") } else { SqliteDS::new(&s.db) });
    let mut ds = match ds {
        Ok(Ok(d)) => d,
        _ => {
            println!("[]");
            return if reliable { 3 } else { 0 };
        }
    };
    let k1 = put(&mut ds, &data, &s.reader, reliable, "stored", &mut out);
    if let Some(k) = k1 {
        get(&ds, k, &data, &s.writer, reliable, "read back", &mut out);
        if out.is_empty() && s.writer != plain {
            get(&ds, k, &data, &plain, reliable, "read back plainly", &mut out);
        }
    }
    let mut k2 = None;
    if let Some(c) = &s.again {
        k2 = put(&mut ds, &data, c, reliable, "stored again", &mut out);
        if let (Some(a), Some(b)) = (k1, k2) {
            if a != b {
                out.push(Viol::new(&["C07"], "stream-key-depends-on-cuts", format!("{} bytes stored twice, cut up differently: {} then {}", data.len(), a, b)));
            }
        }
        if let (None, Some(b)) = (k1, k2) {
            get(&ds, b, &data, &plain, reliable, "read back after a failed attempt", &mut out);
        }
    }
    if out.is_empty() {
        if let Some(k) = k1.or(k2) {
            // the same bytes in an empty store, read in one go
            if let Ok(mut fresh) = SqliteDS::new(":memory:") {
                if let Some(r) = put(&mut fresh, &data, &plain, true, "stored plainly", &mut out) {
                    if r != k {
                        out.push(Viol::new(&["C07"], "stream-key-not-canonical", format!("{} bytes: key {}, stored plainly {}", data.len(), k, r)));
                    }
                }
            }
        }
    }
    println!("{}", serde_json::to_string(&out).unwrap());
    0
}
