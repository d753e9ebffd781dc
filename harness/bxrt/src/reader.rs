//! An instrumented reader: a hole of zeroes, then data; split reads, interruptions,
//! faults at a byte or an operation, and a budget of operations.
use bx::tape::Rng;
use binread::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

pub const BUDGET: &str = "operation budget exceeded";

#[derive(Clone)]
pub struct TestReader {
    pub data: Vec<u8>,
    pub base: u64,
    pub pos: u64,
    pub ops: u64,
    pub budget: u64,
    /// fails when the byte at this position is read
    pub byte_fault: Option<(u64, &'static str)>,
    /// fails at this operation (and, if sticky, at all later ones)
    pub op_fault: Option<(u64, &'static str, bool)>,
    pub faulted: bool,
    /// splits reads and interrupts them
    pub split: Option<(Rng, u32, u32)>,
    pub ints: u64,
    pub splits: u64,
    pub read: u64,
    pub log: Option<Vec<(u64, u64)>>,
    /// called before these operations
    pub hook: Option<std::rc::Rc<dyn Fn(u64)>>,
}

impl TestReader {
    pub fn new(data: &[u8], base: u64, pos: u64) -> Self {
        TestReader {
            data: data.to_vec(),
            base,
            pos,
            ops: 0,
            budget: u64::MAX,
            byte_fault: None,
            op_fault: None,
            faulted: false,
            split: None,
            ints: 0,
            splits: 0,
            read: 0,
            log: None,
            hook: None,
        }
    }
    fn op(&mut self) -> Result<()> {
        let n = self.ops;
        self.ops += 1;
        if self.ops > self.budget {
            panic!("{}", BUDGET);
        }
        if let Some(h) = &self.hook {
            h(n);
        }
        if let Some((at, k, sticky)) = self.op_fault {
            if n == at || sticky && n > at {
                self.faulted = true;
                return Err(Error::new(crate::obs::kind(k), "operation"));
            }
        }
        Ok(())
    }
}

impl Read for TestReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op()?;
        let total = self.base + self.data.len() as u64;
        let mut n = buf.len() as u64;
        if let Some((rng, max, int)) = &mut self.split {
            if *int > 0 && rng.next() % 100 < *int as u64 {
                self.ints += 1;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            if n > 1 && *max > 0 {
                let m = (1 + rng.next() % *max as u64).min(n);
                if m < n {
                    self.splits += 1;
                }
                n = m;
            }
        }
        n = n.min(total.saturating_sub(self.pos));
        if let Some((f, k)) = self.byte_fault {
            if f >= self.pos && f < self.pos.saturating_add(n) {
                if f == self.pos {
                    self.faulted = true;
                    return Err(Error::new(crate::obs::kind(k), "byte"));
                }
                n = f - self.pos;
            }
        }
        for i in 0..n {
            let p = self.pos + i;
            buf[i as usize] = if p < self.base { 0 } else { self.data[(p - self.base) as usize] };
        }
        if let Some(l) = &mut self.log {
            if n > 0 {
                l.push((self.pos, n));
            }
        }
        self.pos += n;
        self.read += n;
        Ok(n as usize)
    }
}

impl Seek for TestReader {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op()?;
        let (from, d) = match to {
            SeekFrom::Start(p) => {
                self.pos = p;
                return Ok(p);
            }
            SeekFrom::Current(d) => (self.pos, d),
            SeekFrom::End(d) => (self.base + self.data.len() as u64, d),
        };
        let p = if d < 0 { from.checked_sub(d.unsigned_abs()) } else { from.checked_add(d as u64) };
        match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}
