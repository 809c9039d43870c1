//! Instrumented byte streams: fault injection and access recording.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault { None, /// the k-th I/O call fails with this kind (and all later ones succeed)
    ErrAt(usize, ErrorKind),
    /// every call from the k-th on fails
    ErrFrom(usize, ErrorKind) }

/// In-memory stream; every read/write/seek call is an injection point.
pub struct FStream {
    pub data: Vec<u8>,
    pub pos: u64,
    pub calls: usize,
    pub fault: Fault,
    pub fired: bool,
    /// kinds of calls that were failed: transfers, seeks, seeks other than End(0)
    pub hit: [bool; 3],
    /// deliver/accept at most this many bytes per call (0 = unlimited)
    pub chunk: usize,
    /// return Interrupted before every successful call
    pub interrupt: bool,
    armed: bool,
    pub seeks: usize,
    /// fail writes past this many bytes with Ok(0) (=> WriteZero)
    pub cap: Option<usize>,
    /// highest byte index handed out + 1
    pub high: u64,
}
impl FStream {
    pub fn new(data: Vec<u8>) -> Self { FStream { data, pos: 0, calls: 0, fault: Fault::None, fired: false, hit: [false; 3], chunk: 0, interrupt: false, armed: true, seeks: 0, cap: None, high: 0 } }
    fn step(&mut self) -> Result<()> {
        let n = self.calls;
        self.calls += 1;
        if let Fault::ErrFrom(k, kind) = self.fault { if n >= k { self.fired = true; return Err(Error::new(kind, "injected")); } }
        if let Fault::ErrAt(k, kind) = self.fault { if n == k { self.fired = true; return Err(Error::new(kind, "injected")); } }
        Ok(())
    }
    fn intr(&mut self) -> Result<()> {
        if self.interrupt { if self.armed { self.armed = false; return Err(Error::new(ErrorKind::Interrupted, "injected")); } self.armed = true; }
        Ok(())
    }
}
impl Read for FStream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.intr()?;
        let r = self.step(); if r.is_err() { self.hit[0] = true; } r?;
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        let mut n = buf.len().min(self.data.len() - p);
        if self.chunk > 0 { n = n.min(self.chunk); }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        self.high = self.high.max(self.pos);
        Ok(n)
    }
}
impl Write for FStream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.intr()?;
        let r = self.step(); if r.is_err() { self.hit[0] = true; } r?;
        let mut n = buf.len();
        if n == 0 { return Ok(0); }
        if self.chunk > 0 { n = n.min(self.chunk); }
        let p = self.pos as usize;
        if let Some(c) = self.cap { n = n.min(c.saturating_sub(p)); }
        if self.data.len() < p { self.data.resize(p, 0); }
        for (i, b) in buf[..n].iter().enumerate() { if p + i < self.data.len() { self.data[p + i] = *b; } else { self.data.push(*b); } }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Seek for FStream {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        let r = self.step(); if r.is_err() { self.hit[1] = true; if !matches!(s, SeekFrom::End(0)) { self.hit[2] = true; } } r?;
        self.seeks += 1;
        let p = match s { SeekFrom::Start(n) => n as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128, SeekFrom::End(d) => self.data.len() as i128 + d as i128 };
        if p < 0 { return Err(Error::new(ErrorKind::InvalidInput, "negative seek")); }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
