//! A monitored NOR flash: the executable counterpart of the flash contract used in the deductive
//! layer (/verif/contracts). Every access is checked against the contract of the trait method;
//! breaches are recorded with the id of the property they belong to.
use embedded_storage_async::nor_flash::{ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash};
use crate::util::want;
use std::cell::RefCell;
use std::ops::Range;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FlashErr { Fault, PowerLost, Misuse }
impl NorFlashError for FlashErr { fn kind(&self) -> NorFlashErrorKind { NorFlashErrorKind::Other } }
impl std::fmt::Display for FlashErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    None,
    /// after this many programmed/erased bytes the device loses power; everything fails from there
    PowerLoss(u64),
    /// after this many bytes the current operation fails (torn), the device keeps working
    FailOnce(u64),
    /// like FailOnce, but the future never completes: the caller drops it (cancellation)
    Cancel(u64),
    /// the n-th read fails once
    ReadFail(u64),
    /// the n-th write or erase is slow: its future pends once before doing anything
    Yield(u64),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Gran { Erased, Written(u8), Torn }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Op { Write(u32, u32), Erase(u32, u32) }

#[derive(Clone)]
pub struct FlashState {
    pub r: usize, pub w: usize, pub e: usize,
    pub mem: Vec<u8>,
    pub gran: Vec<Gran>,
    pub allowed: Range<u32>,
    pub fault: Fault,
    pub off: bool,
    pub fault_hit: bool,
    pub breaches: Vec<(&'static str, String)>,
    pub log: Vec<Op>,
    pub reads: u64,
    pub read_limit: u64,
    pub bytes: u64,
    pub erase_count: Vec<u32>,
}

impl FlashState {
    pub fn new(r: usize, w: usize, e: usize, total_pages: usize, allowed: Range<u32>) -> Self {
        FlashState { r, w, e, mem: vec![0xFF; total_pages * e], gran: vec![Gran::Erased; total_pages * e / w], allowed, fault: Fault::None, off: false, fault_hit: false,
            breaches: vec![], log: vec![], reads: 0, read_limit: u64::MAX, bytes: 0, erase_count: vec![0; total_pages] }
    }
    pub fn with_image(&self, mem: &[u8]) -> Self {
        let mut s = self.clone();
        s.mem.copy_from_slice(mem);
        for (i, g) in s.gran.iter_mut().enumerate() {
            *g = if mem[i * s.w..(i + 1) * s.w].iter().all(|b| *b == 0xFF) { Gran::Erased } else { Gran::Written(1) };
        }
        s
    }
    pub fn reboot(&mut self) { self.off = false; self.fault = Fault::None; self.fault_hit = false; self.log.clear(); self.reads = 0; self.bytes = 0; }
    fn breach(&mut self, p: &'static str, m: String) { if (want(p) || p == "C09" && want("C19")) && self.breaches.len() < 20 { self.breaches.push((p, m)); } }
    /// how many of the next n bytes may be processed; Some(k) with k<n means torn
    fn budget(&mut self, n: u64) -> u64 {
        match self.fault {
            Fault::PowerLoss(b) | Fault::FailOnce(b) | Fault::Cancel(b) => {
                if n <= b { let nb = b - n; self.fault = match self.fault { Fault::PowerLoss(_) => Fault::PowerLoss(nb), Fault::FailOnce(_) => Fault::FailOnce(nb), _ => Fault::Cancel(nb) }; n } else { b }
            }
            _ => n,
        }
    }
    fn do_read(&mut self, off: u32, buf: &mut [u8]) -> Result<(), FlashErr> {
        if self.off { return Err(FlashErr::PowerLost); }
        self.reads += 1;
        if self.reads > self.read_limit { panic!("WATCHDOG: more than {} flash reads in one operation (endless loop)", self.read_limit); }
        let end = off as u64 + buf.len() as u64;
        if (off as u64) < self.allowed.start as u64 || end > self.allowed.end as u64 { self.breach("C09", format!("read {off}..{end} outside {:?}", self.allowed)); }
        if off as usize % self.r != 0 || buf.len() % self.r != 0 { self.breach("C09", format!("misaligned read {off}..{end} (read size {})", self.r)); }
        if end > self.mem.len() as u64 { return Err(FlashErr::Misuse); }
        if let Fault::ReadFail(n) = self.fault { if n == 0 { self.fault = Fault::None; self.fault_hit = true; buf.fill(0xA5); return Err(FlashErr::Fault); } self.fault = Fault::ReadFail(n - 1); }
        buf.copy_from_slice(&self.mem[off as usize..end as usize]);
        Ok(())
    }
    /// Ok(true): done, Ok(false): never completes (cancelled)
    fn tear(&mut self) -> Result<bool, FlashErr> {
        self.fault_hit = true;
        match self.fault {
            Fault::PowerLoss(_) => { self.off = true; Err(FlashErr::PowerLost) }
            Fault::FailOnce(_) => { self.fault = Fault::None; Err(FlashErr::Fault) }
            Fault::Cancel(_) => { self.fault = Fault::None; Ok(false) }
            _ => unreachable!(),
        }
    }
    fn do_write(&mut self, off: u32, data: &[u8]) -> Result<bool, FlashErr> {
        if self.off { return Err(FlashErr::PowerLost); }
        let end = off as u64 + data.len() as u64;
        if (off as u64) < self.allowed.start as u64 || end > self.allowed.end as u64 { self.breach("C09", format!("write {off}..{end} outside {:?}", self.allowed)); }
        if off as usize % self.w != 0 || data.len() % self.w != 0 { self.breach("C09", format!("misaligned write {off}..{end} (write size {})", self.w)); return Err(FlashErr::Misuse); }
        if end > self.mem.len() as u64 { return Err(FlashErr::Misuse); }
        self.log.push(Op::Write(off, data.len() as u32));
        let n = self.budget(data.len() as u64) as usize;
        let w = self.w;
        let mut i = 0;
        while i < n {
            let g = (off as usize + i) / w;
            let k = w.min(n - i);
            let old: Vec<u8> = self.mem[g * w..g * w + k].to_vec();
            let new = &data[i..i + k];
            match self.gran[g] {
                Gran::Erased => {}
                Gran::Torn => if old.iter().zip(new).any(|(o, n)| o & n != *n) { self.breach("C10", format!("write at {off}: torn word {:#x} holding {old:02x?} rewritten with {new:02x?}", g * w)); },
                Gran::Written(c) => {
                    if old.iter().zip(new).any(|(o, n)| o & n != *n) { self.breach("C10", format!("write at {off}: word {:#x} holding {old:02x?} rewritten with {new:02x?} sets bits", g * w)); }
                    else if c >= 2 { self.breach("C10", format!("write at {off}: word {:#x} written a third time", g * w)); }
                }
            }
            for j in 0..k { self.mem[g * w + j] &= new[j]; }
            self.gran[g] = if k < w {
                if self.mem[g * w..(g + 1) * w].iter().all(|b| *b == 0xFF) { Gran::Erased } else { Gran::Torn }
            } else { match self.gran[g] { Gran::Erased | Gran::Torn => Gran::Written(1), Gran::Written(c) => Gran::Written(c.saturating_add(1)) } };
            i += k;
        }
        self.bytes += n as u64;
        if n < data.len() { return self.tear(); }
        Ok(true)
    }
    fn do_erase(&mut self, from: u32, to: u32) -> Result<bool, FlashErr> {
        if self.off { return Err(FlashErr::PowerLost); }
        if from < self.allowed.start || to > self.allowed.end || from > to { self.breach("C09", format!("erase {from}..{to} outside {:?}", self.allowed)); }
        if from as usize % self.e != 0 || to as usize % self.e != 0 { self.breach("C09", format!("misaligned erase {from}..{to}")); return Err(FlashErr::Misuse); }
        if to as usize > self.mem.len() { return Err(FlashErr::Misuse); }
        self.log.push(Op::Erase(from, to));
        let total = (to - from) as usize;
        let n = self.budget(total as u64) as usize;
        let (w, e) = (self.w, self.e);
        for a in from as usize..from as usize + n { self.mem[a] = 0xFF; }
        for g in from as usize / w..(from as usize + n) / w { self.gran[g] = Gran::Erased; }
        if n % w != 0 { let g = (from as usize + n) / w; self.gran[g] = if self.mem[g * w..(g + 1) * w].iter().all(|b| *b == 0xFF) { Gran::Erased } else { Gran::Torn }; }
        if n > 0 { for p in from as usize / e..(from as usize + n).div_ceil(e) { self.erase_count[p] += 1; } }
        self.bytes += n as u64;
        if n < total { return self.tear(); }
        Ok(true)
    }
}

#[derive(Clone)]
pub struct Flash<const R: usize, const W: usize, const E: usize>(pub Rc<RefCell<FlashState>>);
impl<const R: usize, const W: usize, const E: usize> Flash<R, W, E> {
    pub fn from_state(s: FlashState) -> Self { Flash(Rc::new(RefCell::new(s))) }
}
impl<const R: usize, const W: usize, const E: usize> ErrorType for Flash<R, W, E> { type Error = FlashErr; }
impl<const R: usize, const W: usize, const E: usize> ReadNorFlash for Flash<R, W, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), FlashErr> { self.0.borrow_mut().do_read(offset, bytes) }
    fn capacity(&self) -> usize { self.0.borrow().mem.len() }
}
impl<const R: usize, const W: usize, const E: usize> NorFlash for Flash<R, W, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), FlashErr> {
        slow(&self.0).await;
        let r = self.0.borrow_mut().do_erase(from, to)?;
        if !r { std::future::pending::<()>().await }
        Ok(())
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), FlashErr> {
        slow(&self.0).await;
        let r = self.0.borrow_mut().do_write(offset, bytes)?;
        if !r { std::future::pending::<()>().await }
        Ok(())
    }
}
impl<const R: usize, const W: usize, const E: usize> MultiwriteNorFlash for Flash<R, W, E> {}

/// Poll a future that only ever pends when it is cancelled.
pub fn run<T>(f: impl std::future::Future<Output = T>) -> Option<T> {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => Some(v), std::task::Poll::Pending => None }
}

async fn slow(st: &RefCell<FlashState>) {
    let pend = { let mut s = st.borrow_mut(); match s.fault { Fault::Yield(0) => { s.fault = Fault::None; s.fault_hit = true; true } Fault::Yield(n) => { s.fault = Fault::Yield(n - 1); false } _ => false } };
    if pend { let mut first = true; std::future::poll_fn(|_| if first { first = false; std::task::Poll::Pending } else { std::task::Poll::Ready(()) }).await }
}
/// Like `run`, but each time the future pends `between` runs and, if it returns true, the future is polled again.
pub fn run_with<T>(f: impl std::future::Future<Output = T>, mut between: impl FnMut() -> bool) -> Option<T> {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { match f.as_mut().poll(&mut cx) { std::task::Poll::Ready(v) => return Some(v), std::task::Poll::Pending => if !between() { return None } } }
}
