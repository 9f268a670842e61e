//! Contract-checked executions of the queue.
use crate::flash::*;
use crate::fmt;
use crate::util::*;
use sequential_storage::Error;
use sequential_storage::cache::{Cache, CacheImpl};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::ops::Range;

#[derive(Debug, Clone, PartialEq)]
pub enum QOp { Push(Vec<u8>, bool), Pop, Peek, /** iterate; bit i of the mask pops the i-th entry */ Iter(u64), FindMax, SpaceLeft, Reopen(bool), EraseAll }
impl std::fmt::Display for QOp { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { QOp::Push(v, o) => write!(f, "push({} bytes {}, overwrite={o})", v.len(), hex(v)), QOp::Iter(m) => write!(f, "iterate popping mask {m:b}"), o => write!(f, "{o:?}") } } }
type R1<T> = Result<T, Error<FlashErr>>;
#[derive(Debug, PartialEq)]
pub enum QOut { Unit(R1<()>), Val(R1<Option<Vec<u8>>>), Items(R1<Vec<(u32, Vec<u8>)>>), Num(R1<Option<u32>>), Cancelled }

pub struct QRig<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>> {
    pub flash: Flash<R, W, E>, pub range: Range<u32>, pub st: Option<QueueStorage<Flash<R, W, E>, C>>, pub mk: fn(usize) -> C, pub buf: Vec<u8>,
    /// entries seen (numbered from 0) / popped by a running iteration (also valid when it failed)
    pub seen: Vec<(u32, Vec<u8>)>, pub popped: Vec<u32>, pub popping: Option<u32>,
}
impl<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>> QRig<R, W, E, C> {
    pub fn new(state: FlashState, range: Range<u32>, mk: fn(usize) -> C) -> Self {
        let flash = Flash::from_state(state);
        let pages = range.len() / E;
        let st = Some(QueueStorage::new(flash.clone(), QueueConfig::new(range.clone()), mk(pages)));
        QRig { flash, range, st, mk, buf: vec![0x5A; BUF], seen: vec![], popped: vec![], popping: None }
    }
    pub fn mem(&self) -> Vec<u8> { self.flash.0.borrow().mem[self.range.start as usize..self.range.end as usize].to_vec() }
    pub fn breaches(&self) -> Vec<(&'static str, String)> { self.flash.0.borrow().breaches.clone() }
    pub fn exec(&mut self, op: &QOp) -> Result<QOut, String> {
        let pages = self.range.len() / E;
        let (range, mk) = (self.range.clone(), self.mk);
        self.seen.clear(); self.popped.clear(); self.popping = None;
        let (flash, st, buf, seen, popped, popping) = (&self.flash, &mut self.st, &mut self.buf, &mut self.seen, &mut self.popped, &mut self.popping);
        { let mut f = flash.0.borrow_mut(); f.log.clear(); f.reads = 0; f.bytes = 0; f.read_limit = 200_000; }
        guarded(|| {
            if st.is_none() { *st = Some(QueueStorage::new(flash.clone(), QueueConfig::new(range.clone()), mk(pages))); }
            let s = st.as_mut().unwrap();
            match op {
                QOp::Push(v, o) => { buf[..v.len()].copy_from_slice(v); run(s.push(&buf[..v.len()], *o)).map_or(QOut::Cancelled, QOut::Unit) }
                QOp::Pop => run(async { s.pop(buf).await.map(|o| o.map(|v| v.to_vec())) }).map_or(QOut::Cancelled, QOut::Val),
                QOp::Peek => run(async { s.peek(buf).await.map(|o| o.map(|v| v.to_vec())) }).map_or(QOut::Cancelled, QOut::Val),
                QOp::Iter(mask) => run(async {
                    let mut it = s.iter().await?;
                    let mut i = 0;
                    while let Some(e) = it.next(buf).await? {
                        let (a, d) = (i as u32, e.to_vec());
                        seen.push((a, d.clone()));
                        if mask >> (i % 64) & 1 == 1 { *popping = Some(a); let g = e.pop().await?.to_vec(); *popping = None; popped.push(a); if g != d { panic!("CONTRACT: pop inside iteration returned other bytes than shown"); } }
                        i += 1;
                        if i > 10000 { panic!("WATCHDOG: iterator yields endlessly"); }
                    }
                    Ok(seen.clone())
                }).map_or(QOut::Cancelled, QOut::Items),
                QOp::FindMax => run(s.find_max_fit()).map_or(QOut::Cancelled, QOut::Num),
                QOp::SpaceLeft => run(async { s.space_left().await.map(Some) }).map_or(QOut::Cancelled, QOut::Num),
                QOp::Reopen(keep) => { let (f, c) = st.take().unwrap().destroy(); *st = Some(QueueStorage::new(f, QueueConfig::new(range.clone()), if *keep { c } else { mk(pages) })); QOut::Unit(Ok(())) }
                QOp::EraseAll => run(s.erase_all()).map_or(QOut::Cancelled, QOut::Unit),
            }
        })
    }
}
pub type QView = Vec<(u32, Vec<u8>)>;
pub fn fresh_view<const R: usize, const W: usize, const E: usize>(state: &FlashState, range: &Range<u32>) -> Result<QView, String> {
    let mut s = state.clone(); s.reboot(); s.breaches.clear();
    let mut rig = QRig::<R, W, E, _>::new(s, range.clone(), |_| Cache::new_uncached());
    match rig.exec(&QOp::Iter(0))? {
        QOut::Items(Ok(v)) => {
            // addresses come from the independent reading of the flash
            let it = fmt::items(&rig.mem(), E, R, R.max(W));
            let same = it.len() == v.len();
            Ok(v.into_iter().enumerate().map(|(i, x)| (if same && it[i].2 == x.1 { it[i].1 as u32 + range.start } else { u32::MAX }, x.1)).collect())
        }
        o => Err(format!("iterating gave {o:02x?}")),
    }
}
fn datas(v: &QView) -> Vec<Vec<u8>> { v.iter().map(|x| x.1.clone()).collect() }
pub fn show(v: &[Vec<u8>]) -> String { format!("[{}]", v.iter().map(|d| format!("{}b:{}", d.len(), hex(&d[..d.len().min(4)]))).collect::<Vec<_>>().join(" ")) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum QMode { Plain, Crash, Soft, Multi }
pub struct QCase { pub pages: usize, pub base_pages: usize, pub nops: usize, pub mode: QMode, pub big: bool, pub overwrite: usize, pub pops: usize, pub crash_budget: u64 }

pub fn gen_op(rng: &mut Rng, c: &QCase, e: usize, word: usize) -> QOp {
    let cap = e - 2 * word - fmt::hdr(word);
    let r = rng.below(100);
    if r < c.pops { return match rng.below(8) { 0 => QOp::Iter(u64::MAX), 1 => QOp::Iter(rng.next()), 2 => QOp::Iter(rng.next() | 0xF), _ => QOp::Pop }; }
    if r < c.pops + 4 { return QOp::Peek; }
    if r < c.pops + 7 { return QOp::Iter(0); }
    if r < c.pops + 11 { return QOp::FindMax; }
    if r < c.pops + 14 { return QOp::SpaceLeft; }
    if r < c.pops + 18 { return QOp::Reopen(rng.chance(50)); }
    if r == 99 && rng.chance(15) { return QOp::EraseAll; }
    let n = match rng.below(20) { 0 => cap + 1, 1 => cap, 2 => cap.saturating_sub(rng.below(2 * word + 2)), 3 => 0, x if x < 12 && !c.big => rng.below(8.min(cap + 1)), x if x < 16 => rng.below(cap / 2 + 1), _ => rng.below(cap + 1) };
    QOp::Push(rng.bytes(n), rng.chance(c.overwrite))
}
/// Is `view` a legal content after (possibly interrupted) op on `before`? `done`: the op reported success.
fn legal<const E: usize>(op: &QOp, before: &QView, view: &QView, base: u32, done: bool, rig_popped: &[u32], popping: Option<u32>) -> Result<(), (&'static str, String)> {
    let (b, v) = (datas(before), datas(view));
    let desc = || format!("contents {} — before {}", show(&v), show(&b));
    match op {
        QOp::Push(d, over) => {
            let old: &[Vec<u8>] = if v.last() == Some(d) && (done || v.len() > b.len() || !b.ends_with(&v)) { &v[..v.len() - 1] } else { if done { return Err(("C05", format!("pushed item is not the newest: {}", desc()))); } &v[..] };
            if old == &b[..] { return Ok(()); }
            if !*over { return Err((if b.starts_with(old) || b.ends_with(old) { "C06" } else { "C05" }, format!("push without overwrite permission changed the stored items: {}", desc()))); }
            let page = |a: u32| (a - base) / E as u32;
            let keep: Vec<Vec<u8>> = before.iter().filter(|x| page(x.0) != page(before[0].0)).map(|x| x.1.clone()).collect();
            if done && old == &keep[..] { return Ok(()); }
            // interrupted: items of the oldest page only
            if !done && old.ends_with(&keep[..]) && is_subseq(&old[..old.len() - keep.len()], &b[..b.len() - keep.len()]) { return Ok(()); }
            Err(("C06", format!("overwriting push dropped more than the oldest page: {} (items not on oldest page: {})", desc(), show(&keep))))
        }
        QOp::Pop => { if v == b && !done { return Ok(()); } if !b.is_empty() && v[..] == b[1..] { return Ok(()); } if b.is_empty() && v.is_empty() { return Ok(()); } Err(("C05", format!("pop did not remove exactly the oldest item: {}", desc()))) }
        QOp::Iter(_) => {
            let must: Vec<Vec<u8>> = before.iter().enumerate().filter(|(i, _)| !rig_popped.contains(&(*i as u32))).map(|x| x.1.1.clone()).collect();
            if v == must { return Ok(()); }
            let may: Vec<Vec<u8>> = before.iter().enumerate().filter(|(i, _)| !rig_popped.contains(&(*i as u32)) && Some(*i as u32) != popping).map(|x| x.1.1.clone()).collect();
            if !done && v == may { return Ok(()); }
            Err(("C05", format!("iteration popping {rig_popped:?} left {}", desc())))
        }
        QOp::EraseAll => if v.is_empty() { Ok(()) } else { Err(("C05", desc())) },
        _ => if v == b { Ok(()) } else { Err(("C05", format!("{op} changed the stored items: {}", desc()))) },
    }
}
fn is_subseq(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { let mut it = b.iter(); a.iter().all(|x| it.any(|y| y == x)) }
fn op_cost<const R: usize, const W: usize, const E: usize>(state: &FlashState, range: &Range<u32>, op: &QOp) -> u64 {
    let mut s = state.clone(); s.reboot();
    let mut rig = QRig::<R, W, E, _>::new(s, range.clone(), |_| Cache::new_uncached());
    let _ = rig.exec(op);
    let b = rig.flash.0.borrow().bytes; b
}
fn try_push<const R: usize, const W: usize, const E: usize>(state: &FlashState, range: &Range<u32>, n: usize) -> Result<R1<()>, String> {
    let mut s = state.clone(); s.reboot();
    let mut rig = QRig::<R, W, E, _>::new(s, range.clone(), |_| Cache::new_uncached());
    if n > rig.buf.len() { rig.buf.resize(n, 0); }
    match rig.exec(&QOp::Push(vec![7; n], false))? { QOut::Unit(r) => Ok(r), o => Err(format!("{o:?}")) }
}

pub fn run_case<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>>(rng: &mut Rng, mk: fn(usize) -> C, c: &QCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let range = (c.base_pages * E) as u32..((c.base_pages + c.pages) * E) as u32;
    let mut fs = FlashState::new(R, W, E, c.base_pages + c.pages + 1, range.clone());
    for p in (0..c.base_pages).chain([c.base_pages + c.pages]) { fs.mem[p * E..(p + 1) * E].fill(0x11); }
    tr.p(format!("queue: read {R} write {W} erase {E} pages {} base page {} cache {} mode {:?}", c.pages, c.base_pages, std::any::type_name::<C>(), c.mode));
    let mut rig = QRig::<R, W, E, C>::new(fs, range.clone(), mk);
    let mut before: QView = vec![];
    let mut last_erased: Option<usize> = None;
    let cap = E - 2 * word - fmt::hdr(word);
    for opi in 0..c.nops {
        let mut op = gen_op(rng, c, E, word);
        if c.mode != QMode::Plain && op == QOp::EraseAll { op = QOp::Peek; }
        tr.p(format!("{opi}: {op}"));
        st.ops += 1;
        let changing = matches!(op, QOp::Push(..) | QOp::Pop | QOp::Iter(_) | QOp::Peek);
        if c.mode == QMode::Crash && changing { crash_points::<R, W, E, C>(rng, mk, c, &rig, &op, &before, st)?; }
        let state_before = rig.flash.0.borrow().clone();
        if matches!(c.mode, QMode::Soft | QMode::Multi) && rng.chance(25) && !matches!(op, QOp::Reopen(_)) {
            let cost = op_cost::<R, W, E>(&state_before, &range, &op);
            let fault = if c.mode == QMode::Multi { Fault::PowerLoss(rng.below(cost as usize + 1) as u64) } else { match rng.below(4) { 0 => Fault::Cancel(rng.below(cost as usize + 1) as u64), 1 => Fault::ReadFail(rng.below(30) as u64), _ => Fault::FailOnce(rng.below(cost as usize + 1) as u64) } };
            tr.p(format!("   fault {fault:?} (op programs/erases {cost} bytes)"));
            rig.flash.0.borrow_mut().fault = fault; st.faults += 1;
        }
        let main: &'static str = match c.mode { QMode::Crash => "C07", QMode::Soft => "C14", QMode::Multi => "C07", QMode::Plain => match &op { QOp::Push(_, true) => "C06", QOp::FindMax | QOp::SpaceLeft => "C08", _ => "C05" } };
        let out = match rig.exec(&op) { Ok(o) => o, Err(p) => return fail(&["C19", main, "C05"], format!("panic in {op}: {p}\n{}", dump(&rig.mem(), E))) };
        let hit = { let mut f = rig.flash.0.borrow_mut(); let h = f.fault_hit; f.fault = Fault::None; f.fault_hit = false; h };
        if hit && c.mode == QMode::Multi { rig.flash.0.borrow_mut().off = false; rig.st = None; }
        let mut log = rig.flash.0.borrow().log.clone();
        if let Some(b) = rig.breaches().first() { return fail(&[b.0], format!("{} (during {op})\n{}", b.1, dump(&rig.mem(), E))); }
        if std::env::var_os("SQS_DUMP").is_some() { tr.p(format!("   -> {out:02x?} {log:?}\n{}", dump(&rig.mem(), E))); }
        let view = fresh_view::<R, W, E>(&rig.flash.0.borrow(), &range).or_else(|m| fail(&(if hit { ["C07", "C07"] } else { [main, "C05"] }), format!("after {op} ({out:?}): {m}\n{}", dump(&rig.mem(), E))))?;
        if hit {
            let done = matches!(out, QOut::Unit(Ok(())) | QOut::Val(Ok(_)) | QOut::Items(Ok(_)));
            if let QOut::Val(Ok(v)) = &out { if v.as_ref() != before.first().map(|x| &x.1) { return fail(&["C07"], format!("{op} with failing flash returned {v:02x?}, oldest item {:02x?}", before.first())); } }
            if let QOut::Items(Ok(v)) = &out { if datas(v) != datas(&before) { return fail(&["C07"], format!("{op} with failing flash yielded {v:02x?}, stored {before:02x?}")); } }
            let popped = rig.popped.clone(); let popping = rig.popping;
            legal::<E>(&op, &before, &view, range.start, done, &popped, popping).or_else(|(_, m)| fail(&["C07"], format!("after failed {op} ({out:?}): {m}\n{}", dump(&rig.mem(), E))))?;
            match rig.exec(&QOp::Iter(0)) { Ok(QOut::Items(Ok(v))) if datas(&v) == datas(&view) => {} o => return fail(&["C14", "C07"], format!("after failed {op} the same instance iterates {o:02x?}, flash holds {view:02x?}\n{}", dump(&rig.mem(), E))) }
            before = fresh_view::<R, W, E>(&rig.flash.0.borrow(), &range).or_else(|m| fail(&["C07"], m))?;
            tr.p(format!("   failed with {out:?}; now {}", show(&datas(&before))));
            last_erased = None;
            continue;
        }
        let b = datas(&before);
        match (&op, &out) {
            (QOp::Push(d, over), QOut::Unit(r)) => {
                let too_big = d.len() > cap || d.len() > 65535;
                match r {
                    Ok(()) => { if want("C18") && (too_big) { return fail(&["C18"], format!("{op}: item that cannot fit accepted")); }
                        if *over && before.len() + 1 > view.len() { let p = try_push::<R, W, E>(&state_before, &range, d.len()); if matches!(p, Ok(Ok(()))) { return fail(&["C06"], format!("{op} dropped items although the item fits without dropping: before {} after {}\n{}", show(&b), show(&datas(&view)), dump(&rig.mem(), E))); } } }
                    Err(Error::ItemTooBig) => if want("C18") && (!too_big) { return fail(&["C18"], format!("{op}: rejected as too big although {cap} bytes fit")); },
                    Err(Error::FullStorage) if too_big => return fail(&["C18"], format!("{op}: too big item gave FullStorage")),
                    Err(Error::FullStorage) => {
                        if *over { return fail(&["C06"], format!("{op} gave FullStorage\n{}", dump(&rig.mem(), E))); }
                        if before.is_empty() { return fail(&["C06"], format!("{op} gave FullStorage on an empty queue\n{}", dump(&rig.mem(), E))); }
                    }
                    Err(e) => return fail(&[main, "C05"], format!("{op} failed: {e:?}\n{}", dump(&rig.mem(), E))),
                }
                if r.is_err() && view != before { return fail(&["C06"], format!("{op} failed with {r:?} but changed the contents: before {} after {}", show(&b), show(&datas(&view)))); }
            }
            (QOp::Pop | QOp::Peek, QOut::Val(Ok(v))) => if v.as_ref() != b.first() { return fail(&["C05"], format!("{op} returned {v:02x?}, oldest item is {:02x?}\n{}", b.first(), dump(&rig.mem(), E))); },
            (QOp::Iter(_), QOut::Items(Ok(v))) => if datas(v) != b { return fail(&["C05"], format!("{op} yields {v:02x?}, stored {before:02x?}\n{}", dump(&rig.mem(), E))); },
            (QOp::FindMax, QOut::Num(Ok(n))) => {
                let r = match n {
                    Some(n) => { let (a, b) = (try_push::<R, W, E>(&state_before, &range, *n as usize), try_push::<R, W, E>(&state_before, &range, *n as usize + 1));
                        if matches!(a, Ok(Ok(()))) && matches!(b, Ok(Err(Error::FullStorage | Error::ItemTooBig))) { Ok(()) } else { Err(format!("push of {n} bytes gives {a:?}, of {} bytes {b:?}", n + 1)) } }
                    None => { let a = try_push::<R, W, E>(&state_before, &range, 0); if matches!(a, Ok(Err(Error::FullStorage))) { Ok(()) } else { Err(format!("an empty push gives {a:?}")) } }
                };
                if let Err(m) = r { return fail(&["C08"], format!("find_max_fit gives {n:?}, but {m}\n{}", dump(&rig.mem(), E))); }
                if !log.is_empty() { return fail(&["C08", "C11"], format!("find_max_fit changed flash: {log:?}")); }
            }
            (QOp::SpaceLeft, QOut::Num(Ok(Some(n)))) => {
                let want = fmt::space_left(&rig.mem(), E, R, word);
                if *n != want { return fail(&["C08"], format!("space_left gives {n}, unused data bytes are {want}\n{}", dump(&rig.mem(), E))); }
                if !log.is_empty() { return fail(&["C08", "C11"], format!("space_left changed flash: {log:?}")); }
            }
            (QOp::Reopen(_), _) | (QOp::EraseAll, QOut::Unit(Ok(()))) => {}
            (op, out) => return fail(&[main, "C05"], format!("{op} failed: {out:?}\n{}", dump(&rig.mem(), E))),
        }
        let done = !matches!(out, QOut::Unit(Err(_)));
        let popped = rig.popped.clone();
        if let (QOp::Iter(m), QOut::Items(Ok(v))) = (&op, &out) { let want = v.iter().enumerate().filter(|(i, _)| m >> (i % 64) & 1 == 1).count(); if want != popped.len() { return fail(&["C05"], "popped count".to_string()); } }
        if done { legal::<E>(&op, &before, &view, range.start, true, &popped, None).or_else(|(p, m)| fail(&[p], format!("after {op}: {m}\n{}", dump(&rig.mem(), E))))?; }
        st.checks += 1;
        if rng.chance(25) {
            match rig.exec(&QOp::Iter(0)) { Ok(QOut::Items(Ok(v))) if datas(&v) == datas(&view) => {} o => return fail(&["C14", "C05"], format!("after {op} the cached instance iterates {o:02x?}, flash holds {view:02x?}\n{}", dump(&rig.mem(), E))) }
            log.extend(rig.flash.0.borrow().log.iter().cloned());
        }
        let ind: Vec<Vec<u8>> = fmt::items(&rig.mem(), E, R, word).into_iter().map(|x| x.2).collect();
        if want("C12") && (ind != datas(&view)) { return fail(&["C12"], format!("after {op}: the documented format reads as {}, the queue as {}\n{}", show(&ind), show(&datas(&view)), dump(&rig.mem(), E))); }
        if let (QOp::Push(d, _), true) = (&op, done) { let img = fmt::encode_item(d, word); let a = (view.last().unwrap().0 - range.start) as usize; if want("C12") && (rig.mem()[a..a + img.len()] != img[..]) { return fail(&["C12"], format!("{op}: flash holds {} expected {}", hex(&rig.mem()[a..a + img.len()]), hex(&img))); } }
        if c.mode == QMode::Plain && op != QOp::EraseAll {
            for o in &log { if let Op::Erase(a, b) = o {
                if want("C11") && ((*b - *a) as usize != E) { return fail(&["C11"], format!("{op}: erase {a}..{b} is not one page")); }
                let p = (*a - range.start) as usize / E;
                if let Some(l) = last_erased { if want("C11") && (p != (l + 1) % c.pages) { return fail(&["C11"], format!("{op}: page {p} erased after page {l} (ring of {})", c.pages)); } }
                if p == 0 { st.wraps += 1; }
                last_erased = Some(p);
            } }
            if want("C11") && (matches!(op, QOp::Peek) && log.iter().any(|o| matches!(o, Op::Write(..)))) { return fail(&["C11"], format!("{op} wrote flash")); }
        }
        if op == QOp::EraseAll { last_erased = None; }
        before = fresh_view::<R, W, E>(&rig.flash.0.borrow(), &range).or_else(|m| fail(&["C05"], m))?;
    }
    st.cases += 1;
    Ok(())
}

fn crash_points<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>>(rng: &mut Rng, mk: fn(usize) -> C, c: &QCase, rig: &QRig<R, W, E, C>, op: &QOp, before: &QView, st: &mut Stats) -> Result<(), Fail> {
    let range = rig.range.clone();
    let base = rig.flash.0.borrow().clone();
    let total = op_cost::<R, W, E>(&base, &range, op);
    let step = (total / c.crash_budget.max(1)).max(1);
    let off = if step > 1 { rng.below(step as usize) as u64 } else { 0 };
    let mut f = off;
    while f < total {
        st.crash_points += 1;
        let mut s = base.clone(); s.reboot(); s.fault = Fault::PowerLoss(f);
        let mut r1 = QRig::<R, W, E, C>::new(s, range.clone(), mk);
        let ctx = |m: String, mem: &[u8]| format!("{op} interrupted by power loss after {f} of {total} bytes: {m}\n{}", dump(mem, E));
        let o1 = match r1.exec(op) { Ok(o) => o, Err(p) => { let m = r1.mem(); return fail(&["C07", "C19"], ctx(format!("panic: {p}"), &m)) } };
        if !r1.flash.0.borrow().fault_hit { f += step; continue; }
        let done = matches!(o1, QOut::Unit(Ok(())) | QOut::Val(Ok(_)) | QOut::Items(Ok(_)));
        if done { return fail(&["C07"], ctx(format!("operation reported {o1:?} although power was lost"), &r1.mem())); }
        if let Some(b) = r1.breaches().first() { return fail(&[b.0], ctx(b.1.clone(), &r1.mem())); }
        let mut s = r1.flash.0.borrow().clone(); s.reboot();
        let view = fresh_view::<R, W, E>(&s, &range).or_else(|m| fail(&["C07"], ctx(m, &r1.mem())))?;
        legal::<E>(op, before, &view, range.start, false, &r1.popped, r1.popping).or_else(|(_, m)| fail(&["C07"], ctx(format!("afterwards: {m}"), &r1.mem())))?;
        let mut live = QRig::<R, W, E, C>::new(s, range.clone(), mk);
        let mut cur = view;
        for round in 0..3 {
            let rop = match rng.below(10) { 0..=5 => { let n = rng.below(9); QOp::Push(rng.bytes(n), rng.chance(60)) } 6 | 7 => QOp::Pop, 8 => QOp::Peek, _ => op.clone() };
            if round == 0 && rng.chance(60) {
                let s2 = live.flash.0.borrow().clone();
                let t2 = op_cost::<R, W, E>(&s2, &range, &rop);
                let f2 = rng.below(t2 as usize + 1) as u64;
                let mut s3 = s2; s3.reboot(); s3.fault = Fault::PowerLoss(f2);
                let mut r3 = QRig::<R, W, E, C>::new(s3, range.clone(), mk);
                let o3 = r3.exec(&rop);
                if let Err(p) = &o3 { return fail(&["C07", "C19"], ctx(format!("then {rop} interrupted after {f2} bytes panicked: {p}"), &r3.mem())); }
                let done = matches!(o3, Ok(QOut::Unit(Ok(())) | QOut::Val(Ok(_)) | QOut::Items(Ok(_))));
                if let Some(b) = r3.breaches().first() { return fail(&[b.0], ctx(format!("then {rop} interrupted after {f2} bytes: {}", b.1), &r3.mem())); }
                let mut s4 = r3.flash.0.borrow().clone(); s4.reboot();
                let v4 = fresh_view::<R, W, E>(&s4, &range).or_else(|m| fail(&["C07"], ctx(format!("then {rop} interrupted after {f2}/{t2} bytes: {m}"), &r3.mem())))?;
                let cur_l = fresh_view::<R, W, E>(&live.flash.0.borrow(), &range).or_else(|m| fail(&["C07"], m))?;
                legal::<E>(&rop, &cur_l, &v4, range.start, done, &r3.popped, r3.popping).or_else(|(_, m)| fail(&["C07"], ctx(format!("then {rop} interrupted after {f2}/{t2} bytes ({o3:?}): {m}"), &r3.mem())))?;
                live = QRig::<R, W, E, C>::new(s4, range.clone(), mk);
                cur = v4; st.crash_points += 1;
                continue;
            }
            let o = live.exec(&rop);
            if let Some(b) = live.breaches().first() { return fail(&[b.0], ctx(format!("then {rop}: {}", b.1), &live.mem())); }
            let bad = |what: String, mem: &[u8]| fail::<()>(&["C07", "C19"], ctx(format!("the next operation {rop}: {what}"), mem));
            let mut done = true;
            match (&rop, &o) {
                (QOp::Push(_, over), Ok(QOut::Unit(r))) => match r { Ok(()) => {}, Err(Error::FullStorage) if !*over => done = false, Err(Error::ItemTooBig) => done = false, e => bad(format!("gave {e:?}; queue held {}", show(&datas(&cur))), &live.mem())? },
                (QOp::Pop | QOp::Peek, Ok(QOut::Val(Ok(v)))) => if v.as_ref() != cur.first().map(|x| &x.1) { bad(format!("returned {v:02x?}, oldest is {:02x?}", cur.first()), &live.mem())? },
                (QOp::Iter(_), Ok(QOut::Items(Ok(v)))) => if datas(v) != datas(&cur) { bad(format!("yields {v:02x?}, stored {cur:02x?}"), &live.mem())? },
                (_, o) => bad(format!("gave {o:02x?}; queue held {}", show(&datas(&cur))), &live.mem())?,
            }
            let v2 = fresh_view::<R, W, E>(&live.flash.0.borrow(), &range).or_else(|m| fail(&["C07"], ctx(format!("after next operation {rop}: {m}"), &live.mem())))?;
            if done { legal::<E>(&rop, &cur, &v2, range.start, true, &live.popped, None).or_else(|(_, m)| fail(&["C07"], ctx(format!("next operation {rop}: {m}"), &live.mem())))?; }
            else if datas(&v2) != datas(&cur) { bad(format!("failed with {o:?} but changed contents to {}", show(&datas(&v2))), &live.mem())?; }
            cur = v2;
        }
        f += step;
    }
    Ok(())
}
