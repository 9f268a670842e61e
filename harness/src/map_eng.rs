//! Contract-checked executions of the map.
use crate::flash::*;
use crate::fmt;
use crate::util::*;
use sequential_storage::Error;
use sequential_storage::cache::CacheImpl;
use sequential_storage::map::{Key, MapConfig, MapStorage};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

pub type Model = BTreeMap<u8, Vec<u8>>;

#[derive(Debug, Clone, PartialEq)]
pub enum MOp { Store(u8, Vec<u8>), Fetch(u8), Remove(u8), RemoveAll, Iterate, Reopen(bool), EraseAll }
impl std::fmt::Display for MOp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { MOp::Store(k, v) => write!(f, "store({k}, {} bytes {})", v.len(), hex(v)), o => write!(f, "{o:?}") } }
}
#[derive(Debug, PartialEq)]
pub enum MOut { Unit(Result<(), Error<FlashErr>>), Val(Result<Option<Vec<u8>>, Error<FlashErr>>), Items(Result<Vec<(u8, Vec<u8>)>, Error<FlashErr>>), Cancelled }
impl Clone for MOut { fn clone(&self) -> Self { unreachable!() } }

pub trait TKey: Key { fn mk(i: u8) -> Self; fn idx(&self) -> u8; fn enc_len(i: u8) -> usize; }
impl TKey for u8 { fn mk(i: u8) -> Self { i } fn idx(&self) -> u8 { *self } fn enc_len(_: u8) -> usize { 1 } }
/// variable length key: first char tells the index, length 0..=4 varies
impl TKey for arrayvec::ArrayString<6> {
    fn mk(i: u8) -> Self { let mut s = arrayvec::ArrayString::new(); for j in 0..(i % 4) { s.push((b'a' + (i + j) % 20) as char); } if i >= 1 { s.push((b'A' + i) as char); } s }
    fn idx(&self) -> u8 { self.chars().last().map(|c| (c as u32 as u8).wrapping_sub(b'A')).unwrap_or(0) }
    fn enc_len(i: u8) -> usize { Self::mk(i).len() + 2 }
}

pub struct MapRig<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>> {
    pub flash: Flash<R, W, E>,
    pub range: Range<u32>,
    pub st: Option<MapStorage<K, Flash<R, W, E>, C>>,
    pub mk: fn(usize) -> C,
    pub buf: Vec<u8>,
    pub nkeys: u8,
}
impl<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>> MapRig<R, W, E, K, C> {
    pub fn new(state: FlashState, range: Range<u32>, mk: fn(usize) -> C, nkeys: u8) -> Self {
        let flash = Flash::from_state(state);
        let pages = range.len() / E;
        let st = Some(MapStorage::new(flash.clone(), MapConfig::new(range.clone()), mk(pages)));
        MapRig { flash, range, st, mk, buf: vec![0x5A; BUF], nkeys }
    }
    pub fn mem(&self) -> Vec<u8> { self.flash.0.borrow().mem[self.range.start as usize..self.range.end as usize].to_vec() }
    pub fn exec(&mut self, op: &MOp) -> Result<MOut, String> {
        let pages = self.range.len() / E;
        let (range, mk, nkeys) = (self.range.clone(), self.mk, self.nkeys);
        let (flash, st, buf) = (&self.flash, &mut self.st, &mut self.buf);
        { let mut f = flash.0.borrow_mut(); f.log.clear(); f.reads = 0; f.bytes = 0; f.read_limit = 200_000; }
        let _ = nkeys;
        guarded(|| {
            if st.is_none() { *st = Some(MapStorage::new(flash.clone(), MapConfig::new(range.clone()), mk(pages))); }
            let s = st.as_mut().unwrap();
            match op {
                MOp::Store(k, v) => run(s.store_item(buf, &K::mk(*k), &v.as_slice())).map_or(MOut::Cancelled, MOut::Unit),
                MOp::Fetch(k) => run(async { s.fetch_item::<&[u8]>(buf, &K::mk(*k)).await.map(|o| o.map(|v| v.to_vec())) }).map_or(MOut::Cancelled, MOut::Val),
                MOp::Remove(k) => run(s.remove_item(buf, &K::mk(*k))).map_or(MOut::Cancelled, MOut::Unit),
                MOp::RemoveAll => run(s.remove_all_items(buf)).map_or(MOut::Cancelled, MOut::Unit),
                MOp::Iterate => run(async {
                    let mut out = vec![];
                    let mut it = s.fetch_all_items(buf).await?;
                    let mut b2 = vec![0x3C; BUF];
                    let mut n = 0;
                    while let Some((k, v)) = it.next::<&[u8]>(&mut b2).await? { out.push((k.idx(), v.to_vec())); n += 1; if n > 10000 { panic!("WATCHDOG: iterator yields endlessly"); } }
                    Ok(out)
                }).map_or(MOut::Cancelled, MOut::Items),
                MOp::Reopen(keep) => {
                    let (f, c) = st.take().unwrap().destroy();
                    *st = Some(MapStorage::new(f, MapConfig::new(range.clone()), if *keep { c } else { mk(pages) }));
                    MOut::Unit(Ok(()))
                }
                MOp::EraseAll => run(s.erase_all()).map_or(MOut::Cancelled, MOut::Unit),
            }
        })
    }
    pub fn breaches(&self) -> Vec<(&'static str, String)> { self.flash.0.borrow().breaches.clone() }
}
/// What a freshly opened, uncached map sees in (a copy of) this flash.
pub fn fresh_view<const R: usize, const W: usize, const E: usize, K: TKey>(state: &FlashState, range: &Range<u32>, nkeys: u8) -> Result<Model, String> {
    let mut s = state.clone(); s.reboot(); s.breaches.clear();
    let mut rig = MapRig::<R, W, E, K, _>::new(s, range.clone(), |_| sequential_storage::cache::Cache::new_uncached(), nkeys);
    let mut m = Model::new();
    for k in 0..nkeys {
        match rig.exec(&MOp::Fetch(k))? { MOut::Val(Ok(Some(v))) => { m.insert(k, v); } MOut::Val(Ok(None)) => {} o => return Err(format!("fetch({k}) gave {o:?}")) }
    }
    Ok(m)
}
pub fn show(m: &Model) -> String { m.iter().map(|(k, v)| format!("{k}={}b:{}", v.len(), hex(&v[..v.len().min(6)]))).collect::<Vec<_>>().join(" ") }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MMode { Plain, Crash, Soft, /** power loss again and again, each time re-opened */ Multi }

pub struct MapCase { pub pages: usize, pub base_pages: usize, pub nkeys: u8, pub nops: usize, pub mode: MMode, pub removal: usize, pub big: bool, pub crash_budget: u64 }

pub fn gen_op<K: TKey>(rng: &mut Rng, c: &MapCase, e: usize, word: usize, model: &Model) -> MOp {
    let cap = e - 2 * word - fmt::hdr(word);
    let k = rng.below(c.nkeys as usize) as u8;
    let r = rng.below(100);
    if r < c.removal { return if rng.chance(4) { MOp::RemoveAll } else if rng.chance(80) && !model.is_empty() { MOp::Remove(*model.keys().nth(rng.below(model.len())).unwrap()) } else { MOp::Remove(k) }; }
    if r < c.removal + 8 { return MOp::Fetch(k); }
    if r < c.removal + 12 { return MOp::Iterate; }
    if r < c.removal + 16 { return MOp::Reopen(rng.chance(50)); }
    if r == 99 && rng.chance(15) { return MOp::EraseAll; }
    let room = cap.saturating_sub(K::enc_len(k));
    let n = match rng.below(20) { 0 => room + 1, 1 => room, 2 => room.saturating_sub(rng.below(word + 2)), 3 => 0, x if x < 12 && !c.big => rng.below(8.min(room + 1)), x if x < 16 => rng.below(room / 2 + 1), _ => rng.below(room / 3 + 1) };
    MOp::Store(k, rng.bytes(n))
}

fn item_len<K: TKey>(k: u8, v: &[u8], word: usize) -> usize { fmt::hdr(word) + fmt::up(K::enc_len(k) + v.len(), word) }

pub fn run_case<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>>(rng: &mut Rng, mk: fn(usize) -> C, c: &MapCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let range = (c.base_pages * E) as u32..((c.base_pages + c.pages) * E) as u32;
    let mut fs = FlashState::new(R, W, E, c.base_pages + c.pages + 1, range.clone());
    // guard pages hold foreign data
    for p in (0..c.base_pages).chain([c.base_pages + c.pages]) { fs.mem[p * E..(p + 1) * E].fill(0x11); }
    tr.p(format!("map: read {R} write {W} erase {E} pages {} base page {} keys {} key type {} cache {} mode {:?}", c.pages, c.base_pages, c.nkeys, std::any::type_name::<K>(), std::any::type_name::<C>(), c.mode));
    let mut rig = MapRig::<R, W, E, K, C>::new(fs, range.clone(), mk, c.nkeys);
    let mut model = Model::new();
    let mut past: BTreeMap<u8, BTreeSet<Vec<u8>>> = BTreeMap::new();
    let mut removed: BTreeSet<u8> = BTreeSet::new();
    let cap = E - 2 * word - fmt::hdr(word);
    let mut last_erased: Option<usize> = None;
    for opi in 0..c.nops {
        let mut op = gen_op::<K>(rng, c, E, word, &model);
        if c.mode != MMode::Plain && op == MOp::EraseAll { op = MOp::Iterate; }
        tr.p(format!("{opi}: {op}"));
        st.ops += 1;
        // ---- crash enumeration on copies, before the op really runs
        if c.mode == MMode::Crash && matches!(op, MOp::Store(..) | MOp::Remove(_) | MOp::RemoveAll) {
            crash_points::<R, W, E, K, C>(rng, mk, c, &rig, &op, &model, tr, st)?;
        }
        let before = model.clone();
        let mem_before = rig.flash.0.borrow().clone();
        let soft = matches!(c.mode, MMode::Soft | MMode::Multi) && rng.chance(25) && matches!(op, MOp::Store(..) | MOp::Remove(_) | MOp::RemoveAll | MOp::Fetch(_) | MOp::Iterate);
        if soft {
            let cost = op_cost::<R, W, E, K>(&mem_before, &range, c.nkeys, &op);
            let fault = if c.mode == MMode::Multi { Fault::PowerLoss(rng.below(cost as usize + 1) as u64) } else { match rng.below(4) { 0 => Fault::Cancel(rng.below(cost as usize + 1) as u64), 1 => Fault::ReadFail(rng.below(40) as u64), _ => Fault::FailOnce(rng.below(cost as usize + 1) as u64) } };
            tr.p(format!("   fault {fault:?} (op programs/erases {cost} bytes)"));
            rig.flash.0.borrow_mut().fault = fault;
            st.faults += 1;
        }
        let out = match rig.exec(&op) { Ok(o) => o, Err(p) => return fail(&["C19", tag(&op, c.mode), "C01"], format!("panic in {op}: {p}\n{}", dump(&rig.mem(), E))) };
        let hit = rig.flash.0.borrow().fault_hit;
        { let mut f = rig.flash.0.borrow_mut(); f.fault = Fault::None; f.fault_hit = false; }
        if hit && c.mode == MMode::Multi { rig.flash.0.borrow_mut().off = false; rig.st = None; }
        let log = rig.flash.0.borrow().log.clone();
        if let Some(b) = rig.breaches().first() { return fail(&[b.0], format!("{} (during {op})", b.1)); }
        if std::env::var_os("SQS_DUMP").is_some() { tr.p(format!("   -> {out:02x?} {log:?}\n{}", dump(&rig.mem(), E))); }
        if hit {
            // failed or cancelled operation on a working device: same instance keeps being used
            if let MOut::Items(Ok(v)) = &out { if !same_live(v, &before) { return fail(&["C04"], format!("iteration with a failing read reported success but yielded {v:?}, live items {}", show(&before))); } }
            if let MOut::Val(Ok(v)) = &out { if let MOp::Fetch(k) = op { if v.as_ref() != before.get(&k) { return fail(&["C01"], format!("fetch({k}) with a failing read returned {v:?}")); } } }
            let view = fresh_view::<R, W, E, K>(&rig.flash.0.borrow(), &range, c.nkeys).or_else(|m| fail(&["C03"], format!("after failed {op} ({out:?}): {m}\n{}", dump(&rig.mem(), E))))?;
            let after = apply(&before, &op);
            if !between(&view, &before, &after, &op) { return fail(&["C03"], format!("after failed {op}: view {} is neither before {} nor after {}\n{}", show(&view), show(&before), show(&after), dump(&rig.mem(), E))); }
            if matches!(out, MOut::Unit(Ok(()))) && view != after { return fail(&["C03"], format!("{op} reported success but view is {}", show(&view))); }
            // the same instance must agree from now on
            if rng.chance(40) {
                match rig.exec(&MOp::Iterate) { Ok(MOut::Items(Ok(v))) if same_live(&v, &view) => {}
                    o => return fail(&["C04", "C14", "C03"], format!("after failed {op} ({out:?}) the same instance iterates {o:02x?}, flash holds {}\n{}", show(&view), dump(&rig.mem(), E))) }
            }
            for k in 0..c.nkeys {
                if rng.chance(60) { continue; }
                match rig.exec(&MOp::Fetch(k)) { Ok(MOut::Val(Ok(v))) if v.as_ref() == view.get(&k) => {}
                    o => return fail(&["C14", "C03"], format!("after failed {op} ({out:?}) the same instance fetches {k} as {o:?}, flash holds {:?}\n{}", view.get(&k), dump(&rig.mem(), E))) }
            }
            for (k, v) in &view { past.entry(*k).or_default().insert(v.clone()); }
            model = view;
            tr.p(format!("   failed with {out:?}; now {}", show(&model)));
            last_erased = None;
            continue;
        }
        // ---- normal outcome
        let fprop = tag(&op, c.mode);
        match (&op, &out) {
            (MOp::Store(k, v), MOut::Unit(r)) => {
                let too_big = K::enc_len(*k) + v.len() > cap || K::enc_len(*k) + v.len() > 65535;
                match r {
                    Ok(()) => { if want("C18") && (too_big) { return fail(&["C18"], format!("{op}: item that cannot fit in a page accepted")); } model.insert(*k, v.clone()); past.entry(*k).or_default().insert(v.clone()); removed.remove(k); }
                    Err(Error::ItemTooBig) => { if want("C18") && (!too_big) { return fail(&["C18"], format!("{op}: rejected as too big although {} bytes fit in a page", cap)); } }
                    Err(Error::FullStorage) => {
                        let live: usize = before.iter().map(|(k, v)| item_len::<K>(*k, v, word)).sum();
                        if live + item_len::<K>(*k, v, word) <= E - 2 * word { return fail(&["C01"], format!("{op}: storage full reported with {live} live bytes\n{}", dump(&rig.mem(), E))); }
                        if want("C18") && (too_big) { return fail(&["C18"], format!("{op}: too big item gave FullStorage")); }
                    }
                    Err(e) => return fail(&[fprop, "C01"], format!("{op} failed: {e:?}\n{}", dump(&rig.mem(), E))),
                }
            }
            (MOp::Remove(k), MOut::Unit(Ok(()))) => { model.remove(k); removed.insert(*k); }
            (MOp::RemoveAll, MOut::Unit(Ok(()))) => { removed.extend(model.keys()); model.clear(); }
            (MOp::EraseAll, MOut::Unit(Ok(()))) => { model.clear(); past.clear(); last_erased = None; }
            (MOp::Reopen(_), _) => {}
            (MOp::Fetch(k), MOut::Val(Ok(v))) => { if v.as_ref() != model.get(k) { let props = if removed.contains(k) { ["C02", "C02"] } else { [fprop, "C01"] }; return fail(&props, format!("fetch({k}) returned {:?}, last stored {:?}\n{}", v.as_ref().map(|v| hex(v)), model.get(k).map(|v| hex(v)), dump(&rig.mem(), E))); } }
            (MOp::Iterate, MOut::Items(Ok(v))) => {
                if !same_live(v, &model) { return fail(&["C04"], format!("iteration yields {v:02x?}, live items are {}\n{}", show(&model), dump(&rig.mem(), E))); }
                for (k, v) in v { if !past.get(k).is_some_and(|p| p.contains(v)) { return fail(&["C04", "C13"], format!("iteration yields ({k}, {v:02x?}) which was never stored\n{}", dump(&rig.mem(), E))); } }
            }
            (op, out) => return fail(&[fprop, if matches!(op, MOp::Iterate) { "C04" } else if matches!(op, MOp::Remove(_) | MOp::RemoveAll) { "C02" } else { "C01" }], format!("{op} failed: {out:?}\n{}", dump(&rig.mem(), E))),
        }
        // read-only operations
        if want("C11") && (matches!(op, MOp::Fetch(_) | MOp::Iterate) && !log.is_empty() && c.mode == MMode::Plain) { return fail(&["C11"], format!("{op} changed flash: {log:?}")); }
        // view of the flash
        let view = fresh_view::<R, W, E, K>(&rig.flash.0.borrow(), &range, c.nkeys).or_else(|m| fail(&[fprop, "C01"], format!("after {op}: {m}\n{}", dump(&rig.mem(), E))))?;
        if view != model {
            let k = (0..c.nkeys).find(|k| view.get(k) != model.get(k)).unwrap();
            let props: Vec<&'static str> = if removed.contains(&k) || matches!(op, MOp::Remove(_) | MOp::RemoveAll) { vec!["C02", "C01"] } else { vec!["C01"] };
            return fail(&props, format!("after {op}: key {k} is {:?}, must be {:?}\n{}", view.get(&k).map(|v| hex(v)), model.get(&k).map(|v| hex(v)), dump(&rig.mem(), E)));
        }
        st.checks += 1;
        if rng.chance(20) {
            for k in 0..c.nkeys {
                match rig.exec(&MOp::Fetch(k)) { Ok(MOut::Val(Ok(v))) if v.as_ref() == model.get(&k) => {}
                    o => return fail(&["C14", if removed.contains(&k) { "C02" } else { "C01" }], format!("after {op}: the cached instance fetches {k} as {o:02x?}, flash holds {:02x?}\n{}", model.get(&k), dump(&rig.mem(), E))) }
            }
        }
        if std::mem::size_of::<K>() == 1 {
            let ind = fmt::map_view(&rig.mem(), E, R, word);
            if want("C12") && (ind != model) { return fail(&["C12"], format!("after {op}: flash read by the documented format gives {}, model {}\n{}", show(&ind), show(&model), dump(&rig.mem(), E))); }
            if let MOp::Store(k, v) = &op { if matches!(out, MOut::Unit(Ok(()))) {
                let mut d = vec![*k]; d.extend(v); let img = fmt::encode_item(&d, word);
                let mem = rig.mem(); if want("C12") && (!mem.windows(img.len()).any(|x| x == &img[..])) { return fail(&["C12"], format!("after {op}: bytes {} not in flash\n{}", hex(&img), dump(&mem, E))); }
            } }
        }
        if c.mode == MMode::Plain && !matches!(op, MOp::EraseAll) {
            for o in &log { if let Op::Erase(a, b) = o {
                if want("C11") && ((*b - *a) as usize != E) { return fail(&["C11"], format!("{op}: erase {a}..{b} is not one page")); }
                let p = (*a - range.start) as usize / E;
                if let Some(l) = last_erased { if want("C11") && (p != (l + 1) % c.pages) { return fail(&["C11"], format!("{op}: page {p} erased after page {l} (ring of {})", c.pages)); } }
                if p == 0 { st.wraps += 1; }
                last_erased = Some(p);
            } }
            if want("C11") && (matches!(op, MOp::Remove(_) | MOp::RemoveAll) && log.iter().any(|o| matches!(o, Op::Erase(..)))) { return fail(&["C11"], format!("{op} erased a page")); }
        }
    }
    st.cases += 1;
    Ok(())
}
fn tag(op: &MOp, m: MMode) -> &'static str { match m { MMode::Crash => "C03", MMode::Soft => "C14", MMode::Multi => "C03", MMode::Plain => match op { MOp::Remove(_) | MOp::RemoveAll => "C02", MOp::Iterate => "C04", _ => "C01" } } }
pub fn same_live(v: &[(u8, Vec<u8>)], m: &Model) -> bool { let mut x = Model::new(); for (k, val) in v { x.insert(*k, val.clone()); } &x == m }
pub fn apply(m: &Model, op: &MOp) -> Model { let mut n = m.clone(); match op { MOp::Store(k, v) => { n.insert(*k, v.clone()); } MOp::Remove(k) => { n.remove(k); } MOp::RemoveAll | MOp::EraseAll => n.clear(), _ => {} } n }
/// view is a legal outcome of an interrupted op
pub fn between(view: &Model, before: &Model, after: &Model, op: &MOp) -> bool {
    if view == before || view == after { return true; }
    if *op == MOp::RemoveAll { return view.iter().all(|(k, v)| before.get(k) == Some(v)); }
    false
}
fn op_cost<const R: usize, const W: usize, const E: usize, K: TKey>(state: &FlashState, range: &Range<u32>, nkeys: u8, op: &MOp) -> u64 {
    let mut s = state.clone(); s.reboot();
    let mut rig = MapRig::<R, W, E, K, _>::new(s, range.clone(), |_| sequential_storage::cache::Cache::new_uncached(), nkeys);
    let _ = rig.exec(op);
    let b = rig.flash.0.borrow().bytes; b
}

#[allow(clippy::too_many_arguments)]
fn crash_points<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>>(rng: &mut Rng, mk: fn(usize) -> C, c: &MapCase, rig: &MapRig<R, W, E, K, C>, op: &MOp, before: &Model, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let range = rig.range.clone();
    let base = rig.flash.0.borrow().clone();
    let total = op_cost::<R, W, E, K>(&base, &range, c.nkeys, op);
    let after = apply(before, op);
    let step = (total / c.crash_budget.max(1)).max(1);
    let off = if step > 1 { rng.below(step as usize) as u64 } else { 0 };
    let mut f = off;
    while f < total {
        st.crash_points += 1;
        let mut s = base.clone(); s.reboot(); s.fault = Fault::PowerLoss(f);
        let mut r1 = MapRig::<R, W, E, K, C>::new(s, range.clone(), mk, c.nkeys);
        let ctx = |m: String, mem: &[u8]| format!("{op} interrupted by power loss after {f} of {total} bytes: {m}\n{}", dump(mem, E));
        match r1.exec(op) { Ok(MOut::Unit(Err(Error::Storage { .. }))) => {}
            Ok(MOut::Unit(Err(Error::FullStorage | Error::ItemTooBig))) => { f += step; continue; }
            o => { let m = r1.mem(); return fail(&["C03", "C19"], ctx(format!("operation returned {o:?} although power was lost"), &m)) } }
        if let Some(b) = r1.breaches().first() { return fail(&[b.0], ctx(b.1.clone(), &r1.mem())); }
        let mut s = r1.flash.0.borrow().clone(); s.reboot();
        // independent: what a reader sees
        let mut live = MapRig::<R, W, E, K, C>::new(s.clone(), range.clone(), mk, c.nkeys);
        let view = fresh_view::<R, W, E, K>(&s, &range, c.nkeys).or_else(|m| fail(&["C03"], ctx(m, &r1.mem())))?;
        if !between(&view, before, &after, op) { return fail(&["C03"], ctx(format!("afterwards the map holds {} — before {} after {}", show(&view), show(before), show(&after)), &r1.mem())); }
        match live.exec(&MOp::Iterate) { Ok(MOut::Items(Ok(v))) if same_live(&v, &view) => {} o => return fail(&["C04", "C03"], ctx(format!("iterating afterwards gives {o:02x?}, fetches give {}", show(&view)), &r1.mem())) }
        // recovery operation, itself interrupted at a random byte, then completed
        let mut view = view;
        let mut model = view.clone();
        for round in 0..2 {
            let k2 = rng.below(c.nkeys as usize) as u8;
            let rop = if rng.chance(65) { let n = rng.below(9); MOp::Store(k2, rng.bytes(n)) } else if rng.chance(50) { MOp::Remove(k2) } else { op.clone() };
            if round == 0 && rng.chance(60) {
                let s2 = live.flash.0.borrow().clone();
                let t2 = op_cost::<R, W, E, K>(&s2, &range, c.nkeys, &rop);
                let f2 = rng.below(t2 as usize + 1) as u64;
                let mut s3 = s2; s3.reboot(); s3.fault = Fault::PowerLoss(f2);
                let mut r3 = MapRig::<R, W, E, K, C>::new(s3, range.clone(), mk, c.nkeys);
                let o3 = r3.exec(&rop);
                if let Err(p) = &o3 { return fail(&["C03", "C19"], ctx(format!("then {rop} interrupted after {f2} bytes panicked: {p}"), &r3.mem())); }
                let done = matches!(o3, Ok(MOut::Unit(Ok(()))));
                if let Some(b) = r3.breaches().first() { return fail(&[b.0], ctx(format!("then {rop} interrupted after {f2} bytes: {}", b.1), &r3.mem())); }
                let mut s4 = r3.flash.0.borrow().clone(); s4.reboot();
                let a2 = apply(&model, &rop);
                let v4 = fresh_view::<R, W, E, K>(&s4, &range, c.nkeys).or_else(|m| fail(&["C03"], ctx(format!("then {rop} interrupted after {f2}/{t2} bytes: {m}"), &r3.mem())))?;
                if !(between(&v4, &model, &a2, &rop) && (!done || v4 == a2)) { return fail(&["C03"], ctx(format!("then {rop} interrupted after {f2}/{t2} bytes ({o3:?}): map holds {} — before {} after {}", show(&v4), show(&model), show(&a2)), &r3.mem())); }
                live = MapRig::<R, W, E, K, C>::new(s4, range.clone(), mk, c.nkeys);
                model = v4; view = model.clone();
                st.crash_points += 1;
                continue;
            }
            let o = live.exec(&rop);
            match &o {
                Ok(MOut::Unit(Ok(()))) => model = apply(&model, &rop),
                Ok(MOut::Unit(Err(Error::FullStorage | Error::ItemTooBig))) => {}
                o => return fail(&["C03", "C19"], ctx(format!("the next operation {rop} gave {o:?}; map held {}", show(&view)), &live.mem())),
            }
            if let Some(b) = live.breaches().first() { return fail(&[b.0], ctx(format!("then {rop}: {}", b.1), &live.mem())); }
            let v2 = fresh_view::<R, W, E, K>(&live.flash.0.borrow(), &range, c.nkeys).or_else(|m| fail(&["C03"], ctx(format!("after next operation {rop}: {m}"), &live.mem())))?;
            if v2 != model { return fail(&["C03"], ctx(format!("then {rop} ({o:?}): map holds {}, must be {}", show(&v2), show(&model)), &live.mem())); }
            let k = rng.below(c.nkeys as usize) as u8;
            match live.exec(&MOp::Fetch(k)) { Ok(MOut::Val(Ok(v))) if v.as_ref() == model.get(&k) => {} o => return fail(&["C03", "C14"], ctx(format!("then {rop}; instance fetches {k} as {o:02x?}"), &live.mem())) }
            view = v2;
        }
        let _ = tr;
        f += step;
    }
    Ok(())
}
