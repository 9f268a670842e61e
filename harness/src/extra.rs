//! Cached/uncached twins (C14), corrupted items (C13), arbitrary flash contents (C19).
use crate::flash::*;
use crate::fmt::{self, Kind};
use crate::map_eng::{self, MapCase, MapRig, MMode, MOp, MOut, Model, TKey};
use crate::queue_eng::{self, QCase, QMode, QOp, QOut, QRig};
use crate::util::*;
use sequential_storage::cache::{Cache, CacheImpl};

fn state<const R: usize, const W: usize, const E: usize>(base: usize, pages: usize) -> (FlashState, std::ops::Range<u32>) {
    let range = (base * E) as u32..((base + pages) * E) as u32;
    let mut fs = FlashState::new(R, W, E, base + pages + 1, range.clone());
    for p in (0..base).chain([base + pages]) { fs.mem[p * E..(p + 1) * E].fill(0x11); }
    (fs, range)
}
fn pick_fault(rng: &mut Rng) -> Fault { match rng.below(5) { 0 => Fault::ReadFail(rng.below(40) as u64), 1 => Fault::Cancel(rng.below(60) as u64), 2 => Fault::Cancel(rng.below(400) as u64), 3 => Fault::FailOnce(rng.below(60) as u64), _ => Fault::FailOnce(rng.below(400) as u64) } }

/// Same history on a cached and on an uncached instance: same results, same flash bytes.
pub fn map_twin<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>>(rng: &mut Rng, mk: fn(usize) -> C, c: &MapCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let (fs, range) = state::<R, W, E>(c.base_pages, c.pages);
    tr.p(format!("map twins: read {R} write {W} erase {E} pages {} keys {} cache {} mode {:?}", c.pages, c.nkeys, std::any::type_name::<C>(), c.mode));
    let mut a = MapRig::<R, W, E, K, C>::new(fs.clone(), range.clone(), mk, c.nkeys);
    let mut b = MapRig::<R, W, E, K, _>::new(fs, range.clone(), |_| Cache::new_uncached(), c.nkeys);
    let mut model = Model::new();
    for i in 0..c.nops {
        let op = map_eng::gen_op::<K>(rng, c, E, word, &model);
        let fault = if c.mode == MMode::Soft && rng.chance(20) { pick_fault(rng) } else { Fault::None };
        tr.p(format!("{i}: {op} {}", if fault == Fault::None { String::new() } else { format!("with {fault:?}") }));
        st.ops += 1;
        let mut ran = [false; 2];
        a.flash.0.borrow_mut().fault = fault; let ra = a.exec(&op);
        { let mut f = a.flash.0.borrow_mut(); ran[0] = f.fault_hit; f.fault = Fault::None; f.fault_hit = false; }
        let readfail = matches!(fault, Fault::ReadFail(_));
        b.flash.0.borrow_mut().fault = if readfail { Fault::None } else { fault };
        let rb = b.exec(&op);
        { let mut f = b.flash.0.borrow_mut(); ran[1] = f.fault_hit; f.fault = Fault::None; f.fault_hit = false; }
        if ran[0] { st.faults += 1; }
        let skip = readfail && ran[0];
        let (ma, mb) = (a.mem(), b.mem());
        if !skip {
            let same = match (&ra, &rb) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
            if !same { return fail(&["C14"], format!("{op} {fault:?}: with cache {ra:02x?}, without cache {rb:02x?}\nflash of the cached instance:\n{}\nof the uncached:\n{}", dump(&ma, E), dump(&mb, E))); }
            if ma != mb { return fail(&["C14"], format!("{op} {fault:?} ({ra:02x?}): flash contents differ. cached:\n{}\nuncached:\n{}", dump(&ma, E), dump(&mb, E))); }
        } else { let s = a.flash.0.borrow().clone(); *b.flash.0.borrow_mut() = s; }
        st.checks += 1;
        if let MOp::Store(k, v) = &op { if matches!(ra, Ok(MOut::Unit(Ok(())))) { model.insert(*k, v.clone()); } }
        if let MOp::Remove(k) = &op { model.remove(k); }
        if op == MOp::EraseAll && fault != Fault::None { return Ok(()); }
    }
    st.cases += 1;
    Ok(())
}
pub fn q_twin<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>>(rng: &mut Rng, mk: fn(usize) -> C, c: &QCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let (fs, range) = state::<R, W, E>(c.base_pages, c.pages);
    tr.p(format!("queue twins: read {R} write {W} erase {E} pages {} cache {} mode {:?}", c.pages, std::any::type_name::<C>(), c.mode));
    let mut a = QRig::<R, W, E, C>::new(fs.clone(), range.clone(), mk);
    let mut b = QRig::<R, W, E, _>::new(fs, range.clone(), |_| Cache::new_uncached());
    for i in 0..c.nops {
        let op = queue_eng::gen_op(rng, c, E, word);
        let fault = if c.mode == QMode::Soft && rng.chance(20) { pick_fault(rng) } else { Fault::None };
        tr.p(format!("{i}: {op} {}", if fault == Fault::None { String::new() } else { format!("with {fault:?}") }));
        st.ops += 1;
        a.flash.0.borrow_mut().fault = fault; let ra = a.exec(&op);
        let ha = { let mut f = a.flash.0.borrow_mut(); let h = f.fault_hit; f.fault = Fault::None; f.fault_hit = false; h };
        let readfail = matches!(fault, Fault::ReadFail(_));
        b.flash.0.borrow_mut().fault = if readfail { Fault::None } else { fault };
        let rb = b.exec(&op);
        { let mut f = b.flash.0.borrow_mut(); f.fault = Fault::None; f.fault_hit = false; }
        if ha { st.faults += 1; }
        let (ma, mb) = (a.mem(), b.mem());
        if !(readfail && ha) {
            let same = match (&ra, &rb) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
            if !same { return fail(&["C14"], format!("{op} {fault:?}: with cache {ra:02x?}, without cache {rb:02x?}\nflash of the cached instance:\n{}\nof the uncached:\n{}", dump(&ma, E), dump(&mb, E))); }
            if ma != mb { return fail(&["C14"], format!("{op} {fault:?} ({ra:02x?}): flash contents differ. cached:\n{}\nuncached:\n{}", dump(&ma, E), dump(&mb, E))); }
        } else { let s = a.flash.0.borrow().clone(); *b.flash.0.borrow_mut() = s; }
        st.checks += 1;
        if op == QOp::EraseAll && fault != Fault::None { return Ok(()); }
    }
    st.cases += 1;
    Ok(())
}

/// Damage the stored bytes of items: returns a description, or None when there was nothing to damage.
fn damage(rng: &mut Rng, mem: &mut [u8], e: usize, word: usize, base: usize) -> Option<String> {
    let n = mem.len() / e;
    let mut cand = vec![];
    for p in 0..n { for f in fmt::scan(&mem[p * e..(p + 1) * e], word).0 { if matches!(f.kind, Kind::Present(_)) { cand.push((p * e + f.addr, f.len)); } } }
    if cand.is_empty() { return None; }
    let (a, len) = cand[rng.below(cand.len())];
    let h = fmt::hdr(word);
    // without its header an item is searched word by word: data that looks like erased space ends that search
    let looks_erased = mem[a..a + h + len].windows(h).any(|w| w.iter().all(|b| *b == 0xFF));
    let (lo, n, what) = match rng.below(10) { 0..=3 if looks_erased => (a + h, len, "data"), 0 | 1 => (a, 4, "checksum"), 2 => (a + 4, 2, "length"), 3 => (a + 6, 2, "length checksum"), _ if len == 0 => (a, 4, "checksum"), _ => (a + h, len, "data") };
    let i = lo + rng.below(n);
    let old = mem[i];
    match rng.below(4) { 0 => mem[i] ^= 1 << rng.below(8), 1 => mem[i] &= rng.next() as u8, 2 => mem[i] = rng.next() as u8, _ => { let k = 1 + rng.below(n); for b in mem[lo..lo + k].iter_mut() { *b = if rng.chance(50) { 0 } else { rng.next() as u8 }; } } }
    Some(format!("{what} of the item at {:#x} ({} bytes): byte {:#x} {old:02x}->{:02x}", base + a, len, base + i, mem[i]))
}
pub fn q_corrupt<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>>(rng: &mut Rng, mk: fn(usize) -> C, c: &QCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let (fs, range) = state::<R, W, E>(c.base_pages, c.pages);
    tr.p(format!("queue with damaged items: read {R} write {W} erase {E} pages {} cache {}", c.pages, std::any::type_name::<C>()));
    let mut rig = QRig::<R, W, E, C>::new(fs, range.clone(), mk);
    for _ in 0..c.nops { let op = queue_eng::gen_op(rng, c, E, word); tr.p(format!("{op}")); st.ops += 1; let _ = rig.exec(&op); }
    let base = range.start as usize;
    let mut s = rig.flash.0.borrow().clone();
    let before: Vec<Vec<u8>> = fmt::items(&rig.mem(), E, R, word).into_iter().map(|x| x.2).collect();
    for _ in 0..1 + rng.below(3) { let mut m = s.mem[base..range.end as usize].to_vec(); if let Some(d) = damage(rng, &mut m, E, word, base) { tr.p(format!("damage: {d}")); } s.mem[base..range.end as usize].copy_from_slice(&m); }
    let img = s.mem.clone(); s = s.with_image(&img); s.reboot();
    let mem = s.mem[base..range.end as usize].to_vec();
    let want: Vec<Vec<u8>> = fmt::items(&mem, E, R, word).into_iter().map(|x| x.2).collect();
    tr.p(format!("stored {}\nintact {}", queue_eng::show(&before), queue_eng::show(&want)));
    st.checks += 1; st.cases += 1;
    let mut rig = QRig::<R, W, E, C>::new(s.clone(), range.clone(), mk);
    match rig.exec(&QOp::Iter(0)) { Ok(QOut::Items(Ok(v))) if v.iter().map(|x| &x.1).eq(want.iter()) => {} o => return fail(&["C13"], format!("iterating damaged storage gives {o:02x?}, intact items are {want:02x?}\n{}", dump(&mem, E))) }
    for (i, w) in want.iter().enumerate() {
        match rig.exec(&if i % 3 == 2 { QOp::Peek } else { QOp::Pop }) { Ok(QOut::Val(Ok(Some(v)))) if &v == w => {} o => return fail(&["C13"], format!("pop/peek {i} on damaged storage gives {o:02x?}, intact item is {w:02x?}\n{}", dump(&mem, E))) }
        if i % 3 == 2 { match rig.exec(&QOp::Pop) { Ok(QOut::Val(Ok(Some(v)))) if &v == w => {} o => return fail(&["C13"], format!("pop after peek gives {o:02x?}\n{}", dump(&mem, E))) } }
    }
    match rig.exec(&QOp::Pop) { Ok(QOut::Val(Ok(None))) => {} o => return fail(&["C13"], format!("after popping all intact items pop gives {o:02x?}\n{}", dump(&rig.mem(), E))) }
    // it stays usable: overwriting pushes go through and come out
    let mut rig = QRig::<R, W, E, C>::new(s, range.clone(), mk);
    let mut last = vec![];
    for i in 0..3u8 { last = vec![i; 3]; match rig.exec(&QOp::Push(last.clone(), true)) { Ok(QOut::Unit(Ok(()))) => {} o => return fail(&["C13", "C19"], format!("push on damaged storage gives {o:?}\n{}", dump(&rig.mem(), E))) } }
    match rig.exec(&QOp::Iter(0)) { Ok(QOut::Items(Ok(v))) if v.last().is_some_and(|x| x.1 == last) => { let it: Vec<_> = v.iter().map(|x| x.1.clone()).collect(); if !it[..it.len().saturating_sub(3)].iter().all(|d| want.contains(d)) { return fail(&["C13"], format!("damaged item returned: {it:02x?}")); } } o => return fail(&["C13"], format!("after pushes on damaged storage iterating gives {o:02x?}\n{}", dump(&rig.mem(), E))) }
    Ok(())
}
pub fn map_corrupt<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>>(rng: &mut Rng, mk: fn(usize) -> C, c: &MapCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let (fs, range) = state::<R, W, E>(c.base_pages, c.pages);
    tr.p(format!("map with damaged items: read {R} write {W} erase {E} pages {} cache {}", c.pages, std::any::type_name::<C>()));
    let mut rig = MapRig::<R, W, E, K, C>::new(fs, range.clone(), mk, c.nkeys);
    let mut model = Model::new();
    for _ in 0..c.nops { let op = map_eng::gen_op::<K>(rng, c, E, word, &model); tr.p(format!("{op}")); st.ops += 1; if let (MOp::Store(k, v), Ok(MOut::Unit(Ok(())))) = (&op, rig.exec(&op)) { model.insert(*k, v.clone()); } }
    let base = range.start as usize;
    let mut s = rig.flash.0.borrow().clone();
    for _ in 0..1 + rng.below(3) { let mut m = s.mem[base..range.end as usize].to_vec(); if let Some(d) = damage(rng, &mut m, E, word, base) { tr.p(format!("damage: {d}")); } s.mem[base..range.end as usize].copy_from_slice(&m); }
    let img = s.mem.clone(); s = s.with_image(&img); s.reboot();
    let mem = s.mem[base..range.end as usize].to_vec();
    // independent reading: last intact item per key
    let mut want = Model::new();
    for (_, _, d) in fmt::items(&mem, E, R, word) { if let Ok((k, n)) = K::deserialize_from(&d) { want.insert(k.idx(), d[n..].to_vec()); } }
    st.checks += 1; st.cases += 1;
    let mut rig = MapRig::<R, W, E, K, C>::new(s.clone(), range.clone(), mk, c.nkeys);
    let fetch_all = |rig: &mut MapRig<R, W, E, K, C>, want: &Model, when: &str| -> Result<(), Fail> { for k in 0..c.nkeys { match rig.exec(&MOp::Fetch(k)) { Ok(MOut::Val(Ok(v))) if v.as_ref() == want.get(&k) => {} o => return fail(&["C13"], format!("{when}: fetch({k}) gives {o:02x?}, newest intact item is {:02x?}\n{}", want.get(&k), dump(&rig.mem(), E))) } } Ok(()) };
    fetch_all(&mut rig, &want, "damaged storage")?;
    match rig.exec(&MOp::Iterate) { Ok(MOut::Items(Ok(v))) if map_eng::same_live(&v, &want) => {} o => return fail(&["C13"], format!("iterating damaged storage gives {o:02x?}, intact {}\n{}", map_eng::show(&want), dump(&mem, E))) }
    for j in 0..c.nops / 3 + 6 {
        let op = match rng.below(4) { 0 => MOp::Remove(rng.below(c.nkeys as usize) as u8), _ => MOp::Store(rng.below(c.nkeys as usize) as u8, vec![j as u8; rng.below(6)]) };
        tr.p(format!("after damage: {op}"));
        match rig.exec(&op) { Ok(MOut::Unit(Ok(()))) => {} Ok(MOut::Unit(Err(sequential_storage::Error::FullStorage))) => continue, o => return fail(&["C13", "C19"], format!("{op} on damaged storage gives {o:?}\n{}", dump(&rig.mem(), E))) }
        want = map_eng::apply(&want, &op);
        fetch_all(&mut rig, &want, &format!("damaged storage after {op}"))?;
    }
    Ok(())
}

/// A flash image of some foreign or failing device.
fn image(rng: &mut Rng, mem: &mut [u8], r: usize, e: usize, word: usize) -> String {
    let n = mem.len() / e;
    let mut d = String::new();
    for p in 0..n {
        let pg = &mut mem[p * e..(p + 1) * e];
        let kind = rng.below(9);
        match kind {
            0 => {}
            1 => pg.iter_mut().for_each(|b| *b = rng.next() as u8),
            2 => pg.fill(0),
            3 => pg.iter_mut().for_each(|b| if rng.chance(20) { *b = rng.next() as u8 }),
            _ => {
                // items laid out as documented, of unhelpful sizes, then markers and damage
                let mut a = word;
                let full = rng.chance(50);
                while a + fmt::hdr(word) <= e - word && (full || rng.chance(85)) {
                    let room = e - word - a - fmt::hdr(word);
                    let len = match rng.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => room, _ => rng.below(room + 1) };
                    let mut data = rng.bytes(len);
                    if rng.chance(30) && len >= 2 { data[0] = rng.below(8) as u8; data[1] = 0; }
                    let mut it = fmt::encode_item(&data, word);
                    if a + it.len() > e - word { break; }
                    match rng.below(10) { 0 => it[..4].fill(0), 1 => { let i = rng.below(it.len()); it[i] = rng.next() as u8; } 2 => { let l = (rng.next() as u16).to_le_bytes(); it[4..6].copy_from_slice(&l); it[6..8].copy_from_slice(&fmt::crc16(&l).to_le_bytes()); } _ => {} }
                    pg[a..a + it.len()].copy_from_slice(&it);
                    a += it.len();
                }
                if rng.chance(75) { pg[..word].fill(0); }
                if rng.chance(50) { pg[e - word..].fill(0); }
                if rng.chance(8) { pg[rng.below(r)] = rng.next() as u8; }
                if rng.chance(8) { pg[e - 1 - rng.below(r)] = rng.next() as u8; }
                if rng.chance(15) { let i = rng.below(e); pg[i] = rng.next() as u8; }
            }
        }
        d += &format!(" {kind}");
    }
    d
}
pub fn map_image<const R: usize, const W: usize, const E: usize, K: TKey, C: CacheImpl<K>>(rng: &mut Rng, mk: fn(usize) -> C, c: &MapCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let (mut fs, range) = state::<R, W, E>(c.base_pages, c.pages);
    let (a, b) = (range.start as usize, range.end as usize);
    let d = image(rng, &mut fs.mem[a..b], R, E, word);
    let img = fs.mem.clone(); let fs = fs.with_image(&img);
    tr.p(format!("map on foreign contents: read {R} write {W} erase {E} pages {} base {} key {} cache {} image kinds{d}\n{}", c.pages, c.base_pages, std::any::type_name::<K>(), std::any::type_name::<C>(), dump(&fs.mem[a..b], E)));
    let mut rig = MapRig::<R, W, E, K, C>::new(fs, range.clone(), mk, c.nkeys);
    for i in 0..c.nops {
        let op = map_eng::gen_op::<K>(rng, c, E, word, &Model::new());
        let small = rng.chance(10);
        if small { rig.buf = vec![0; fmt::up(rng.below(24), word)]; } else if rig.buf.len() != BUF { rig.buf = vec![0x77; BUF]; }
        tr.p(format!("{i}: {op} (buffer {})", rig.buf.len()));
        st.ops += 1;
        match rig.exec(&op) { Err(p) => return fail(&["C19"], format!("panic in {op} on foreign contents: {p}\n{}", dump(&rig.mem(), E))), Ok(MOut::Cancelled) => return fail(&["C19"], format!("{op} never completes")), _ => {} }
        if let Some(b) = rig.breaches().iter().find(|b| b.0 == "C09") { return fail(&["C09", "C19"], b.1.clone()); }
    }
    rig.buf = vec![0x77; BUF];
    if !matches!(rig.exec(&MOp::EraseAll), Ok(MOut::Unit(Ok(())))) { return fail(&["C19"], "erase_all fails"); }
    let mut model = Model::new();
    for k in 0..c.nkeys.min(2) { let op = MOp::Store(k, vec![k; 2]); match rig.exec(&op) { Ok(MOut::Unit(Ok(()))) => { model.insert(k, vec![k; 2]); } o => return fail(&["C19"], format!("{op} after erase_all gives {o:?}")) } }
    for k in 0..c.nkeys { match rig.exec(&MOp::Fetch(k)) { Ok(MOut::Val(Ok(v))) if v.as_ref() == model.get(&k) => {} o => return fail(&["C19"], format!("fetch({k}) after erase_all gives {o:?}")) } }
    st.checks += 1; st.cases += 1;
    Ok(())
}
pub fn q_image<const R: usize, const W: usize, const E: usize, C: CacheImpl<()>>(rng: &mut Rng, mk: fn(usize) -> C, c: &QCase, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let (mut fs, range) = state::<R, W, E>(c.base_pages, c.pages);
    let (a, b) = (range.start as usize, range.end as usize);
    let d = image(rng, &mut fs.mem[a..b], R, E, word);
    let img = fs.mem.clone(); let fs = fs.with_image(&img);
    tr.p(format!("queue on foreign contents: read {R} write {W} erase {E} pages {} base {} cache {} image kinds{d}\n{}", c.pages, c.base_pages, std::any::type_name::<C>(), dump(&fs.mem[a..b], E)));
    let mut rig = QRig::<R, W, E, C>::new(fs, range.clone(), mk);
    for i in 0..c.nops {
        let op = queue_eng::gen_op(rng, c, E, word);
        let small = rng.chance(10) && !matches!(op, QOp::Push(..));
        if small { rig.buf = vec![0; fmt::up(rng.below(24), word)]; } else if rig.buf.len() != BUF { rig.buf = vec![0x77; BUF]; }
        tr.p(format!("{i}: {op} (buffer {})", rig.buf.len()));
        st.ops += 1;
        match rig.exec(&op) { Err(p) => return fail(&["C19"], format!("panic in {op} on foreign contents: {p}\n{}", dump(&rig.mem(), E))), Ok(QOut::Cancelled) => return fail(&["C19"], format!("{op} never completes")), _ => {} }
        if let Some(b) = rig.breaches().iter().find(|b| b.0 == "C09") { return fail(&["C09", "C19"], b.1.clone()); }
    }
    rig.buf = vec![0x77; BUF];
    if !matches!(rig.exec(&QOp::EraseAll), Ok(QOut::Unit(Ok(())))) { return fail(&["C19"], "erase_all fails"); }
    for k in 0..3u8 { match rig.exec(&QOp::Push(vec![k; 2], false)) { Ok(QOut::Unit(Ok(()))) => {} Ok(QOut::Unit(Err(sequential_storage::Error::FullStorage))) if k > 0 => {} o => return fail(&["C19"], format!("push after erase_all gives {o:?}")) } }
    match rig.exec(&QOp::Pop) { Ok(QOut::Val(Ok(Some(v)))) if v == [0, 0] => {} o => return fail(&["C19"], format!("pop after erase_all gives {o:?}")) }
    st.checks += 1; st.cases += 1;
    Ok(())
}
