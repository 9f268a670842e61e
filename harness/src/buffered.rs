//! RAM ring (C15) and buffered queue (C16) against a plain reference.
use crate::flash::*;
use crate::fmt;
use crate::queue_eng::fresh_view;
use crate::util::*;
use sequential_storage::Error;
use sequential_storage::cache::{Cache, Uncached};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use sequential_storage::queue::buffered::{BufferedQueue, OverflowPolicy, SharedRamRing};
use std::collections::VecDeque;

type Cch = Cache<Uncached, Uncached, Uncached>;
type Fl = Flash<1, 4, 64>;
const E: usize = 64;
const CAP: usize = 64 - 8 - 8;

fn storage(st: &FlashState, range: &std::ops::Range<u32>) -> (Fl, QueueStorage<Fl, Cch>) { let f = Fl::from_state(st.clone()); (f.clone(), QueueStorage::new(f, QueueConfig::new(range.clone()), Cch::new_uncached())) }
struct Ring { cap: usize, q: VecDeque<Vec<u8>> }
impl Ring {
    fn used(&self) -> usize { self.q.iter().map(|i| i.len() + 2).sum() }
    fn enqueue(&mut self, d: &[u8], over: bool) -> Result<(), ()> {
        if d.len() > 65535 || d.len() + 2 > self.cap { return Err(()); }
        if !over && self.used() + d.len() + 2 > self.cap { return Err(()); }
        while self.used() + d.len() + 2 > self.cap { self.q.pop_front(); }
        self.q.push_back(d.to_vec());
        Ok(())
    }
}
/// C15: the ring alone, seen through an empty flash queue (BufferedQueue) and through SharedRamRing
pub fn ring_case<const N: usize>(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let range = 0u32..(2 * E) as u32;
    let fs = FlashState::new(1, 4, E, 3, range.clone());
    let (flash, stg) = storage(&fs, &range);
    let mut bq = BufferedQueue::<_, _, N>::new(stg);
    let shared = SharedRamRing::<N>::new();
    let mut m = Ring { cap: N, q: VecDeque::new() };
    tr.p(format!("ram ring of {N} bytes"));
    for i in 0..60 {
        // a buffer of exactly the length of the oldest item is enough
        let mut buf = vec![0u8; if rng.chance(50) { m.q.front().map_or(0, |f| f.len()) } else { N + 8 }];
        let bl = buf.len();
        st.ops += 1;
        let r = guarded(|| -> Result<(), String> {
            if rng.chance(60) {
                let n = match rng.below(12) { 0 => N, 1 => N.saturating_sub(2), 2 => N.saturating_sub(1), 3 => 0, 4 => N.saturating_sub(m.used()), 5 => N.saturating_sub(m.used() + 2), 6 => (N + 1).saturating_sub(m.used() + 2), 7 if N > 65000 && rng.chance(30) => 65535 + rng.below(2), _ => rng.below(N / 2 + 3) };
                let d = rng.bytes(n);
                let over = rng.chance(50);
                tr.p(format!("{i}: enqueue {} bytes {} discard_oldest={over}", n, hex(&d)));
                let p = || if over { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err };
                let want = m.enqueue(&d, over);
                let (a, b) = (bq.enqueue(&d, p()), shared.enqueue(&d, p()));
                if a != want || b != want { return Err(format!("enqueue gives {a:?} / {b:?} (shared), must be {want:?}; {} of {N} bytes used", m.used())); }
            } else if rng.chance(60) {
                tr.p(format!("{i}: pop"));
                let got = run(bq.pop(&mut buf)).unwrap().map(|o| o.map(|v| v.to_vec())).map_err(|e| format!("{e:?}"))?;
                let want = m.q.pop_front();
                if got != want { return Err(format!("pop gives {:02x?}, oldest is {:02x?}", got, want)); }
                // the shared ring loses its oldest item by draining into a throw-away flash
                if want.as_ref().is_none_or(|w| w.len() <= CAP) {
                    let (_, mut s2) = storage(&fs, &range);
                    let mut big = vec![0; if bl < N { fmt::up(bl, 4) } else { N + 8 }];
                    let r = run(shared.drain_one(&mut s2, &mut big, true)).unwrap().map_err(|e| format!("shared drain_one: {e:?}"))?;
                    if r != want.is_some() { return Err(format!("shared drain_one gives {r}, ring held {:02x?}", want)); }
                    if let Some(w) = &want { let v = run(async { s2.pop(&mut big).await.map(|o| o.map(|v| v.to_vec())) }).unwrap().map_err(|e| format!("{e:?}"))?; if v.as_ref() != Some(w) { return Err(format!("shared ring drained {v:02x?}, oldest is {w:02x?}")); } }
                } else { let w = want.unwrap(); m.q.push_front(w); m.q.pop_front(); return Err("SKIP".into()); }
            } else if rng.chance(20) && m.q.front().is_some_and(|f| !f.is_empty()) {
                let n = m.q.front().unwrap().len();
                let mut small = vec![0u8; n - 1 - rng.below(n)];
                tr.p(format!("{i}: peek and pop with a buffer of {} bytes", small.len()));
                for k in 0..2 {
                    let got = run(async { if k == 0 { bq.peek(&mut small).await.map(|o| o.map(|v| v.len())) } else { bq.pop(&mut small).await.map(|o| o.map(|v| v.len())) } }).unwrap();
                    if !matches!(got, Err(Error::BufferTooSmall(_))) { return Err(format!("reading an item of {n} bytes into {} gives {got:?}", small.len())); }
                }
            } else {
                tr.p(format!("{i}: peek"));
                let got = run(bq.peek(&mut buf)).unwrap().map(|o| o.map(|v| v.to_vec())).map_err(|e| format!("{e:?}"))?;
                if got.as_ref() != m.q.front() { return Err(format!("peek gives {:02x?}, oldest is {:02x?}", got, m.q.front())); }
            }
            let acc = (bq.ram_pending_count(), bq.ram_bytes_used(), bq.ram_free_bytes());
            let want = (m.q.len(), m.used(), N - m.used());
            if acc != want { return Err(format!("count/used/free are {acc:?}, contents say {want:?}")); }
            let sacc = (shared.ram_pending_count(), shared.ram_free_bytes(), shared.oldest_ram_item_len());
            let want = (m.q.len(), N - m.used(), m.q.front().map(|f| f.len()));
            if sacc != want { return Err(format!("shared: count/free/oldest are {sacc:?}, contents say {want:?}")); }
            st.checks += 1;
            Ok(())
        });
        match r { Ok(Ok(())) => {} Ok(Err(m)) if m == "SKIP" => return Ok(()), Ok(Err(m)) => return fail(&["C15"], m), Err(p) => return fail(&["C15", "C19"], format!("panic: {p}")) }
        if !flash.0.borrow().log.is_empty() && false { unreachable!() }
    }
    if !flash.0.borrow().log.is_empty() { return fail(&["C15", "C16"], "RAM operations touched the flash".to_string()); }
    if BufferedQueue::<Fl, Cch, N>::ram_capacity_bytes() != N || SharedRamRing::<N>::ram_capacity_bytes() != N { return fail(&["C15"], "capacity".to_string()); }
    st.cases += 1;
    Ok(())
}
type R1<T> = Result<T, Error<FlashErr>>;
/// C16
pub fn buffered_case<const N: usize>(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let pages = 2 + rng.below(3);
    let range = 0u32..(pages * E) as u32;
    let fs = FlashState::new(1, 4, E, pages + 1, range.clone());
    let (flash, stg) = storage(&fs, &range);
    let mut bq = BufferedQueue::<_, _, N>::new(stg);
    let mut ram = Ring { cap: N, q: VecDeque::new() };
    let mut fl: VecDeque<Vec<u8>> = VecDeque::new();
    tr.p(format!("buffered queue: ring {N} bytes, {pages} pages of {E}"));
    for i in 0..50 {
        st.ops += 1;
        let fault = if rng.chance(25) { match rng.below(3) { 0 => Fault::ReadFail(rng.below(25) as u64), 1 => Fault::FailOnce(rng.below(40) as u64), _ => Fault::Cancel(rng.below(40) as u64) } } else { Fault::None };
        let op = rng.below(10);
        let bl = if rng.chance(10) { fmt::up(rng.below(30), 4) } else { 256 };
        let mut buf = vec![0u8; bl];
        let over = rng.chance(25);
        { let mut f = flash.0.borrow_mut(); f.log.clear(); f.reads = 0; f.read_limit = 100_000; }
        let (names, r): (&str, Result<Result<(), String>, String>) = match op {
            0..=4 => {
                let n = if rng.chance(10) { rng.below(N + 3) } else { rng.below(24) };
                let d: Vec<u8> = { let mut d = rng.bytes(n); if n > 1 { d[0] = i as u8; } d };
                tr.p(format!("{i}: enqueue {} ({n} bytes) discard_oldest={over}", hex(&d)));
                let want = ram.enqueue(&d, over);
                ("enqueue", guarded(|| { let g = bq.enqueue(&d, if over { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err }); if g == want { Ok(()) } else { Err(format!("enqueue gives {g:?}, must be {want:?}")) } }))
            }
            5..=6 => {
                tr.p(format!("{i}: drain_one/all(buffer {bl}, overwrite {over}) {fault:?}"));
                flash.0.borrow_mut().fault = fault;
                let all = op == 6;
                let r = guarded(|| if all { run(bq.drain_all(&mut buf, over)).map(|r: R1<()>| r.map(|_| true)) } else { run(bq.drain_one(&mut buf, over)) });
                ("drain", r.and_then(|r| Ok(after_drain(&flash, &range, bq.ram_pending_count(), &mut ram, &mut fl, &r, all, over, bl))))
            }
            _ => {
                let pop = op >= 8;
                tr.p(format!("{i}: {} (buffer {bl}) {fault:?}", if pop { "pop" } else { "peek" }));
                flash.0.borrow_mut().fault = fault;
                let r = guarded(|| run(async { if pop { bq.pop(&mut buf).await.map(|o| o.map(|v| v.to_vec())) } else { bq.peek(&mut buf).await.map(|o| o.map(|v| v.to_vec())) } }));
                let oldest = fl.front().or(ram.q.front()).cloned();
                ("pop/peek", r.map(|r| match r {
                    Some(Ok(v)) => {
                        if v != oldest { return Err(format!("returned {v:02x?}, oldest item is {oldest:02x?} (flash {fl:02x?}, ram {:02x?})", ram.q)); }
                        if pop { if fl.pop_front().is_none() { ram.q.pop_front(); } }
                        Ok(())
                    }
                    other => {
                        if let Some(Err(e)) = &other { if fault == Fault::None && !matches!(e, Error::BufferTooSmall(_)) { return Err(format!("gave {e:?}")); }
                            if fault == Fault::None && bl == 256 { return Err(format!("gave {e:?} although the buffer is large enough")); } }
                        let v: VecDeque<Vec<u8>> = fresh_view::<1, 4, E>(&flash.0.borrow(), &range)?.into_iter().map(|x| x.1).collect();
                        let popped: VecDeque<_> = fl.iter().skip(1).cloned().collect();
                        if v == fl { } else if pop && v == popped { fl = popped; } else { return Err(format!("failed {other:?}; flash queue is {v:02x?}, was {fl:02x?}")); }
                        Ok(())
                    }
                }))
            }
        };
        let hit = { let mut f = flash.0.borrow_mut(); let h = f.fault_hit; f.fault = Fault::None; f.fault_hit = false; h };
        if hit { st.faults += 1; }
        match r { Ok(Ok(())) => {} Ok(Err(m)) => return fail(&["C16"], format!("{names}: {m}")), Err(p) => return fail(&["C16", "C19"], format!("panic in {names}: {p}")) }
        // the flash queue really holds what is expected, and RAM is untouched
        let v: VecDeque<Vec<u8>> = fresh_view::<1, 4, E>(&flash.0.borrow(), &range).or_else(|m| fail(&["C16"], m))?.into_iter().map(|x| x.1).collect();
        if v != fl { return fail(&["C16"], format!("after {names}: flash queue is {v:02x?}, expected {fl:02x?}")); }
        if bq.ram_pending_count() != ram.q.len() || bq.ram_bytes_used() != ram.used() { return fail(&["C16", "C15"], format!("after {names}: {} items pending in RAM, expected {:02x?}", bq.ram_pending_count(), ram.q)); }
        st.checks += 1;
    }
    // drain the remaining through pops: order and bytes
    let mut buf = vec![0u8; 256];
    while let Some(w) = fl.pop_front().or_else(|| ram.q.pop_front()) {
        let g = run(async { bq.pop(&mut buf).await.map(|o| o.map(|v| v.to_vec())) }).unwrap();
        if !matches!(&g, Ok(Some(v)) if *v == w) { return fail(&["C16"], format!("final pop gives {g:02x?}, expected {w:02x?}")); }
    }
    st.cases += 1;
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn after_drain(flash: &Fl, range: &std::ops::Range<u32>, pending: usize, ram: &mut Ring, fl: &mut VecDeque<Vec<u8>>, r: &Option<R1<bool>>, all: bool, over: bool, bl: usize) -> Result<(), String> {
    let v: VecDeque<Vec<u8>> = fresh_view::<1, 4, E>(&flash.0.borrow(), range)?.into_iter().map(|x| x.1).collect();
    let moved = ram.q.len().checked_sub(pending).ok_or("items appeared in RAM")?;
    if !all && moved > 1 { return Err("drain_one removed several items".into()); }
    let too_small = ram.q.iter().any(|i| i.len() > bl);
    match r {
        Some(Ok(b)) => {
            if all && pending != 0 { return Err(format!("drain_all reports success but {pending} items are still pending")); }
            if !all && *b != (moved == 1) { return Err(format!("drain_one gives {b}, {moved} items left RAM")); }
            if !all && !*b && !ram.q.is_empty() { return Err(format!("drain_one reports an empty ring, but {} items are pending (buffer {bl})", ram.q.len())); }
        }
        Some(Err(Error::FullStorage | Error::ItemTooBig | Error::Storage { .. })) | None => {}
        Some(Err(Error::BufferTooSmall(_))) if too_small => {}
        Some(Err(_)) if flash.0.borrow().fault_hit => {}
        Some(Err(e)) => return Err(format!("gave {e:?}")),
    }
    // everything that left RAM is in flash, in order, behind what was there; an interrupted one may be in both
    let gone: Vec<Vec<u8>> = ram.q.iter().take(moved).cloned().collect();
    let mut want: Vec<Vec<u8>> = fl.iter().cloned().chain(gone.iter().cloned()).collect();
    let vv: Vec<Vec<u8>> = v.iter().cloned().collect();
    let next = ram.q.get(moved).cloned();
    let mut also = want.clone(); if let Some(n) = next { also.push(n); }
    let failed = !matches!(r, Some(Ok(_)));
    let ok = vv == want || (failed && vv == also) || (over && (moved == 0 || !vv.is_empty()) && (want.ends_with(&vv) || (failed && also.ends_with(&vv))) && (all || vv.len() + fl.len() >= want.len())) || (over && failed && subseq(&vv, &also));
    if !ok { want.truncate(50); return Err(format!("flash queue is {vv:02x?}, expected {want:02x?}")); }
    for _ in 0..moved { ram.q.pop_front(); }
    *fl = v;
    Ok(())
}
fn subseq(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { let mut it = b.iter(); a.iter().all(|x| it.any(|y| y == x)) }
/// C16: producers enqueue while a drain of the shared ring waits for the flash
pub fn shared_case<const N: usize>(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let pages = 3;
    let range = 0u32..(pages * E) as u32;
    let fs = FlashState::new(1, 4, E, pages + 1, range.clone());
    let (flash, mut stg) = storage(&fs, &range);
    let ring = SharedRamRing::<N>::new();
    let mut ram = Ring { cap: N, q: VecDeque::new() };
    tr.p(format!("shared ring of {N} bytes, {pages} pages; producers run while the flash is busy"));
    let mut tagn = 0u8;
    let mut popped: Vec<u8> = vec![];
    let mut accepted: Vec<u8> = vec![];
    let mut discarded: Vec<u8> = vec![];
    for i in 0..40 {
        st.ops += 1;
        let mut enq = |rng: &mut Rng, ram: &mut Ring, in_flight: Option<u8>, tr: &mut Trace| -> Result<(), Fail> {
            let n = 1 + rng.below(14);
            let d: Vec<u8> = { let mut d = vec![0x40; n]; d[0] = tagn; d };
            let over = rng.chance(50);
            let before: Vec<u8> = ram.q.iter().map(|x| x[0]).collect();
            let want = ram.enqueue(&d, over);
            let g = ring.enqueue(&d, if over { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err });
            tr.p(format!("{i}: enqueue item {tagn} ({n} bytes, discard_oldest={over}) -> {g:?}{}", if let Some(x) = in_flight { format!(" while item {x} is being written") } else { String::new() }));
            if g != want { return fail(&["C15", "C16"], format!("enqueue gives {g:?}, must be {want:?}")); }
            if g.is_ok() { accepted.push(tagn); }
            for b in before { if !ram.q.iter().any(|x| x[0] == b) { discarded.push(b); } }
            tagn = tagn.wrapping_add(1);
            Ok(())
        };
        if rng.chance(40) { enq(rng, &mut ram, None, tr)?; continue; }
        if rng.chance(30) {
            let mut buf = [0u8; 128];
            tr.p(format!("{i}: pop from flash"));
            match run(async { stg.pop(&mut buf).await.map(|o| o.map(|v| v[0])) }) { Some(Ok(Some(t))) => popped.push(t), Some(Ok(None)) => {} o => return fail(&["C16"], format!("pop {o:?}")) }
            continue;
        }
        let mut buf = [0u8; 128];
        let fault = if rng.chance(70) { Fault::Yield(rng.below(4) as u64) } else { Fault::None };
        flash.0.borrow_mut().fault = fault;
        tr.p(format!("{i}: drain_one {fault:?}"));
        let inflight = ram.q.front().map(|x| x[0]);
        let mut err = None;
        let r = run_with(ring.drain_one(&mut stg, &mut buf, false), || { for _ in 0..1 + rng.below(3) { if let Err(e) = enq(rng, &mut ram, inflight, tr) { err = Some(e); } } true });
        if let Some(e) = err { return Err(e); }
        { let mut f = flash.0.borrow_mut(); if f.fault_hit { st.faults += 1; } f.fault = Fault::None; f.fault_hit = false; }
        match r {
            Some(Ok(true)) => { if ram.q.front().map(|x| x[0]) == inflight { ram.q.pop_front(); } }
            Some(Ok(false)) => if inflight.is_some() { return fail(&["C16"], "drain_one reports an empty ring".to_string()); },
            Some(Err(Error::FullStorage)) => {}
            o => return fail(&["C16"], format!("drain_one gives {o:?}")),
        }
        st.checks += 1;
        if ring.ram_pending_count() != ram.q.len() || ring.oldest_ram_item_len() != ram.q.front().map(|x| x.len()) { return fail(&["C16"], format!("after draining item {inflight:?} the ring holds {} items, but items {:?} were enqueued and not yet drained: an item was lost", ring.ram_pending_count(), ram.q.iter().map(|x| x[0]).collect::<Vec<_>>())); }
    }
    let v: Vec<u8> = fresh_view::<1, 4, E>(&flash.0.borrow(), &range).or_else(|m| fail(&["C16"], m))?.into_iter().map(|x| x.1[0]).collect();
    let all: Vec<u8> = popped.iter().copied().chain(v).chain(ram.q.iter().map(|x| x[0])).collect();
    // every accepted item that was not discarded by policy is present exactly once, in order
    for w in all.windows(2) { if w[0] >= w[1] { return fail(&["C16"], format!("order or duplication: {all:?}")); } }
    for a in &accepted { if !discarded.contains(a) && !all.contains(a) { return fail(&["C16"], format!("item {a} was accepted and never discarded, but is neither in flash nor in RAM: {all:?}")); } }
    st.cases += 1;
    Ok(())
}
