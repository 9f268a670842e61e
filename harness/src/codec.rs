//! Provided key/value codecs (C17), configurations (C18), golden images (C12).
use crate::flash::*;
use crate::fmt;
use crate::util::*;
use sequential_storage::cache::Cache;
use sequential_storage::map::{Key, MapConfig, MapConfigError, MapStorage, PostcardValue, Value};
use sequential_storage::queue::{QueueConfig, QueueConfigError, QueueStorage};
use std::fmt::Debug;

/// round trip, exact sizes, too-small buffers, nothing written past the reported length
fn key<K: Key>(k: &K, rng: &mut Rng) -> Result<Vec<u8>, String> {
    let mut b = vec![0xC3; 200];
    let n = k.serialize_into(&mut b).map_err(|e| format!("{k:?}: {e:?}"))?;
    if n > b.len() { return Err(format!("{k:?}: reports {n} bytes")); }
    if b[n..].iter().any(|x| *x != 0xC3) { return Err(format!("{k:?}: wrote past the reported {n} bytes")); }
    let enc = b[..n].to_vec();
    for tail in [0, 1, 7, 64] {
        let mut x = enc.clone(); x.extend((0..tail).map(|_| rng.next() as u8));
        match K::deserialize_from(&x) { Ok((v, m)) if v == *k && m == n => {} o => return Err(format!("{k:?}: {} decodes to {o:?} ({n} bytes written)", hex(&x))) }
        match K::get_len(&x) { Ok(m) if m == n => {} o => return Err(format!("{k:?}: get_len gives {o:?}, {n} bytes written")) }
    }
    for s in 0..n {
        let mut b = vec![0xC3; s];
        if let Ok(m) = k.serialize_into(&mut b) { return Err(format!("{k:?}: needs {n} bytes but serializes into {s} (reporting {m})")); }
        if let Ok(v) = K::deserialize_from(&enc[..s]) { return Err(format!("{k:?}: truncated encoding {} decodes to {v:?}", hex(&enc[..s]))); }
        let _ = K::get_len(&enc[..s]);
    }
    let mut b = vec![0xC3; n];
    if k.serialize_into(&mut b) != Ok(n) || b != enc { return Err(format!("{k:?}: does not serialize into exactly {n} bytes")); }
    Ok(enc)
}
fn keys<K: Key>(ks: &[K], rng: &mut Rng) -> Result<u64, String> {
    let mut encs: Vec<(usize, Vec<u8>)> = vec![];
    for (i, k) in ks.iter().enumerate() { encs.push((i, guarded(|| key(k, rng)).map_err(|p| format!("{k:?}: panic {p}"))??)); }
    for (i, a) in &encs { for (j, b) in &encs { if ks[*i] != ks[*j] && b.starts_with(a) { return Err(format!("encoding of {:?} is a prefix of the encoding of {:?}", ks[*i], ks[*j])); } } }
    Ok(ks.len() as u64)
}
/// `exact`: the decoder reports its own size even when more bytes follow
fn val<V: for<'a> Value<'a> + PartialEq + Debug>(v: &V, exact: bool) -> Result<(), String> {
    let mut b = vec![0xC3; 300];
    let n = v.serialize_into(&mut b).map_err(|e| format!("{v:?}: {e:?}"))?;
    if n > b.len() || b[n..].iter().any(|x| *x != 0xC3) { return Err(format!("{v:?}: wrote past the reported {n} bytes")); }
    let enc = b[..n].to_vec();
    match V::deserialize_from(&enc) { Ok((x, m)) if x == *v && m == n => {} o => return Err(format!("{v:?}: {} decodes to {o:?}", hex(&enc))) }
    if exact { let mut x = enc.clone(); x.extend([0x5A; 5]); match V::deserialize_from(&x) { Ok((y, m)) if y == *v && m == n => {} o => return Err(format!("{v:?}: followed by other bytes decodes to {o:?}, {n} bytes written")) } }
    for s in 0..n {
        let mut b = vec![0xC3; s];
        if let Ok(m) = v.serialize_into(&mut b) { return Err(format!("{v:?}: needs {n} bytes but serializes into {s} (reporting {m})")); }
        let r = V::deserialize_from(&enc[..s]); if exact && r.is_ok() { return Err(format!("{v:?}: truncated encoding {} decodes to {r:?}", hex(&enc[..s]))); }
    }
    let mut b = vec![0xC3; n];
    if v.serialize_into(&mut b) != Ok(n) || b != enc { return Err(format!("{v:?}: does not serialize into exactly {n} bytes")); }
    Ok(())
}
fn vals<V: for<'a> Value<'a> + PartialEq + Debug>(vs: &[V], exact: bool) -> Result<u64, String> { for v in vs { guarded(|| val(v, exact)).map_err(|p| format!("{v:?}: panic {p}"))??; } Ok(vs.len() as u64) }
/// a long key: round trip, length, followed by other bytes, some truncations and small buffers
fn long_key<K: Key>(k: &K, rng: &mut Rng) -> Result<u64, String> {
    guarded(|| {
        let mut b = vec![0xC3; 70100];
        let n = k.serialize_into(&mut b).map_err(|e| format!("{e:?}"))?;
        if n > b.len() || b[n..].iter().any(|x| *x != 0xC3) { return Err(format!("wrote past the reported {n} bytes")); }
        let enc = b[..n].to_vec();
        for tail in [0, 1, 300] {
            let mut x = enc.clone(); x.extend((0..tail).map(|_| rng.next() as u8));
            match K::deserialize_from(&x) { Ok((v, m)) if v == *k && m == n => {} Ok((v, m)) => return Err(format!("{n} bytes decode to another key ({} of {m} bytes)", v == *k)), Err(e) => return Err(format!("{n} bytes do not decode: {e:?}")) }
            match K::get_len(&x) { Ok(m) if m == n => {} o => return Err(format!("get_len gives {o:?}, {n} bytes written")) }
        }
        for s in [n - 1, rng.below(n), n / 2, n & 0xff, n & 0x1ff, n & 0x3ff, n & 0xfff] {
            if s >= n { continue; }
            if let Ok(m) = k.serialize_into(&mut vec![0; s]) { return Err(format!("needs {n} bytes but serializes into {s} (reporting {m})")); }
            if K::deserialize_from(&enc[..s]).is_ok() { return Err(format!("{s} of {n} bytes decode to a key")); }
            let _ = K::get_len(&enc[..s]);
        }
        if k.serialize_into(&mut b[..n]) != Ok(n) { return Err(format!("does not serialize into exactly {n} bytes")); }
        Ok(1)
    }).map_err(|p| format!("panic {p}"))?
}
fn long_val<V: for<'a> Value<'a> + PartialEq>(v: &V) -> Result<u64, String> {
    guarded(|| {
        let mut b = vec![0xC3; 70100];
        let n = v.serialize_into(&mut b).map_err(|e| format!("{e:?}"))?;
        if n > b.len() || b[n..].iter().any(|x| *x != 0xC3) { return Err(format!("wrote past the reported {n} bytes")); }
        match V::deserialize_from(&b[..n]) { Ok((x, m)) if x == *v && m == n => {} Ok((x, m)) => return Err(format!("{n} bytes decode to another value ({}, {m} bytes)", x == *v)), Err(e) => return Err(format!("{n} bytes do not decode: {e:?}")) }
        if v.serialize_into(&mut b[..n - 1]).is_ok() { return Err(format!("serializes into too few bytes, needs {n}")); }
        Ok(1)
    }).map_err(|p| format!("panic {p}"))?
}
#[derive(Debug, PartialEq, serde::Serialize, serde::Deserialize, Clone)]
struct Foo { a: u32, b: Option<(u8, i64)>, c: (u128, [i16; 3], bool) }
impl PostcardValue<'_> for Foo {}

pub fn codec_case(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    tr.p(format!("values generated from {:016x}", rng.0));
    let mut n = 0;
    let mut go = |r: Result<u64, String>, what: &str| -> Result<(), Fail> { tr.p(format!("{what}: {}", r.as_ref().map(|n| format!("{n} values")).unwrap_or_else(|e| e.clone()))); match r { Ok(k) => { n += k; Ok(()) } Err(m) => fail(&["C17"], format!("{what}: {m}")) } };
    macro_rules! num { ($($t:ty),*) => { $( let ks: Vec<$t> = (0..24).map(|i| match i { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => 0 as $t, 3 => 1 as $t, _ => (((rng.next() as u128) << 64 | rng.next() as u128) >> (8 * rng.below(16))) as $t }).collect(); go(keys(&ks, rng), concat!("key ", stringify!($t)))?; go(vals(&ks, true), concat!("value ", stringify!($t)))?; let os: Vec<Option<$t>> = ks.iter().map(|k| Some(*k)).chain([None]).collect(); go(vals(&os, true), concat!("value Option<", stringify!($t), ">"))?; )* } }
    num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    go(vals(&[0f32, -0.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, rng.next() as f32], true), "value f32")?;
    go(vals(&[0f64, -0.5, f64::MAX, f64::EPSILON, f64::NEG_INFINITY, rng.next() as f64], true), "value f64")?;
    go(vals(&[true, false], true), "value bool")?;
    go(vals(&[Some(Some(true)), Some(Some(false)), Some(None), None], true), "value Option<Option<bool>>")?;
    go(keys(&[()], rng), "key ()")?;
    macro_rules! arr { ($($n:literal),*) => { $( let ks: Vec<[u8; $n]> = (0..6).map(|_| rng.bytes($n).try_into().unwrap()).collect(); go(keys(&ks, rng), concat!("key [u8; ", stringify!($n), "]"))?; )* } }
    arr!(0, 1, 2, 3, 5, 8, 33);
    let bs: Vec<Vec<u8>> = (0..14).map(|i| { let n = match i { 0 => 0, 1 => 1, 2 => 40, 3 => 39, _ => rng.below(41) }; let mut b = rng.bytes(n); if rng.chance(30) && n >= 2 { b[0] = rng.below(3) as u8; b[1] = 0; } b }).collect();
    let ss: Vec<String> = (0..14).map(|i| { let n = match i { 0 => 0, 1 => 1, 2 => 40, _ => rng.below(41) }; let mut s = String::new(); while s.len() < n { let c = match rng.below(4) { 0 => 'é', 1 => '猫', 2 => '\0', _ => (b'a' + rng.below(26) as u8) as char }; if s.len() + c.len_utf8() > 40 { break; } s.push(c); } s }).collect();
    go(keys(&bs, rng), "key Vec<u8>")?;
    go(keys(&ss, rng), "key String")?;
    go(vals(&bs, false), "value Vec<u8>")?;
    go(vals(&ss, false), "value String")?;
    let av: Vec<arrayvec::ArrayVec<u8, 40>> = bs.iter().map(|b| b.iter().copied().collect()).collect();
    let as_: Vec<arrayvec::ArrayString<40>> = ss.iter().map(|s| arrayvec::ArrayString::from(s).unwrap()).collect();
    go(keys(&av, rng), "key ArrayVec")?;
    go(keys(&as_, rng), "key ArrayString")?;
    let h8: Vec<heapless::Vec<u8, 40>> = bs.iter().map(|b| heapless::Vec::from_slice(b).unwrap()).collect();
    let s8: Vec<heapless::String<40>> = ss.iter().map(|s| heapless::String::try_from(s.as_str()).unwrap()).collect();
    go(keys(&h8, rng), "key heapless::Vec")?; go(vals(&h8, false), "value heapless::Vec")?;
    go(keys(&s8, rng), "key heapless::String")?; go(vals(&s8, false), "value heapless::String")?;
    let h9: Vec<heapless_09::Vec<u8, 40>> = bs.iter().map(|b| heapless_09::Vec::from_slice(b).unwrap()).collect();
    let s9: Vec<heapless_09::String<40>> = ss.iter().map(|s| heapless_09::String::try_from(s.as_str()).unwrap()).collect();
    go(keys(&h9, rng), "key heapless_09::Vec")?; go(vals(&h9, false), "value heapless_09::Vec")?;
    go(keys(&s9, rng), "key heapless_09::String")?; go(vals(&s9, false), "value heapless_09::String")?;
    let foos: Vec<Foo> = (0..10).map(|_| Foo { a: rng.next() as u32 >> rng.below(32), b: if rng.chance(50) { Some((rng.next() as u8, rng.next() as i64)) } else { None }, c: (rng.next() as u128, [rng.next() as i16, 0, -1], rng.chance(50)) }).collect();
    go(vals(&foos, false), "value via postcard")?;
    for b in &bs {
        let s: &[u8] = b; let mut buf = vec![0xC3; 60];
        let k = Value::serialize_into(&s, &mut buf);
        if k != Ok(b.len()) || &buf[..b.len()] != s || buf[b.len()..].iter().any(|x| *x != 0xC3) { return fail(&["C17"], format!("&[u8] value {}: {k:?}", hex(b))); }
        if <&[u8]>::deserialize_from(&buf[..b.len()]) != Ok((s, b.len())) { return fail(&["C17"], "value &[u8] does not round-trip".to_string()); }
        for z in 0..b.len() { if Value::serialize_into(&s, &mut vec![0; z]).is_ok() { return fail(&["C17"], format!("&[u8] of {} bytes fits in {z}", b.len())); } }
    }
    if rng.chance(15) {
        let n = match rng.below(6) { 0 => 255 + rng.below(3), 1 => 510 + rng.below(6), 2 => 256 << rng.below(8), 3 => 65535, 4 => 65279 + rng.below(4), _ => 250 + rng.below(65280) };
        let b = rng.bytes(n); let s: String = (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
        let mut go = |r: Result<u64, String>, what: &str| go(r, &format!("{what} of {n} bytes"));
        go(long_key(&b, rng), "key Vec<u8>")?; go(long_val(&b), "value Vec<u8>")?;
        go(long_key(&s, rng), "key String")?; go(long_val(&s), "value String")?;
        let x: arrayvec::ArrayVec<u8, 66000> = b.iter().copied().collect(); go(long_key(&x, rng), "key ArrayVec")?;
        let x = arrayvec::ArrayString::<66000>::from(&s).unwrap(); go(long_key(&x, rng), "key ArrayString")?;
        let x = heapless::Vec::<u8, 66000>::from_slice(&b).unwrap(); go(long_key(&x, rng), "key heapless::Vec")?; go(long_val(&x), "value heapless::Vec")?;
        let x = heapless::String::<66000>::try_from(s.as_str()).unwrap(); go(long_key(&x, rng), "key heapless::String")?; go(long_val(&x), "value heapless::String")?;
        let x = heapless_09::Vec::<u8, 66000>::from_slice(&b).unwrap(); go(long_key(&x, rng), "key heapless_09::Vec")?; go(long_val(&x), "value heapless_09::Vec")?;
        let x = heapless_09::String::<66000>::try_from(s.as_str()).unwrap(); go(long_key(&x, rng), "key heapless_09::String")?; go(long_val(&x), "value heapless_09::String")?;
    }
    // over-long keys and values are refused, not truncated
    for n in [65536usize, 70000, 65535] {
        let v = vec![1u8; n]; let mut buf = vec![0; n + 10];
        let r = guarded(|| Key::serialize_into(&v, &mut buf)).or_else(|p| fail(&["C17"], format!("panic: {p}")))?;
        let s = String::from_utf8(vec![b'x'; n]).unwrap();
        let r2 = guarded(|| Key::serialize_into(&s, &mut buf)).or_else(|p| fail(&["C17"], format!("panic: {p}")))?;
        let want = n <= 65535;
        if r.is_ok() != want || r2.is_ok() != want { return fail(&["C17"], format!("a key of {n} bytes gives {r:?} / {r2:?}")); }
        if want { match (<Vec<u8> as Key>::deserialize_from(&buf[..n + 2]), <String as Key>::deserialize_from(&buf[..n + 2])) { (Ok((a, m)), Ok((b, m2))) if a.len() == n && b == s && m == n + 2 && m2 == m => {} _ => return fail(&["C17"], "a key of 65535 bytes does not round-trip".to_string()) } }
    }
    // arbitrary bytes never panic a decoder, and never decode beyond the buffer
    for _ in 0..40 {
        let k = rng.below(60); let b = { let mut b = rng.bytes(k); if k > 1 && rng.chance(70) { b[1] = 0; b[0] = rng.below(60) as u8; } b };
        macro_rules! dec { ($($t:ty),*) => { $( match guarded(|| <$t as Key>::deserialize_from(&b).map(|x| x.1)) { Err(p) => return fail(&["C17", "C19"], format!("decoding {} as {} panics: {p}", hex(&b), stringify!($t))), Ok(Ok(m)) if m > b.len() => return fail(&["C17"], format!("decoding {} as {} reports {m} bytes", hex(&b), stringify!($t))), _ => {} } if let Err(p) = guarded(|| <$t as Key>::get_len(&b)) { return fail(&["C17", "C19"], format!("get_len of {} as {} panics: {p}", hex(&b), stringify!($t))); } )* } }
        dec!(u8, u16, u32, u64, u128, i128, (), [u8; 5], Vec<u8>, String, arrayvec::ArrayVec<u8, 10>, arrayvec::ArrayString<10>, heapless::Vec<u8, 10>, heapless::String<10>, heapless_09::Vec<u8, 10>, heapless_09::String<10>);
        macro_rules! vdec { ($($t:ty),*) => { $( match guarded(|| <$t as Value>::deserialize_from(&b).map(|x| x.1)) { Err(p) => return fail(&["C17", "C19"], format!("decoding {} as value {} panics: {p}", hex(&b), stringify!($t))), Ok(Ok(m)) if m > b.len() => return fail(&["C17"], format!("decoding {} as {} reports {m} bytes", hex(&b), stringify!($t))), _ => {} } )* } }
        vdec!(u8, u16, u32, u64, u128, f32, f64, bool, Option<u32>, Option<Option<u8>>, Vec<u8>, String, heapless::Vec<u8, 10>, heapless::String<10>, heapless_09::Vec<u8, 10>, heapless_09::String<10>, Foo, &[u8]);
    }
    st.ops += n; st.checks += n; st.cases += 1;
    Ok(())
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum CErr { Start, End, Small, Pages, Word }
fn spec(range: &std::ops::Range<u32>, r: u64, w: u64, e: u64, min_pages: u64) -> Vec<CErr> {
    let word = r.max(w);
    let up = |x: u64| x.div_ceil(word) * word;
    let mut v = vec![];
    if range.start as u64 % e != 0 { v.push(CErr::Start); }
    if range.end as u64 % e != 0 { v.push(CErr::End); }
    if (range.end as u64) < range.start as u64 + e * min_pages { v.push(CErr::Small); }
    if e < word * 3 + up(8) { v.push(CErr::Pages); }
    if word > 32 { v.push(CErr::Word); }
    v
}
fn cfg_geom<const R: usize, const W: usize, const E: usize>(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    for _ in 0..60 {
        let e = E as u64;
        let mut pt = |rng: &mut Rng| -> u32 { let base = match rng.below(6) { 0 => 0, 1 => u32::MAX as u64 / e * e, 2 => u32::MAX as u64, 3 => rng.next() & 0xFFFF_FFFF, _ => rng.below(6) as u64 * e }; let d = rng.below(7) as i64 - 3; let x = base as i64 + match rng.below(4) { 0 => d, 1 => d * e as i64, _ => 0 }; x.clamp(0, u32::MAX as i64) as u32 };
        let a = pt(rng); let b = match rng.below(3) { 0 => pt(rng), _ => (a as u64 + rng.below(4) as u64 * e).min(u32::MAX as u64) as u32 };
        let range = a..b;
        st.ops += 1; st.checks += 1;
        let m = match guarded(|| MapConfig::<Flash<R, W, E>>::try_new(range.clone()).map(|_| ())) { Ok(r) => r, Err(p) => return fail(&["C18"], format!("MapConfig::try_new({range:?}) read {R} write {W} erase {E} panics: {p}")) };
        let q = match guarded(|| QueueConfig::<Flash<R, W, E>>::try_new(range.clone()).map(|_| ())) { Ok(r) => r, Err(p) => return fail(&["C18"], format!("QueueConfig::try_new({range:?}) read {R} write {W} erase {E} panics: {p}")) };
        let m = m.map_err(|e| match e { MapConfigError::StartRangeNotAtPageBoundary => CErr::Start, MapConfigError::EndRangeNotAtPageBoundary => CErr::End, MapConfigError::RangeTooSmall => CErr::Small, MapConfigError::PagesTooSmall => CErr::Pages, MapConfigError::WordSizeTooLarge => CErr::Word });
        let q = q.map_err(|e| match e { QueueConfigError::StartRangeNotAtPageBoundary => CErr::Start, QueueConfigError::EndRangeNotAtPageBoundary => CErr::End, QueueConfigError::RangeTooSmall => CErr::Small, QueueConfigError::PagesTooSmall => CErr::Pages, QueueConfigError::WordSizeTooLarge => CErr::Word });
        for (what, got, min) in [("MapConfig", m, 2), ("QueueConfig", q, 1)] {
            let s = spec(&range, R as u64, W as u64, E as u64, min);
            let ok = match &got { Ok(()) => s.is_empty(), Err(e) => s.contains(e) };
            if !ok { tr.p(format!("{what} {range:?}")); return fail(&["C18"], format!("{what}::try_new({range:?}) with read {R} write {W} erase {E} gives {got:?}, violated conditions are {s:?}")); }
        }
    }
    Ok(())
}
/// item size limits on big pages (the 16-bit length field)
fn big_items<const R: usize, const W: usize, const E: usize>(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let word = R.max(W);
    let cap = E - 2 * word - fmt::hdr(word);
    for n in [0usize, 1, cap.saturating_sub(1), cap, cap + 1, 65534, 65535, 65536, 70000, E, rng.below(E + 10)] {
        let range = 0u32..2 * E as u32;
        let mut buf = vec![0u8; 2 * E + 80000];
        let data = vec![0x42u8; n];
        tr.p(format!("item of {n} bytes, page {E}"));
        let fits = n <= cap && n <= 65535;
        let f = Flash::<R, W, E>::from_state(FlashState::new(R, W, E, 3, range.clone()));
        let mut q = QueueStorage::new(f.clone(), QueueConfig::new(range.clone()), Cache::new_uncached());
        let r = guarded(|| run(q.push(&data, false)).unwrap()).or_else(|p| fail(&["C18", "C19"], format!("queue push of {n} bytes panics: {p}")))?;
        if r.is_ok() != fits || (!fits && !matches!(r, Err(sequential_storage::Error::ItemTooBig))) { return fail(&["C18"], format!("queue push of {n} bytes in pages of {E} (word {word}) gives {r:?}")); }
        if !fits && f.0.borrow().mem.iter().any(|b| *b != 0xFF) { return fail(&["C18"], "a too big item touched the flash".to_string()); }
        if fits { let g = run(async { q.pop(&mut buf).await.map(|o| o.map(|v| v.to_vec())) }).unwrap(); if !matches!(&g, Ok(Some(v)) if *v == data) { return fail(&["C18", "C05"], format!("queue item of {n} bytes does not come back: {:?}", g.map(|o| o.map(|v| v.len())))); } }
        let fm = run(q.find_max_fit()).unwrap();
        let _ = fm;
        let f = Flash::<R, W, E>::from_state(FlashState::new(R, W, E, 3, range.clone()));
        let mut m = MapStorage::<u8, _, _>::new(f.clone(), MapConfig::new(range.clone()), Cache::new_uncached());
        let fits = n + 1 <= cap && n + 1 <= 65535;
        let r = guarded(|| run(m.store_item(&mut buf, &1, &data.as_slice())).unwrap()).or_else(|p| fail(&["C18", "C19"], format!("map store of {n} bytes panics: {p}")))?;
        if r.is_ok() != fits || (!fits && !matches!(r, Err(sequential_storage::Error::ItemTooBig))) { return fail(&["C18"], format!("map store of {n} bytes (+1 key byte) in pages of {E} (word {word}) gives {r:?}")); }
        if !fits { let mm = f.0.borrow(); if mm.mem.chunks(E).any(|p| p[word..E - word].iter().any(|b| *b != 0xFF)) { return fail(&["C18"], "a too big item touched the stored data".to_string()); } }
        if fits { let g = run(async { m.fetch_item::<&[u8]>(&mut buf, &1).await.map(|o| o.map(|v| v.to_vec())) }).unwrap(); if !matches!(&g, Ok(Some(v)) if *v == data) { return fail(&["C18", "C01"], format!("map item of {n} bytes does not come back")); } }
        if let Some(b) = f.0.borrow().breaches.first() { return fail(&[b.0], b.1.clone()); }
        st.ops += 2; st.checks += 2;
    }
    Ok(())
}
/// C08 on pages larger than an item can ever be
fn big_fit<const R: usize, const W: usize, const E: usize>(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let range = 0u32..2 * E as u32;
    let f = Flash::<R, W, E>::from_state(FlashState::new(R, W, E, 3, range.clone()));
    let mut q = QueueStorage::new(f.clone(), QueueConfig::new(range.clone()), Cache::new_uncached());
    for _ in 0..6 {
        let n = match rng.below(3) { 0 => rng.below(200), 1 => 65535, _ => rng.below(65536) };
        let fit = run(q.find_max_fit()).unwrap();
        tr.p(format!("page {E}: find_max_fit {fit:?}, then push {n}"));
        st.ops += 1; st.checks += 1;
        let probe = |k: usize| { let s = f.0.borrow().clone(); let f2 = Flash::<R, W, E>::from_state(s); let mut q = QueueStorage::new(f2, QueueConfig::new(range.clone()), Cache::new_uncached()); guarded(|| run(q.push(&vec![1; k], false)).unwrap()) };
        match fit { Ok(Some(k)) => { let (a, b) = (probe(k as usize), probe(k as usize + 1)); if !matches!(a, Ok(Ok(()))) || matches!(b, Ok(Ok(()))) { return fail(&["C08"], format!("pages of {E}: find_max_fit gives {k}, but a push of that size gives {a:?} and of one more {b:?}")); } }
            Ok(None) => { if matches!(probe(0), Ok(Ok(()))) { return fail(&["C08"], "find_max_fit gives None but a push succeeds".to_string()); } } Err(e) => return fail(&["C08"], format!("find_max_fit gives {e:?}")) }
        let _ = run(q.push(&vec![2; n], false));
    }
    Ok(())
}
pub fn cfg_case(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    macro_rules! g { ($(($r:literal, $w:literal, $e:literal)),*) => { $( cfg_geom::<$r, $w, $e>(rng, tr, st)?; )* } }
    g!((1, 1, 32), (1, 4, 64), (4, 4, 16), (4, 4, 20), (4, 4, 24), (8, 8, 32), (8, 8, 24), (1, 32, 128), (1, 32, 64), (32, 32, 4096), (1, 64, 512), (64, 1, 512), (4, 1, 65536), (1, 1, 11), (1, 1, 10), (2, 1, 14), (1, 3, 18), (1, 3, 17), (1, 1, 2147483648), (4, 4, 1073741824), (16, 16, 63), (16, 16, 64));
    big_items::<1, 4, 64>(rng, tr, st)?;
    big_items::<1, 1, 32>(rng, tr, st)?;
    big_items::<4, 4, 4096>(rng, tr, st)?;
    big_items::<1, 8, 131072>(rng, tr, st)?;
    big_items::<1, 1, 65551>(rng, tr, st)?;
    st.cases += 1;
    Ok(())
}
pub fn fit_case(rng: &mut Rng, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> { big_fit::<1, 4, 131072>(rng, tr, st)?; big_fit::<1, 1, 65600>(rng, tr, st)?; big_fit::<4, 4, 4096>(rng, tr, st)?; st.cases += 1; Ok(()) }
/// C12: bytes laid out by the released version
pub fn golden_case(tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    // (word size, data, encoding) as found in flash written by the released 8.0.1
    for (word, data, enc) in crate::golden::ITEMS {
        tr.p(format!("item {} word {word}", hex(data)));
        if fmt::encode_item(data, *word) != *enc { return fail(&["C12"], format!("oracle disagrees with the golden bytes of {}", hex(data))); }
        let got = match word { 1 => push_bytes::<1, 1, 64>(data), 4 => push_bytes::<1, 4, 64>(data), 8 => push_bytes::<8, 8, 128>(data), 16 => push_bytes::<1, 16, 160>(data), _ => push_bytes::<1, 32, 256>(data) }.or_else(|m| fail(&["C12"], m))?;
        let (page, back) = got;
        if page[..*word].iter().any(|b| *b != 0) { return fail(&["C12"], format!("the first page's start marker is {}", hex(&page[..*word]))); }
        if page[*word..*word + enc.len()] != enc[..] { return fail(&["C12"], format!("item {} with words of {word}: flash holds {}, the released format is {}", hex(data), hex(&page[*word..*word + enc.len()]), hex(enc))); }
        if page[*word + enc.len()..].iter().any(|b| *b != 0xFF) { return fail(&["C12"], "bytes behind the item are not erased".to_string()); }
        if back != *data { return fail(&["C12"], format!("flash written by the released version: pop gives {}, stored {}", hex(&back), hex(data))); }
        st.ops += 1; st.checks += 1;
    }
    // lengths of which the raw length checksum would be 0xFFFF
    for n in [6870usize, 11915, 17969, 29292, 38725, 41752, 52130, 65535] {
        let d: Vec<u8> = (0..n).map(|i| (i * 31 + n) as u8).collect();
        let (page, back) = push_bytes::<1, 4, 131072>(&d).or_else(|m| fail(&["C12"], m))?;
        if page[8..12] != [n as u8, (n >> 8) as u8, 0xFE, 0xFF] || page[4..4 + 8 + fmt::up(n, 4)] != fmt::encode_item(&d, 4)[..] || back != d { return fail(&["C12"], format!("item of {n} bytes: header is {}", hex(&page[4..12]))); }
        st.ops += 1; st.checks += 1;
    }
    // checksum corner cases: data whose raw crc needs avoiding
    for i in 0..20000u32 {
        let d = i.to_le_bytes();
        let e = fmt::encode_item(&d, 1);
        if i % 400 == 0 || matches!(crc_raw(&d) & 0xFF, 0 | 0xFF) {
            let (page, back) = push_bytes::<1, 1, 64>(&d).or_else(|m| fail(&["C12"], m))?;
            if page[1..1 + e.len()] != e[..] || back != d { return fail(&["C12"], format!("item {}: flash holds {}, the format is {}", hex(&d), hex(&page[1..1 + e.len()]), hex(&e))); }
            if matches!(page[1], 0 | 0xFF) { return fail(&["C12"], format!("item {}: checksum starts with {:02x}", hex(&d), page[1])); }
            st.ops += 1; st.checks += 1;
        }
    }
    st.cases += 1;
    Ok(())
}
fn crc_raw(data: &[u8]) -> u32 { let mut crc = 0xEEEE_EEEEu32; for b in data { crc ^= *b as u32; for _ in 0..8 { crc = if crc & 1 == 1 { (crc >> 1) ^ 0x82f6_3b78 } else { crc >> 1 }; } } !crc }
/// push data into an empty queue; the page afterwards; and what a queue finds in a hand-made page
fn push_bytes<const R: usize, const W: usize, const E: usize>(data: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let word = R.max(W);
    let range = 0u32..2 * E as u32;
    let f = Flash::<R, W, E>::from_state(FlashState::new(R, W, E, 3, range.clone()));
    let mut q = QueueStorage::new(f.clone(), QueueConfig::new(range.clone()), Cache::new_uncached());
    run(q.push(data, false)).unwrap().map_err(|e| format!("push: {e:?}"))?;
    let page = f.0.borrow().mem[..E].to_vec();
    let mut s = FlashState::new(R, W, E, 3, range.clone());
    s.mem[..word].fill(0);
    let e = fmt::encode_item(data, word);
    s.mem[word..word + e.len()].copy_from_slice(&e);
    let img = s.mem.clone(); let s = s.with_image(&img);
    let mut q = QueueStorage::new(Flash::<R, W, E>::from_state(s), QueueConfig::new(range), Cache::new_uncached());
    let mut buf = vec![0; 70000];
    let back = run(async { q.pop(&mut buf).await.map(|o| o.map(|v| v.to_vec())) }).unwrap().map_err(|e| format!("pop: {e:?}"))?.ok_or("released-format item not found")?;
    Ok((page, back))
}
