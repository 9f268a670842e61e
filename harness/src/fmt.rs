//! Independent reading of the documented on-flash format (src/item.rs module docs), used as oracle.
use std::collections::BTreeMap;

pub fn up(x: usize, w: usize) -> usize { x.div_ceil(w) * w }
pub fn hdr(word: usize) -> usize { up(8, word) }

pub fn crc16(data: &[u8]) -> u16 {
    let mut crc = 0xffffu16;
    for b in data { crc ^= *b as u16; for _ in 0..8 { crc = if crc & 1 == 1 { (crc >> 1) ^ 0x1a2e } else { crc >> 1 }; } }
    match crc ^ 0xffff { 0xFFFF => 0xFFFE, c => c }
}
pub fn crc32(data: &[u8]) -> u32 {
    let mut crc = 0xEEEE_EEEEu32;
    for b in data { crc ^= *b as u32; for _ in 0..8 { crc = if crc & 1 == 1 { (crc >> 1) ^ 0x82f6_3b78 } else { crc >> 1 }; } }
    match !crc { 0 => 1, c if matches!(c & 0xFF, 0 | 0xFF) => c ^ 1, c => c }
}
pub fn encode_item(data: &[u8], word: usize) -> Vec<u8> {
    let mut v = vec![];
    v.extend(crc32(data).to_le_bytes());
    v.extend((data.len() as u16).to_le_bytes());
    v.extend(crc16(&(data.len() as u16).to_le_bytes()).to_le_bytes());
    v.resize(hdr(word), 0xFF);
    v.extend(data);
    v.resize(up(v.len(), word), 0);
    v
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PState { Open, Partial, Closed, Corrupt }
pub fn page_state(page: &[u8], r: usize) -> PState {
    let z = |s: &[u8]| s.iter().map(|b| b.count_zeros()).sum::<u32>() >= 4;
    match (z(&page[..r]), z(&page[page.len() - r..])) { (true, true) => PState::Closed, (true, false) => PState::Partial, (false, true) => PState::Corrupt, (false, false) => PState::Open }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kind { Present(Vec<u8>), Erased, Corrupt }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Found { pub addr: usize, pub len: usize, pub kind: Kind }
/// items of a page (addresses relative to the page), and the first free address
pub fn scan(page: &[u8], word: usize) -> (Vec<Found>, usize) {
    let (mut a, end) = (word, page.len() - word);
    let h = hdr(word);
    let mut v = vec![];
    // bytes of what may be the torn header of an interrupted write are never free
    let mut torn = a;
    loop {
        if a + h > end { return (v, a.max(torn)); }
        let b = &page[a..a + h];
        if b.iter().all(|x| *x == 0xFF) { return (v, a.max(torn)); }
        let len = u16::from_le_bytes([b[4], b[5]]) as usize;
        let next = a + h + up(len, word);
        if crc16(&b[4..6]) != u16::from_le_bytes([b[6], b[7]]) || next > end { torn = a + h; a += word; continue; }
        let c = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let data = &page[a + h..a + h + len];
        let kind = if c == 0 { Kind::Erased } else if c == crc32(data) { Kind::Present(data.to_vec()) } else { Kind::Corrupt };
        v.push(Found { addr: a, len, kind });
        a = next;
    }
}
/// (page, state) from oldest to youngest non-open page, assuming the documented ring layout
pub fn page_order(mem: &[u8], e: usize, r: usize) -> Vec<usize> {
    let n = mem.len() / e;
    let st: Vec<_> = (0..n).map(|p| page_state(&mem[p * e..(p + 1) * e], r)).collect();
    let last = if let Some(p) = st.iter().position(|s| *s == PState::Partial) { p } else if let Some(p) = (0..n).find(|p| st[*p] == PState::Closed && st[(*p + 1) % n] != PState::Closed) { p } else { n - 1 };
    (1..=n).map(|i| (last + i) % n).filter(|p| matches!(st[*p], PState::Closed | PState::Partial)).collect()
}
/// (page, address in range, data) of present items, oldest first
pub fn items(mem: &[u8], e: usize, r: usize, word: usize) -> Vec<(usize, usize, Vec<u8>)> {
    let mut out = vec![];
    for p in page_order(mem, e, r) {
        for f in scan(&mem[p * e..(p + 1) * e], word).0 { if let Kind::Present(d) = f.kind { out.push((p, p * e + f.addr, d)); } }
    }
    out
}
pub fn map_view(mem: &[u8], e: usize, r: usize, word: usize) -> BTreeMap<u8, Vec<u8>> {
    items(mem, e, r, word).into_iter().filter(|i| !i.2.is_empty()).map(|i| (i.2[0], i.2[1..].to_vec())).collect()
}
pub fn space_left(mem: &[u8], e: usize, r: usize, word: usize) -> u32 {
    let cap = e - 2 * word;
    (0..mem.len() / e).map(|p| {
        let pg = &mem[p * e..(p + 1) * e];
        let (it, free) = scan(pg, word);
        let none_left = it.iter().all(|f| !matches!(f.kind, Kind::Present(_)));
        match page_state(pg, r) {
            PState::Open => cap,
            PState::Closed | PState::Corrupt => if none_left { cap } else { 0 },
            PState::Partial => { let rest = e - word - free; if rest < hdr(word) && none_left { cap } else { rest } }
        }
    }).sum::<usize>() as u32
}
