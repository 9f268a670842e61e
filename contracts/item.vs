# Items and headers (src/item.rs)
@raw
// ------------------------------------------------------------ the documented format
pub struct GH { pub len: u16, pub crc: u32 }
impl ItemHeader {
    pub open spec fn gh(self) -> GH { GH { len: self.length, crc: match self.crc { None => 0u32, Some(c) => c@ } } }
}
pub open spec fn hl<S: NorFlash>() -> int { up(S::WORD_SIZE as int, 8) }
pub open spec fn nxt<S: NorFlash>(a: int, len: int) -> int { a + hl::<S>() + up(S::WORD_SIZE as int, len) }
pub open spec fn word_ok<S: NorFlash>() -> bool { S::WORD_SIZE <= 32 }

pub proof fn geometry<S: NorFlash>()
    ensures
        S::WORD_SIZE >= 1, S::READ_SIZE <= S::WORD_SIZE, S::WRITE_SIZE <= S::WORD_SIZE, S::READ_SIZE >= 1, S::WRITE_SIZE >= 1,
        al(S::WORD_SIZE as int, hl::<S>()), hl::<S>() >= 8, hl::<S>() >= S::WORD_SIZE,
        hl::<S>() < 8 + S::WORD_SIZE,
        word_ok::<S>() ==> hl::<S>() <= 32,
        al(S::WORD_SIZE as int, S::ERASE_SIZE as int), al(S::WORD_SIZE as int, S::WORD_SIZE as int), al(S::WORD_SIZE as int, 0),
        al(S::READ_SIZE as int, S::READ_SIZE as int), al(S::WRITE_SIZE as int, S::WRITE_SIZE as int),
        al(S::READ_SIZE as int, S::WORD_SIZE as int), al(S::WRITE_SIZE as int, S::WORD_SIZE as int),
        al(S::READ_SIZE as int, S::ERASE_SIZE as int),
        up(S::WORD_SIZE as int, 0) == 0,
        S::ERASE_SIZE >= 1, S::ERASE_SIZE <= u32::MAX, S::WORD_SIZE <= S::ERASE_SIZE, hl::<S>() <= u32::MAX,
        S::READ_SIZE <= 0x1000_0000, S::WRITE_SIZE <= 0x1000_0000, S::WORD_SIZE <= 0x1000_0000,
{
    S::laws();
    al_le(S::WORD_SIZE as int, S::ERASE_SIZE as int);
    let w = S::WORD_SIZE as int;
    up_props(w, 8); up_props(w, 0);
    al_mul(w, 1); al_mul(S::READ_SIZE as int, 1); al_mul(S::WRITE_SIZE as int, 1);
    if w <= 32 { reveal(up); hl_small(w); }
    al_trans(S::READ_SIZE as int, w, w);
    al_trans(S::WRITE_SIZE as int, w, w);
    al_trans(S::READ_SIZE as int, w, S::ERASE_SIZE as int);
}
pub proof fn hl_small(w: int)
    requires 1 <= w <= 32
    ensures up(w, 8) <= 32
{
    reveal(up);
    if w >= 8 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(8 + w - 1, w, 1, 7);
    } else { up_props(w, 8); }
}

pub open spec fn step16(c: u16) -> u16 { if c & 1 == 1 { (c >> 1) ^ 0x1a2e } else { c >> 1 } }
pub open spec fn steps16(c: u16, n: nat) -> u16 decreases n { if n == 0 { c } else { step16(steps16(c, (n - 1) as nat)) } }
pub open spec fn crc16_raw(s: Seq<u8>) -> u16 decreases s.len() { if s.len() == 0 { 0xffffu16 } else { steps16(crc16_raw(s.drop_last()) ^ (s.last() as u16), 8) } }
/// the length checksum: CRC-16F/4.2, never 0xFFFF
pub open spec fn crc16_spec(s: Seq<u8>) -> u16 { let c = crc16_raw(s) ^ 0xffff; if c == 0xffff { 0xfffe } else { c } }

pub open spec fn step32(c: u32) -> u32 { if c & 1 > 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 } }
pub open spec fn steps32(c: u32, n: nat) -> u32 decreases n { if n == 0 { c } else { step32(steps32(c, (n - 1) as nat)) } }
pub open spec fn crc32_raw(init: u32, s: Seq<u8>) -> u32 decreases s.len() { if s.len() == 0 { init } else { steps32(crc32_raw(init, s.drop_last()) ^ (s.last() as u32), 8) } }
pub open spec fn adapt_spec(c: u32) -> u32 { if c == 0 { 1 } else if (c & 0xff) == 0 || (c & 0xff) == 0xff { c ^ 1 } else { c } }
/// the data checksum: CRC-32 (Castagnoli) with initial value 0xEEEEEEEE, adapted
pub open spec fn data_crc(s: Seq<u8>) -> u32 { adapt_spec(!crc32_raw(0xEEEE_EEEE, s)) }

pub open spec fn hdr_head(g: GH) -> Seq<u8> { le32(g.crc) + le16(g.len) + le16(crc16_spec(le16(g.len))) }
/// header bytes padded to the word size
pub open spec fn hdr_bytes<S: NorFlash>(g: GH) -> Seq<u8> { Seq::new(hl::<S>() as nat, |i: int| if i < 8 { hdr_head(g)[i] } else { 0xFFu8 }) }

pub enum Hdr { End, Bad, Item(GH) }
pub open spec fn hdr_of_bytes(b: Seq<u8>) -> GH { GH { len: un16(b.subrange(4, 6)), crc: un32(b.subrange(0, 4)) } }
/// what is at an address, for a reader that may not look beyond `end`
pub open spec fn hdr_at<S: NorFlash>(mem: Seq<u8>, a: int, end: int) -> Hdr {
    if a + hl::<S>() > end { Hdr::End } else {
        let b = mem.subrange(a, a + hl::<S>());
        if all_ff(b) { Hdr::End }
        else if crc16_spec(b.subrange(4, 6)) != un16(b.subrange(6, 8)) { Hdr::Bad }
        else {
            let g = hdr_of_bytes(b);
            if nxt::<S>(a, g.len as int) > end { Hdr::Bad } else { Hdr::Item(g) }
        }
    }
}
pub open spec fn item_data<S: NorFlash>(mem: Seq<u8>, a: int, g: GH) -> Seq<u8> { mem.subrange(a + hl::<S>(), a + hl::<S>() + g.len) }
/// the stored data matches its checksum
pub open spec fn intact<S: NorFlash>(mem: Seq<u8>, a: int, g: GH) -> bool { g.crc != 0 && data_crc(item_data::<S>(mem, a, g)) == g.crc }

pub enum Skip { All, None, Erased }
pub open spec fn skips(m: Skip, g: GH) -> bool { match m { Skip::All => true, Skip::None => false, Skip::Erased => g.crc == 0 } }
pub enum Scan { Found(int, GH), End(int) }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// walk over the headers
pub open spec fn scan<S: NorFlash>(mem: Seq<u8>, a: int, end: int, torn: int, m: Skip) -> Scan
    decreases end - a
{
    match hdr_at::<S>(mem, a, end) {
        Hdr::End => Scan::End(imax(a, torn)),
        Hdr::Bad => if S::WORD_SIZE >= 1 && a < end { scan::<S>(mem, a + S::WORD_SIZE, end, a + hl::<S>(), m) } else { Scan::End(a) },
        Hdr::Item(g) => if !skips(m, g) { Scan::Found(a, g) } else if nxt::<S>(a, g.len as int) > a && a < end { scan::<S>(mem, nxt::<S>(a, g.len as int), end, torn, m) } else { Scan::End(a) },
    }
}
pub open spec fn same_flash<S: NorFlash>(a: &S, b: &S) -> bool { a.mem() == b.mem() && a.lo() == b.lo() && a.hi() == b.hi() }
pub open spec fn same_region<S: NorFlash>(a: &S, b: &S) -> bool { a.mem().len() == b.mem().len() && a.lo() == b.lo() && a.hi() == b.hi() }
pub open spec fn flash_ok<S: NorFlash>(f: &S) -> bool { 0 <= f.lo() && f.hi() <= f.mem().len() && f.hi() <= u32::MAX - 0x2_0000 }

@fn crc16 props=C12,C13
    ensures r == crc16_spec(data@), // @C12,C13
        r != 0xffff, // @C12
@loop 0
    invariant crc == crc16_raw(data@.take(__it0.index@)),
@loop 1
    invariant crc == steps16(crc16_raw(data@.take(__it0.index@)) ^ (*byte as u16), __it1.index@ as nat),
@end

@before `for _ in`
    proof { assert(data@.take(__it0.index@ + 1).drop_last() =~= data@.take(__it0.index@)); assert(data@.take(__it0.index@ + 1).last() == *byte); }
@before `crc ^= 0xffff`
    assert(data@.take(data@.len() as int) =~= data@);
    let ghost crc0: u16 = crc;
@before `match crc`
    proof { assert((crc0 ^ 0xffff) != 0xffff || true); }
@fn crc32_with_initial props=C12,C13
    ensures r == !crc32_raw(initial, data@),
@loop 0
    invariant crc == crc32_raw(initial, data@.take(__it0.index@)),
@loop 1
    invariant crc == steps32(crc32_raw(initial, data@.take(__it0.index@)) ^ (*byte as u32), __it1.index@ as nat),
@end
@before `for _ in`
    proof { assert(data@.take(__it0.index@ + 1).drop_last() =~= data@.take(__it0.index@)); assert(data@.take(__it0.index@ + 1).last() == *byte); }
@before `! crc`
    assert(data@.take(data@.len() as int) =~= data@);
@fn crc32 props=C12,C13
    ensures r == !crc32_raw(0xEEEE_EEEE, data@),
@fn adapt_crc32 props=C12,C13
    ensures r@ == adapt_spec(crc),
        r@ != 0, (r@ & 0xff) != 0, (r@ & 0xff) != 0xff, // @C12
@start
    proof {
        assert((crc & 0xff) as u8 == 0 <==> (crc & 0xff) == 0) by (bit_vector);
        assert((crc & 0xff) as u8 == 0xff <==> (crc & 0xff) == 0xff) by (bit_vector);
        assert((crc & 0xff) == 0 ==> (crc ^ 1) & 0xff == 1) by (bit_vector);
        assert((crc & 0xff) == 0xff ==> (crc ^ 1) & 0xff == 0xfe) by (bit_vector);
        assert(1u32 & 0xff == 1) by (bit_vector);
        assert(crc == 0 ==> (crc & 0xff) == 0) by (bit_vector);
        assert((crc ^ 1) == 0 ==> crc == 1) by (bit_vector);
        assert(crc == 1 ==> (crc & 0xff) == 1) by (bit_vector);
    }
@fn adapted_crc32 props=C12,C13
    ensures r@ == data_crc(data@),
        r@ != 0, (r@ & 0xff) != 0, (r@ & 0xff) != 0xff, // @C12

# ------------------------------------------------------------ addresses
@fn ItemHeader::data_address props=C09,C19,C12
    requires address + up(S::WORD_SIZE as int, 8) <= u32::MAX, // @C19
    ensures r == address + hl::<S>(), // @C12,C08
        al(S::WORD_SIZE as int, address as int) ==> al(S::WORD_SIZE as int, r as int),
@start
    proof { geometry::<S>(); if al(S::WORD_SIZE as int, address as int) { al_add(S::WORD_SIZE as int, address as int, hl::<S>()); } }
@fn ItemHeader::next_item_address props=C09,C19,C12
    requires address + hl::<S>() + up(S::WORD_SIZE as int, self.length as int) <= u32::MAX, // @C19
    ensures r == nxt::<S>(address as int, self.length as int), // @C12
        r > address,
        al(S::WORD_SIZE as int, address as int) ==> al(S::WORD_SIZE as int, r as int),
@start
    proof { geometry::<S>(); if al(S::WORD_SIZE as int, address as int) { al_add(S::WORD_SIZE as int, address as int, hl::<S>());  al_add(S::WORD_SIZE as int, address + hl::<S>(), up(S::WORD_SIZE as int, self.length as int)); } }
@fn ItemHeader::available_data_bytes props=C08,C19
    requires hl::<S>() <= u32::MAX, // @C19
    ensures match r {
            // an item of this length and not one byte more fits
            Some(n) => forall|len: int| 0 <= len ==> ((len <= n) == #[trigger] fits::<S>(total_available as int, len)), // @C08
            None => !fits::<S>(total_available as int, 0), // @C08
        },
        match r { Some(n) => n + hl::<S>() <= total_available && al(S::WORD_SIZE as int, n as int), None => true },
@start
    proof {
        geometry::<S>();
        let w = S::WORD_SIZE as int;
        assert forall|len: int| 0 <= len implies (len <= down(w, total_available as int) - hl::<S>()) == #[trigger] fits::<S>(total_available as int, len) by {
            avail_lemma::<S>(total_available as int, len);
        }
        al_add(w, down(w, total_available as int), hl::<S>());
        avail_lemma::<S>(total_available as int, 0);
        assert(fits::<S>(total_available as int, 0) == (0 <= down(w, total_available as int) - hl::<S>()));
    }
@raw
/// an item with `len` bytes of data fits in `total` bytes (of which only whole words are usable)
pub open spec fn fits<S: NorFlash>(total: int, len: int) -> bool { nxt::<S>(0, len) <= down(S::WORD_SIZE as int, total) }
pub proof fn avail_lemma<S: NorFlash>(total: int, len: int)
    requires 0 <= total, 0 <= len
    ensures (len <= down(S::WORD_SIZE as int, total) - hl::<S>()) == fits::<S>(total, len)
{
    geometry::<S>();
    let w = S::WORD_SIZE as int;
    let d = down(w, total) - hl::<S>();
    al_add(w, down(w, total), hl::<S>());
    if len <= d { // up(len) <= d since d is aligned
        if up(w, len) > d { al_gap(w, d, up(w, len)); }
    }
}
pub open spec fn hdr_result<S: NorFlash>(h: Hdr, r: Result<Option<ItemHeader>, Error<S::Error>>) -> bool {
    match r {
        Ok(Some(x)) => h == Hdr::Item(x.gh()),
        Ok(None) => h == Hdr::End,
        Err(Error::Corrupted { .. }) => h == Hdr::Bad,
        Err(Error::Storage { .. }) => true,
        Err(_) => false,
    }
}
/// a place where a header may be read
pub open spec fn readable<S: NorFlash>(f: &S, a: int, end: int) -> bool {
    word_ok::<S>() && flash_ok(f) && al(S::WORD_SIZE as int, a) && f.lo() <= a && (a + hl::<S>() <= end ==> a + hl::<S>() <= f.hi()) && a <= u32::MAX - 0x2_0000
}
pub proof fn un16_le16(s: Seq<u8>)
    requires s.len() == 2
    ensures le16(un16(s)) == s
{
    let a = s[0]; let b = s[1];
    let x = un16(s);
    assert((x & 0xff) as u8 == a && ((x >> 8) & 0xff) as u8 == b) by (bit_vector) requires x == ((a as u16) | ((b as u16) << 8)) as u16;
    assert(le16(x) =~= s);
}

@fn ItemHeader::read_new props=C09,C19,C12,C13
    requires readable(old(flash), address as int, end_address as int), // @C09,C19
    ensures same_flash(final(flash), old(flash)),
        hdr_result::<S>(hdr_at::<S>(old(flash).mem(), address as int, end_address as int), r), // @C12,C13
@start
    proof { geometry::<S>(); }
@loop 0
    invariant same_flash(flash, old(flash)), buffer@.len() == 32, header_slice_len == hl::<S>(),
    decreases (if retry { 0int } else { 1int }),
@end
@before `if slice_take_all`
    let ghost bytes = flash.mem().subrange(address as int, address + hl::<S>());
    assert(buffer@.subrange(0, header_slice_len as int) =~= bytes);
    assert(forall|i: int| 0 <= i < bytes.len() ==> #[trigger] bytes[i] == buffer@[i]);
@before `let length_crc`
    assert(buffer@.subrange(4, 6) =~= bytes.subrange(4, 6) && buffer@.subrange(6, 8) =~= bytes.subrange(6, 8) && buffer@.subrange(0, 4) =~= bytes.subrange(0, 4));
@before `if header . next_item_address`
    proof { up_props(S::WORD_SIZE as int, header.length as int); }
@raw
// ------------------------------------------------------------ geometry of the flash range
pub struct Geo { pub lo: int, pub hi: int, pub e: int, pub w: int, pub n: int }
pub open spec fn geo_of<S: NorFlash>(r: Range<u32>) -> Geo {
    Geo { lo: r.start as int, hi: r.end as int, e: S::ERASE_SIZE as int, w: S::WORD_SIZE as int, n: (r.end - r.start) as int / (S::ERASE_SIZE as int) }
}
pub open spec fn geo_ok(g: Geo) -> bool {
    &&& 0 <= g.lo && g.lo < g.hi && g.hi <= u32::MAX - 0x2_0000
    &&& 1 <= g.w <= 32 && g.e >= 3 * g.w + up(g.w, 8)
    &&& al(g.e, g.lo) && al(g.e, g.hi) && al(g.w, g.e)
    &&& g.n == (g.hi - g.lo) / g.e
}
#[verifier::opaque]
pub open spec fn paddr(g: Geo, p: int) -> int { g.lo + g.e * p }
#[verifier::opaque]
pub open spec fn pidx(g: Geo, a: int) -> int { (a - g.lo) / g.e }
pub open spec fn dstart(g: Geo, p: int) -> int { paddr(g, p) + g.w }
pub open spec fn dend(g: Geo, p: int) -> int { paddr(g, p) + g.e - g.w }
/// an item with this length at this address lies within the data area of page p
pub open spec fn item_in(g: Geo, p: int, a: int, len: int) -> bool {
    0 <= p < g.n && 0 <= len && dstart(g, p) <= a && al(g.w, a) && a + up(g.w, 8) + up(g.w, len) <= dend(g, p)
}
pub open spec fn ptr_in(g: Geo, p: int, a: int) -> bool { dstart(g, p) <= a <= dend(g, p) && al(g.w, a) }
/// an address of an item header
pub open spec fn head_in(g: Geo, a: int) -> bool { item_in(g, pidx(g, a), a, 0) }

pub broadcast proof fn page_geom(g: Geo, p: int)
    requires geo_ok(g), 0 <= p < g.n
    ensures g.lo <= #[trigger] paddr(g, p), paddr(g, p) + g.e <= g.hi, al(g.e, paddr(g, p)), al(g.w, paddr(g, p)),
        al(g.w, dstart(g, p)), al(g.w, dend(g, p)), al(g.e, paddr(g, p) + g.e), al(g.w, paddr(g, p) + g.e),
        g.e * p >= 0, g.e * p + g.lo == paddr(g, p), g.e * (p + 1) + g.lo == paddr(g, p) + g.e,
{
    reveal(paddr);
    let (e, lo, hi, n) = (g.e, g.lo, g.hi, g.n);
    n_e(g);
    assert(e * p >= 0 && e * p + e <= e * n && e * (p + 1) == e * p + e) by (nonlinear_arith) requires 0 <= p < n, e >= 1;
    al_mul(e, p); al_mul(g.w, 1); al_mul(e, 1);
    al_add(e, lo, e * p);
    al_trans(g.w, e, paddr(g, p));
    al_add(g.w, paddr(g, p), g.w);
    al_add(g.w, paddr(g, p), e);
    al_add(e, paddr(g, p), e);
    al_add(g.w, paddr(g, p) + e, g.w);
}
pub proof fn n_e(g: Geo)
    requires geo_ok(g)
    ensures g.n >= 1, g.e * g.n == g.hi - g.lo, al(g.w, g.lo), al(g.w, g.hi), 2 * g.n <= g.hi
{
    let e = g.e;
    al_add(e, g.hi, g.lo);
    reveal(al);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(g.hi - g.lo, e);
    assert(e * g.n == g.hi - g.lo);
    assert(g.n >= 1) by (nonlinear_arith) requires e * g.n == g.hi - g.lo, g.hi - g.lo > 0, e >= 1;
    up_props(g.w, 8);
    assert(2 * g.n <= e * g.n) by (nonlinear_arith) requires e >= 2, g.n >= 1;
    al_trans(g.w, e, g.lo); al_trans(g.w, e, g.hi);
}
/// every address belongs to one page
pub broadcast proof fn page_of(g: Geo, a: int)
    requires geo_ok(g), g.lo <= a < g.hi
    ensures 0 <= #[trigger] pidx(g, a) < g.n, paddr(g, pidx(g, a)) <= a < paddr(g, pidx(g, a)) + g.e
{
    reveal(pidx); reveal(paddr);
    n_e(g);
    let p = pidx(g, a);
    let e = g.e;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a - g.lo, e);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a - g.lo, e);
    vstd::arithmetic::div_mod::lemma_mod_bound(a - g.lo, e);
    assert(a - g.lo == e * p + (a - g.lo) % e);
    assert(p < g.n) by (nonlinear_arith) requires e * p <= a - g.lo, a - g.lo < e * g.n, e >= 1;
}
pub proof fn page_is(g: Geo, a: int, p: int)
    requires geo_ok(g), 0 <= p < g.n, paddr(g, p) <= a < paddr(g, p) + g.e
    ensures pidx(g, a) == p, g.lo <= a < g.hi
{
    page_geom(g, p);
    page_of(g, a);
    reveal(paddr);
    let q = pidx(g, a);
    let e = g.e;
    assert(q == p) by (nonlinear_arith) requires e * q <= a - g.lo, a - g.lo < e * q + e, e * p <= a - g.lo, a - g.lo < e * p + e, e >= 1;
}
/// where an item is, everything about its place follows
pub proof fn item_place(g: Geo, p: int, a: int, len: int)
    requires geo_ok(g), item_in(g, p, a, len)
    ensures pidx(g, a) == p, g.lo <= a, a + up(g.w, 8) + up(g.w, len) <= g.hi, head_in(g, a), a > 0,
        ptr_in(g, p, a), ptr_in(g, p, a + up(g.w, 8) + up(g.w, len)),
{
    page_geom(g, p);
    up_props(g.w, 8); up_props(g.w, len); up_props(g.w, 0);
    page_is(g, a, p);
    al_add(g.w, a, up(g.w, 8)); al_add(g.w, a + up(g.w, 8), up(g.w, len));
    al_mul(g.w, 0);
}

// ------------------------------------------------------------ what programming does
pub open spec fn wrote(old: Seq<u8>, new: Seq<u8>, a: int, bytes: Seq<u8>) -> bool {
    &&& new.len() == old.len()
    &&& forall|i: int| #![trigger new[i]] 0 <= i < new.len() ==> new[i] == (if a <= i < a + bytes.len() { programmed(old[i], bytes[i - a]) } else { old[i] })
}
pub open spec fn only_changed(old: Seq<u8>, new: Seq<u8>, a: int, b: int) -> bool {
    &&& new.len() == old.len()
    &&& forall|i: int| #![trigger new[i]] 0 <= i < new.len() && !(a <= i < b) ==> new[i] == old[i]
}
/// the bytes of a whole item: header, data, padding with zeros
pub open spec fn item_bytes<S: NorFlash>(g: GH, data: Seq<u8>) -> Seq<u8> {
    hdr_bytes::<S>(g) + Seq::new(up(S::WORD_SIZE as int, data.len() as int) as nat, |i: int| if i < data.len() { data[i] } else { 0u8 })
}
pub open spec fn flash_in<S: NorFlash>(f: &S, g: Geo) -> bool { geo_ok(g) && word_ok::<S>() && f.lo() == g.lo && f.hi() == g.hi && g.hi <= f.mem().len() && g.w == S::WORD_SIZE && g.e == S::ERASE_SIZE }

pub proof fn crc32_cat(init: u32, a: Seq<u8>, b: Seq<u8>)
    ensures crc32_raw(init, a + b) == crc32_raw(crc32_raw(init, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        crc32_cat(init, a, b.drop_last());
    }
}

@fn ItemHeader::read_item props=C09,C19,C13
    requires
        self.crc is Some ==> word_ok::<S>() && flash_ok(old(flash)) && al(S::WORD_SIZE as int, address as int) && old(flash).lo() <= address && address <= u32::MAX - 0x2_0000, // @C09,C19
        self.crc is Some && nxt::<S>(address as int, self.length as int) <= end_address ==> nxt::<S>(address as int, self.length as int) <= old(flash).hi(), // @C09
    ensures same_flash(final(flash), old(flash)),
        match r {
            Ok(MaybeItem::Erased(h, b)) => self.crc is None && h == self && b@.len() == old(data_buffer)@.len(), // @C13
            Ok(MaybeItem::Present(item)) => self.crc is Some && item.header == self && item.dat() == item_data::<S>(old(flash).mem(), address as int, self.gh())
                && intact::<S>(old(flash).mem(), address as int, self.gh()) && nxt::<S>(address as int, self.length as int) <= end_address, // @C13
            Ok(MaybeItem::Corrupted(h, b)) => self.crc is Some && h == self && b@.len() == old(data_buffer)@.len()
                && (nxt::<S>(address as int, self.length as int) > end_address || !intact::<S>(old(flash).mem(), address as int, self.gh())), // @C13
            Err(Error::BufferTooSmall(n)) => n == up(S::WORD_SIZE as int, self.length as int) && n > old(data_buffer)@.len(), // @C19
            Err(Error::Storage { .. }) => true,
            Err(_) => false, // @C13
        },
        // what happens to the buffer when the borrow ends
        match r {
            Ok(MaybeItem::Erased(h, b)) => final(b)@ == final(data_buffer)@,
            Ok(MaybeItem::Corrupted(h, b)) => final(b)@ == final(data_buffer)@,
            Ok(MaybeItem::Present(item)) => self.length <= old(data_buffer)@.len() && (final(item.item_data_buffer)@.len() == self.length ==>
                final(data_buffer)@.len() == old(data_buffer)@.len() && final(item.item_data_buffer)@ == final(data_buffer)@.subrange(0, self.length as int)),
            Err(_) => final(data_buffer)@.len() == old(data_buffer)@.len(),
        },
@start
    proof { geometry::<S>(); up_props(S::WORD_SIZE as int, self.length as int); if al(S::WORD_SIZE as int, address as int) { al_add(S::WORD_SIZE as int, address as int, hl::<S>()); } }
@loop 0
    invariant same_flash(flash, old(flash)), data_buffer@.len() == old(data_buffer)@.len(),
    decreases (if retry { 0int } else { 1int }),
@end
@before `let data_crc`
    assert(data@ =~= item_data::<S>(flash.mem(), address as int, self.gh()));
@fn ItemHeader::is_data_corrupted props=C09,C19,C13
    requires word_ok::<S>(), flash_ok(old(flash)), al(S::WORD_SIZE as int, address as int), old(flash).lo() <= address, // @C09,C19
        nxt::<S>(address as int, self.length as int) <= old(flash).hi(), // @C09
    ensures same_flash(final(flash), old(flash)),
        match r {
            Ok(b) => b == !intact::<S>(old(flash).mem(), address as int, self.gh()), // @C13,C06
            Err(e) => e is Storage, // @C13
        },
@start
    let ghost w = S::WORD_SIZE as int;
    let ghost all = item_data::<S>(old(flash).mem(), address as int, self.gh());
    proof { geometry::<S>(); up_props(w, self.length as int); al_add(w, address as int, hl::<S>()); down_props(w, 32); }
@loop 0
    invariant same_flash(flash, old(flash)), buffer.0@.len() == 32, buffer_len == down(w, 32), 0 < buffer_len <= 32,
        __it0.index@ > 0 ==> !intact::<S>(old(flash).mem(), address as int, self.gh()),
@end
@loop 1
    invariant same_flash(flash, old(flash)), buffer.0@.len() == 32, buffer_len == down(w, 32), 0 < buffer_len <= 32,
        0 <= data_left <= self.length,
        data_left > 0 ==> offset == self.length - data_left && al(w, offset as int),
        offset <= up(w, self.length as int),
        crc == !crc32_raw(0xEEEE_EEEE, all.subrange(0, self.length - data_left)),
    decreases data_left,
@end
@before `while data_left`
    proof { assert(all.subrange(0, 0) =~= Seq::<u8>::empty()); assert(!(!0xEEEE_EEEEu32) == 0xEEEE_EEEEu32) by (bit_vector); al_mul(w, 0); }
@before `flash . read (`
    proof {
        up_le(w, data_len as int, buffer_len as int);
        al_add(w, offset as int, buffer_len as int);
        if data_len < buffer_len { up_shift(w, offset as int, data_len as int); }
        al_add(w, address + hl::<S>(), offset as int);
    }
@before `crc = crc32_with_initial`
    let ghost done = all.subrange(0, self.length - data_left);
    let ghost chunk = buffer.0@.subrange(0, data_len as int);
    proof {
        assert(chunk =~= all.subrange(self.length - data_left, self.length - data_left + data_len));
        crc32_cat(0xEEEE_EEEE, done, chunk);
        assert(done + chunk =~= all.subrange(0, self.length - data_left + data_len));
        let c = crc32_raw(0xEEEE_EEEE, done);
        assert(!(!c) == c) by (bit_vector);
    }
@before `if opt_nz_eq`
    proof { assert(all.subrange(0, self.length as int) =~= all); }
@fn ItemHeader::write props=C09,C12
    requires word_ok::<S>(), flash_ok(old(flash)), al(S::WORD_SIZE as int, address as int), old(flash).lo() <= address, // @C09
        address + hl::<S>() <= old(flash).hi(), // @C09
    ensures same_region(final(flash), old(flash)), r is Err ==> r->Err_0 is Storage,
        only_changed(old(flash).mem(), final(flash).mem(), address as int, address + hl::<S>()), // @C09
        r is Ok ==> wrote(old(flash).mem(), final(flash).mem(), address as int, hdr_bytes::<S>(self.gh())), // @C12
@start
    proof { geometry::<S>(); al_add(S::WORD_SIZE as int, address as int, hl::<S>()); }
@before `flash . write (`
    proof { assert(buffer.0@.subrange(0, hl::<S>()) =~= hdr_bytes::<S>(self.gh())); }
@fn ItemHeader::erase_data props=C09,C12,C11
    requires flash_in(old(flash), geo_of::<S>(flash_range)), // @C09
        exists|p: int| item_in(geo_of::<S>(flash_range), p, address as int, self.length as int), // @C09
        old(cache).inv(geo_of::<S>(flash_range)), // @C14
    ensures same_region(final(flash), old(flash)), final(cache).inv(geo_of::<S>(flash_range)), // @C14
        only_changed(old(flash).mem(), final(flash).mem(), address as int, address + hl::<S>()), // @C09
        st_true::<S, _>(old(cache), old(flash).mem(), geo_of::<S>(flash_range)) ==> st_true::<S, _>(final(cache), final(flash).mem(), geo_of::<S>(flash_range)), // @C14
        r is Err ==> r->Err_0 is Storage,
        r is Ok ==> r->Ok_0.gh() == (GH { len: self.length, crc: 0 }) && wrote(old(flash).mem(), final(flash).mem(), address as int, hdr_bytes::<S>(GH { len: self.length, crc: 0 })), // @C11,C12
        erased_noticed::<S, _>(old(cache), final(cache), geo_of::<S>(flash_range), address as int, self.length as int), // @C14
@start
    proof {
        let g = geo_of::<S>(flash_range);
        let p = choose|p: int| item_in(g, p, address as int, self.length as int);
        item_place(g, p, address as int, self.length as int);
        up_props(g.w, self.length as int); geometry::<S>();
        coh_data::<S, _>(&*cache, flash.mem(), g, p, address as int, self.length as int);
    }
@before `cache . notice_item_erased`
    proof {
        let g = geo_of::<S>(flash_range);
        let p = choose|p: int| item_in(g, p, address as int, self.length as int);
        assert(__self.length == self.length);
        assert(item_in(g, p, address as int, __self.length as int));
    }
@raw
pub open spec fn erased_noticed<S: NorFlash, C: SealedCacheImpl>(c0: &C, c1: &C, g: Geo, a: int, len: int) -> bool {
    &&& c1.is_d()
    &&& forall|q: int| #![auto] c1.st(q) == c0.st(q) && c1.wr(q) == c0.wr(q)
    &&& forall|q: int| #![auto] q != pidx(g, a) ==> c1.er(q) == c0.er(q)
    &&& er_after(g, c1.er(pidx(g, a)), c0.er(pidx(g, a)), a, nxt::<S>(a, len))
}
/// writing or erasing an item changes nothing about the pages' states
pub proof fn coh_data<S: NorFlash, C: SealedCacheImpl>(c0: &C, m0: Seq<u8>, g: Geo, p: int, a: int, len: int)
    requires item_in(g, p, a, len), geo_ok(g), g.w == S::WORD_SIZE, g.e == S::ERASE_SIZE, g.hi <= m0.len()
    ensures forall|c1: &C, m1: Seq<u8>| st_true::<S, C>(c0, m0, g) && only_changed(m0, m1, a, nxt::<S>(a, len)) && same_st(c0, c1) ==> #[trigger] st_true::<S, C>(c1, m1, g)
{
    item_place(g, p, a, len);
    geometry::<S>();
    assert forall|c1: &C, m1: Seq<u8>| st_true::<S, C>(c0, m0, g) && only_changed(m0, m1, a, nxt::<S>(a, len)) && same_st(c0, c1) implies #[trigger] st_true::<S, C>(c1, m1, g) by {
        truth_data::<S>(m0, m1, g, p, a, nxt::<S>(a, len));
        if C::exact() {
            assert forall|q: int| 0 <= q < g.n && (#[trigger] c1.st(q)) is Some implies truth::<S>(m1, g, q) == Truth::Is(c1.st(q)->0) by {
                assert(c0.st(q) == c1.st(q));
                assert(truth::<S>(m1, g, q) == truth::<S>(m0, g, q));
                assert(truth::<S>(m0, g, q) == Truth::Is(c0.st(q)->0));
            }
        }
    }
}
pub open spec fn same_st<C: SealedCacheImpl>(a: &C, b: &C) -> bool { forall|q: int| #[trigger] a.st(q) == b.st(q) }
@insert impl Item
    pub open spec fn dat(self) -> Seq<u8> { self.item_data_buffer@ }
@fn Item::data props=C13
    ensures r@ == self.dat(),
@fn Item::data_mut props=C13
    ensures r@ == old(self).dat(), final(self).dat() == final(r)@, final(self).header == old(self).header,
@raw
/// the bytes `part` are what is in front of a buffer in the end
pub open spec fn same_buffer(was: Seq<u8>, fin: Seq<u8>, part: Seq<u8>) -> bool {
    fin.len() == was.len() && part.len() <= fin.len() && fin.subrange(0, part.len() as int) == part
}
@fn Item::data_owned props=C13
    ensures r@ == self.dat(), final(self.item_data_buffer)@ == final(r)@,
@fn Item::header_and_data_owned props=C13
    ensures r.0 == self.header, r.1@ == self.dat(), final(self.item_data_buffer)@ == final(r.1)@,
@fn Item::unborrow props=C13
    ensures r.header == self.header, final(self.item_data_buffer)@ == old(self.item_data_buffer)@,
@fn ItemUnborrowed::reborrow props=C13
    ensures match r {
            Some(item) => item.header == self.header && item.dat() == old(data_buffer)@.subrange(0, self.header.length as int) && self.header.length <= old(data_buffer)@.len()
                && same_buffer(old(data_buffer)@, final(data_buffer)@, final(item.item_data_buffer)@),
            None => self.header.length > old(data_buffer)@.len() && final(data_buffer)@ == old(data_buffer)@,
        }, // @C13
@fn MaybeItem::unwrap props=C13
    ensures match self {
            MaybeItem::Corrupted(h, b) => r is Err && r->Err_0 is Corrupted,
            MaybeItem::Erased(h, b) => r is Err && r->Err_0 is LogicBug,
            MaybeItem::Present(item) => r == Ok::<Item, Error<E>>(item),
        }, // @C13
@raw
pub open spec fn written_noticed<S: NorFlash, C: SealedCacheImpl>(c0: &C, c1: &C, g: Geo, a: int, len: int) -> bool {
    &&& c1.is_d()
    &&& forall|q: int| #![auto] c1.st(q) == c0.st(q) && c1.er(q) == c0.er(q)
    &&& forall|q: int| #![auto] q != pidx(g, a) ==> c1.wr(q) == c0.wr(q)
    &&& wr_after(c1.wr(pidx(g, a)), c0.wr(pidx(g, a)), nxt::<S>(a, len))
}
pub open spec fn header_ok<S: NorFlash>(h: ItemHeader, data: Seq<u8>) -> bool { h.length == data.len() }

@fn Item::write_raw props=C09,C12,C19,C14
    requires flash_in(old(flash), geo_of::<S>(flash_range)), // @C09
        exists|p: int| item_in(geo_of::<S>(flash_range), p, address as int, header.length as int), // @C09
        old(cache).inv(geo_of::<S>(flash_range)), // @C14
        header.length == data@.len(), // @C12,C18
    ensures same_region(final(flash), old(flash)), final(cache).inv(geo_of::<S>(flash_range)), // @C14
        written_noticed::<S, _>(old(cache), final(cache), geo_of::<S>(flash_range), address as int, header.length as int), // @C14
        only_changed(old(flash).mem(), final(flash).mem(), address as int, nxt::<S>(address as int, data@.len() as int)), // @C09
        st_true::<S, _>(old(cache), old(flash).mem(), geo_of::<S>(flash_range)) ==> st_true::<S, _>(final(cache), final(flash).mem(), geo_of::<S>(flash_range)), // @C14
        r is Err ==> r->Err_0 is Storage, // @C19
        r is Ok ==> wrote(old(flash).mem(), final(flash).mem(), address as int, item_bytes::<S>(header.gh(), data@)), // @C12
@start
    let ghost g = geo_of::<S>(flash_range);
    let ghost w = S::WORD_SIZE as int;
    let ghost a = address as int;
    let ghost len = data@.len() as int;
    proof {
        let p = choose|p: int| item_in(g, p, address as int, header.length as int);
        item_place(g, p, address as int, header.length as int);
        coh_data::<S, _>(&*cache, flash.mem(), g, p, a, len);
        assert(item_in(g, p, address as int, header.length as int));
        up_props(w, len); geometry::<S>(); down_props(w, len);
        al_add(w, a, hl::<S>());
        al_add(w, a + hl::<S>(), down(w, len));
        up_shift(w, down(w, len), len - down(w, len));
        up_props(w, len - down(w, len));
        up_le(w, len - down(w, len), w);
    }
@before `flash . write ( data_address , data_block`
    let ghost m1 = flash.mem();
@before `if ! data_left`
    let ghost m2 = flash.mem();
    assert(m2.len() == old(flash).mem().len());
@before `buffer [ .. data_left . len ( ) ] . copy_from_slice`
    let ghost zeros = buffer.0@;
@before `Ok ( ( ) )`
    proof {
        let ib = item_bytes::<S>(header.gh(), data@);
        let m = flash.mem();
        let m0 = old(flash).mem();
        assert(ib.len() == hl::<S>() + up(w, len));
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies m[i] == (if a <= i < a + ib.len() { programmed(m0[i], ib[i - a]) } else { m0[i] }) by { }
    }
@raw
/// the bytes of an item with this data were just programmed at a place of the region
pub open spec fn pushed_here<S: NorFlash>(mem: Seq<u8>, g: Geo, a: int, p: int, d: Seq<u8>) -> bool {
    &&& item_in(g, p, a, d.len() as int) && d.len() <= 0xffff
    &&& exists|m0: Seq<u8>| #[trigger] wrote(m0, mem, a, item_bytes::<S>(GH { len: d.len() as u16, crc: data_crc(d) }, d))
}
@fn Item::write_new props=C09,C12,C19,C14
    requires flash_in(old(flash), geo_of::<S>(flash_range)), // @C09
        exists|p: int| item_in(geo_of::<S>(flash_range), p, address as int, data@.len() as int), // @C09
        old(cache).inv(geo_of::<S>(flash_range)), // @C14
        data@.len() <= u16::MAX, // @C18
    ensures same_region(final(flash), old(flash)), final(cache).inv(geo_of::<S>(flash_range)), // @C14
        written_noticed::<S, _>(old(cache), final(cache), geo_of::<S>(flash_range), address as int, data@.len() as int), // @C14
        only_changed(old(flash).mem(), final(flash).mem(), address as int, nxt::<S>(address as int, data@.len() as int)), // @C09
        st_true::<S, _>(old(cache), old(flash).mem(), geo_of::<S>(flash_range)) ==> st_true::<S, _>(final(cache), final(flash).mem(), geo_of::<S>(flash_range)), // @C14
        r is Err ==> r->Err_0 is Storage, // @C19
        r is Ok ==> r->Ok_0.gh() == (GH { len: data@.len() as u16, crc: data_crc(data@) }) && wrote(old(flash).mem(), final(flash).mem(), address as int, item_bytes::<S>(r->Ok_0.gh(), data@)), // @C12,C18
        r is Ok ==> exists|p: int| #[trigger] pushed_here::<S>(final(flash).mem(), geo_of::<S>(flash_range), address as int, p, data@), // @C05,C12
@start
    let ghost __p0 = choose|p: int| item_in(geo_of::<S>(flash_range), p, address as int, data@.len() as int);
    let ghost __m0 = flash.mem();
@before `Ok(header)`
    proof { assert(wrote(__m0, flash.mem(), address as int, item_bytes::<S>(header.gh(), data@))); assert(pushed_here::<S>(flash.mem(), geo_of::<S>(flash_range), __p0, address as int, data@) || pushed_here::<S>(flash.mem(), geo_of::<S>(flash_range), address as int, __p0, data@)); }
@fn Item::write props=C09,C12,C19,C14
    requires flash_in(old(flash), geo_of::<S>(flash_range)), // @C09
        exists|p: int| item_in(geo_of::<S>(flash_range), p, address as int, self.header.length as int), // @C09
        old(cache).inv(geo_of::<S>(flash_range)), // @C14
        self.header.length == self.dat().len(), // @C12
    ensures same_region(final(flash), old(flash)), final(cache).inv(geo_of::<S>(flash_range)), // @C14
        written_noticed::<S, _>(old(cache), final(cache), geo_of::<S>(flash_range), address as int, self.header.length as int), // @C14
        only_changed(old(flash).mem(), final(flash).mem(), address as int, nxt::<S>(address as int, self.dat().len() as int)), // @C09
        st_true::<S, _>(old(cache), old(flash).mem(), geo_of::<S>(flash_range)) ==> st_true::<S, _>(final(cache), final(flash).mem(), geo_of::<S>(flash_range)), // @C14
        r is Err ==> r->Err_0 is Storage, // @C19
        r is Ok ==> wrote(old(flash).mem(), final(flash).mem(), address as int, item_bytes::<S>(self.header.gh(), self.dat())), // @C12

# ------------------------------------------------------------ iterators
@raw
pub proof fn nxt_props<S: NorFlash>(a: int, len: int)
    requires 0 <= len
    ensures nxt::<S>(a, len) >= a + hl::<S>(), nxt::<S>(a, len) > a, al(S::WORD_SIZE as int, a) ==> al(S::WORD_SIZE as int, nxt::<S>(a, len)),
        nxt::<S>(a, len) <= a + hl::<S>() + len + S::WORD_SIZE,
{
    geometry::<S>();
    let w = S::WORD_SIZE as int;
    up_props(w, len);
    if al(w, a) { al_add(w, a, hl::<S>()); al_add(w, a + hl::<S>(), up(w, len)); }
}
pub proof fn hdr_bad_readable<S: NorFlash>(mem: Seq<u8>, a: int, end: int)
    requires hdr_at::<S>(mem, a, end) is Bad || hdr_at::<S>(mem, a, end) is Item
    ensures a + hl::<S>() <= end
{}
pub open spec fn scan_ok<S: NorFlash>(f: &S, a: int, end: int) -> bool {
    word_ok::<S>() && flash_ok(f) && al(S::WORD_SIZE as int, a) && f.lo() <= a && end <= f.hi() && a <= u32::MAX - 0x2_0000
}
pub proof fn scan_torn<S: NorFlash>(mem: Seq<u8>, a: int, end: int, t: int, m: Skip)
    ensures match scan::<S>(mem, a, end, t, m) { Scan::Found(x, g) => a <= x && nxt::<S>(x, g.len as int) <= end && hdr_at::<S>(mem, x, end) == Hdr::Item(g) && !skips(m, g), Scan::End(x) => a <= x },
        al(S::WORD_SIZE as int, a) && al(S::WORD_SIZE as int, t) ==> match scan::<S>(mem, a, end, t, m) { Scan::Found(x, g) => al(S::WORD_SIZE as int, x), Scan::End(x) => al(S::WORD_SIZE as int, x) },
        a <= end && t <= end ==> match scan::<S>(mem, a, end, t, m) { Scan::Found(x, g) => x <= end, Scan::End(x) => x <= end },
    decreases end - a
{
    geometry::<S>();
    let w = S::WORD_SIZE as int;
    if al(w, a) { al_add(w, a, w); al_add(w, a, hl::<S>()); }
    match hdr_at::<S>(mem, a, end) {
        Hdr::End => {},
        Hdr::Bad => { if a < end { scan_torn::<S>(mem, a + w, end, a + hl::<S>(), m); } },
        Hdr::Item(g) => { nxt_props::<S>(a, g.len as int); if skips(m, g) && a < end { scan_torn::<S>(mem, nxt::<S>(a, g.len as int), end, t, m); } },
    }
}
pub open spec fn scan_result<S: NorFlash>(s: Scan, r: Result<(Option<ItemHeader>, u32), Error<S::Error>>) -> bool {
    match r {
        Ok((Some(h), x)) => s == Scan::Found(x as int, h.gh()),
        Ok((None, x)) => s == Scan::End(x as int),
        Err(e) => e is Storage,
    }
}
@fn ItemHeaderIter::new props=C13
    ensures r.current_address == start_address, r.end_address == end_address,
@fn ItemHeaderIter::traverse props=C09,C19,C13
    requires scan_ok(old(flash), old(self).current_address as int, old(self).end_address as int), // @C09,C19
    ensures same_flash(final(flash), old(flash)), final(self).end_address == old(self).end_address,
        scan_result::<S>(scan::<S>(old(flash).mem(), old(self).current_address as int, old(self).end_address as int, old(self).current_address as int, MODE), r), // @C13,C07,C10
        r is Ok && r->Ok_0.0 is Some ==> final(self).current_address == nxt::<S>(r->Ok_0.1 as int, r->Ok_0.0->0.length as int), // @C13
        scan_ok(final(flash), final(self).current_address as int, final(self).end_address as int), // @C09
        final(self).current_address >= old(self).current_address,
        match r {
            Ok((Some(h), x)) => old(self).current_address <= x && al(S::WORD_SIZE as int, x as int) && nxt::<S>(x as int, h.length as int) <= old(self).end_address && hdr_at::<S>(old(flash).mem(), x as int, old(self).end_address as int) == Hdr::Item(h.gh()) && !skips(MODE, h.gh()),
            Ok((None, x)) => old(self).current_address <= x && al(S::WORD_SIZE as int, x as int) && (old(self).current_address <= old(self).end_address ==> x <= old(self).end_address),
            _ => true,
        }, // @C09
@start
    proof { scan_torn::<S>(flash.mem(), self.current_address as int, self.end_address as int, self.current_address as int, MODE); geometry::<S>(); }
@loop 0
    invariant same_flash(flash, old(flash)), self.end_address == old(self).end_address, self.current_address >= old(self).current_address,
        scan_ok(flash, self.current_address as int, self.end_address as int),
        corrupted_header_end <= self.end_address || corrupted_header_end == old(self).current_address,
        scan::<S>(flash.mem(), old(self).current_address as int, self.end_address as int, old(self).current_address as int, MODE) == scan::<S>(flash.mem(), self.current_address as int, self.end_address as int, corrupted_header_end as int, MODE),
    decreases (if self.current_address >= self.end_address { 0int } else { self.end_address - self.current_address }),
@body 0
    proof {
        let w = S::WORD_SIZE as int;
        al_add(w, self.current_address as int, w);
        assert forall|len: int| 0 <= len implies nxt::<S>(self.current_address as int, len) > self.current_address && al(w, #[trigger] nxt::<S>(self.current_address as int, len)) by { nxt_props::<S>(self.current_address as int, len); }
        assert forall|len: int| 0 <= len <= 0xffff implies #[trigger] up(w, len) <= 0xffff + w by { up_props(w, len); }
    }
@end
@fn ItemHeaderIter::next props=C09,C19,C13
    requires scan_ok(old(flash), old(self).current_address as int, old(self).end_address as int), // @C09,C19
    ensures same_flash(final(flash), old(flash)), final(self).end_address == old(self).end_address,
        scan_result::<S>(scan::<S>(old(flash).mem(), old(self).current_address as int, old(self).end_address as int, old(self).current_address as int, Skip::None), r), // @C13
        r is Ok && r->Ok_0.0 is Some ==> final(self).current_address == nxt::<S>(r->Ok_0.1 as int, r->Ok_0.0->0.length as int), // @C13
        scan_ok(final(flash), final(self).current_address as int, final(self).end_address as int), // @C09
        final(self).current_address >= old(self).current_address,
        match r {
            Ok((Some(h), x)) => old(self).current_address <= x && al(S::WORD_SIZE as int, x as int) && nxt::<S>(x as int, h.length as int) <= old(self).end_address && hdr_at::<S>(old(flash).mem(), x as int, old(self).end_address as int) == Hdr::Item(h.gh()),
            Ok((None, x)) => old(self).current_address <= x && al(S::WORD_SIZE as int, x as int) && (old(self).current_address <= old(self).end_address ==> x <= old(self).end_address),
            _ => true,
        }, // @C09
@fn ItemIter::new props=C13
    ensures r.header.current_address == start_address, r.header.end_address == end_address,
@raw
/// the first readable item from an address on
pub enum Fetch { Got(int, GH), Done }
pub open spec fn fetch<S: NorFlash>(mem: Seq<u8>, a: int, end: int) -> Fetch
    decreases end - a
{
    match scan::<S>(mem, a, end, a, Skip::None) {
        Scan::End(x) => Fetch::Done,
        Scan::Found(x, g) => if intact::<S>(mem, x, g) { Fetch::Got(x, g) } else if a < nxt::<S>(x, g.len as int) <= end { fetch::<S>(mem, nxt::<S>(x, g.len as int), end) } else { Fetch::Done },
    }
}
@fn ItemIter::next props=C09,C19,C13,C04
    requires scan_ok(old(flash), old(self).header.current_address as int, old(self).header.end_address as int), // @C09,C19
    ensures same_flash(final(flash), old(flash)), final(self).header.end_address == old(self).header.end_address,
        scan_ok(final(flash), final(self).header.current_address as int, final(self).header.end_address as int), // @C09
        final(self).header.current_address >= old(self).header.current_address,
        match r {
            Ok(Some((item, x))) => fetch::<S>(old(flash).mem(), old(self).header.current_address as int, old(self).header.end_address as int) == Fetch::Got(x as int, item.header.gh())
                && item.header.crc is Some && intact::<S>(old(flash).mem(), x as int, item.header.gh()) && item.dat() == item_data::<S>(old(flash).mem(), x as int, item.header.gh()) && item.dat().len() == item.header.length
                && final(self).header.current_address == nxt::<S>(x as int, item.header.length as int)
                && old(self).header.current_address <= x && al(S::WORD_SIZE as int, x as int) && nxt::<S>(x as int, item.header.length as int) <= old(self).header.end_address && hdr_at::<S>(old(flash).mem(), x as int, old(self).header.end_address as int) == Hdr::Item(item.header.gh()), // @C13,C04
            Ok(None) => fetch::<S>(old(flash).mem(), old(self).header.current_address as int, old(self).header.end_address as int) is Done, // @C13,C04
            Err(Error::BufferTooSmall(n)) => n > old(data_buffer)@.len(), // @C19
            Err(e) => e is Storage, // @C13
        },
        match r {
            Ok(Some((item, x))) => item.header.length <= old(data_buffer)@.len() && (final(item.item_data_buffer)@.len() == item.header.length ==> final(data_buffer)@.len() == old(data_buffer)@.len()),
            _ => final(data_buffer)@.len() == old(data_buffer)@.len(),
        },
@loop 0
    invariant same_flash(flash, old(flash)), self.header.end_address == old(self).header.end_address,
        self.header.current_address >= old(self).header.current_address,
        scan_ok(flash, self.header.current_address as int, self.header.end_address as int),
        data_buffer is Some, data_buffer->0@.len() == old_data_buffer_len, final(data_buffer->0)@ == __fb,
        fetch::<S>(flash.mem(), old(self).header.current_address as int, self.header.end_address as int) == fetch::<S>(flash.mem(), self.header.current_address as int, self.header.end_address as int),
    decreases (if self.header.current_address >= self.header.end_address { 0int } else { self.header.end_address - self.header.current_address }),
@end
@start
    let ghost old_data_buffer_len = data_buffer@.len();
    let ghost __fb = final(data_buffer)@;
@before `let buffer =`
    proof { nxt_props::<S>(address as int, header.length as int); geometry::<S>(); al_add(S::WORD_SIZE as int, address as int, hl::<S>()); up_props(S::WORD_SIZE as int, header.length as int); scan_torn::<S>(flash.mem(), self.header.current_address as int, self.header.end_address as int, self.header.current_address as int, Skip::None); }
@fn GenericStorage::find_next_free_item_spot props=C09,C19,C08
    requires old(self).wf(),
        exists|p: int| 0 <= p < old(self).g().n && start_address == #[trigger] dstart(old(self).g(), p) && end_address == dend(old(self).g(), p), // @C09,C19
    ensures final(self).cache == old(self).cache, final(self).wf(), same_cfg(final(self), old(self)), same_flash(&final(self).flash, &old(self).flash), // @C09
        r is Err ==> r->Err_0 is Storage,
        match r {
            Ok(Some(a)) => item_in(old(self).g(), pidx(old(self).g(), start_address as int), a as int, data_length as int)
                && a == free_addr::<S, C>(&old(self).cache, old(self).flash.mem(), old(self).g(), pidx(old(self).g(), start_address as int)),
            Ok(None) => !fits::<S>(end_address - free_addr::<S, C>(&old(self).cache, old(self).flash.mem(), old(self).g(), pidx(old(self).g(), start_address as int)), data_length as int),
            _ => true,
        }, // @C09,C08,C10
@start
    let ghost g = self.g();
    let ghost p = choose|p: int| 0 <= p < g.n && start_address == #[trigger] dstart(g, p) && end_address == dend(g, p);
    proof {
        page_geom(g, p); page_is(g, start_address as int, p);
        geometry::<S>();
        self.cache.inv_law(g, p);
        let a = first_addr(&self.cache, g, p);
        scan_torn::<S>(self.flash.mem(), a, end_address as int, a, Skip::All);
    }
@before `if let Some ( available )`
    proof {
        let w = S::WORD_SIZE as int;
        assert(free_item_address <= end_address);
        al_add(w, end_address as int, free_item_address as int);
        down_props(w, end_address - free_item_address);
        up_props(w, data_length as int);
        al_mul(w, 0);
        let f = fits::<S>(end_address - free_item_address, data_length as int);
        let f0 = fits::<S>(end_address - free_item_address, 0);
    }
@fn GenericStorage::is_page_empty props=C09,C19,C06
    requires old(self).wf(), page_index < old(self).g().n, // @C19
    ensures final(self).wf(), same_cfg(final(self), old(self)), same_flash(&final(self).flash, &old(self).flash), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted,
        page_state is Some ==> final(self).cache == old(self).cache,
        page_state is Some && r is Err ==> r->Err_0 is Storage,
        page_state is Some && r is Ok ==> r->Ok_0 == (match page_state->0 {
            PageState::Open => true,
            PageState::PartialOpen => false,
            PageState::Closed => dead::<S>(old(self).flash.mem(), first_addr(&old(self).cache, old(self).g(), page_index as int), dend(old(self).g(), page_index as int)),
        }), // @C06
@loop 0
    invariant same_cfg(self, old(self)), same_flash(&self.flash, &old(self).flash), self.cache == cache0, self.wf(),
        scan_ok(&self.flash, item_headers.current_address as int, item_headers.end_address as int), item_headers.end_address == dend(g, p),
        dead::<S>(self.flash.mem(), item_headers.current_address as int, dend(g, p)) == dead::<S>(self.flash.mem(), first_addr(&cache0, g, p), dend(g, p)),
    decreases (if item_headers.current_address >= item_headers.end_address { 0int } else { item_headers.end_address - item_headers.current_address }),
@end
@start
    let ghost g = self.g();
    let ghost p = page_index as int;
    proof { page_geom(g, p); geometry::<S>(); }
@before `match page_state { PageState :: Closed`
    let ghost cache0 = self.cache;
    proof { self.cache.inv_law(g, p); }
@before `if ! item_header`
    proof { nxt_props::<S>(item_address as int, item_header.length as int); }
