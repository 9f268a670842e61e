# src/lib.rs
@fn round_up_to_alignment props=C09,C19
    requires up(S::WORD_SIZE as int, value as int) <= u32::MAX, // @C19
    ensures r == up(S::WORD_SIZE as int, value as int),
@start
    proof { geometry::<S>(); }
@fn round_up_to_alignment_usize props=C09,C19
    requires up(S::WORD_SIZE as int, value as int) <= usize::MAX, // @C19
    ensures r == up(S::WORD_SIZE as int, value as int),
@start
    proof { geometry::<S>(); }
@fn round_down_to_alignment props=C09,C19
    ensures r == down(S::WORD_SIZE as int, value as int),
@start
    proof { geometry::<S>(); down_props(S::WORD_SIZE as int, value as int); reveal(down); }
@fn round_down_to_alignment_usize props=C09,C19
    requires value <= u32::MAX, // @C19
    ensures r == down(S::WORD_SIZE as int, value as int),
@fn AlignedBuf::Deref::deref props=C19
    ensures r@ == self.0@,
@fn AlignedBuf::DerefMut::deref_mut props=C19
    ensures r@ == old(self).0@, final(self).0@ == final(r)@,
@fn NorFlashExt::WORD_SIZE props=C09
    requires S::READ_SIZE >= 1, S::WRITE_SIZE >= 1,
        al(S::READ_SIZE as int, S::WRITE_SIZE as int) || al(S::WRITE_SIZE as int, S::READ_SIZE as int),
    ensures r == (if S::WRITE_SIZE > S::READ_SIZE { S::WRITE_SIZE } else { S::READ_SIZE }), // @C09,C12
@fn assert_read_write_sizes props=C09,C19
    requires read_size >= 1, write_size >= 1, al(read_size as int, write_size as int) || al(write_size as int, read_size as int),
@start
    proof { reveal(al); }
# ------------------------------------------------------------ pages
@raw
/// what the cache says about the state of a page is what its markers say
pub open spec fn st_true<S: NorFlash, C: SealedCacheImpl>(c: &C, mem: Seq<u8>, g: Geo) -> bool {
    C::exact() ==> forall|p: int| 0 <= p < g.n && (#[trigger] c.st(p)) is Some ==> truth::<S>(mem, g, p) == Truth::Is(c.st(p)->0)
}
/// page w will be found not to be closed
pub open spec fn nc_at<S: NorFlash, C: SealedCacheImpl>(c: &C, mem: Seq<u8>, g: Geo, w: int) -> bool {
    0 <= w < g.n && if C::exact() { truth::<S>(mem, g, w) != Truth::Is(PageState::Closed) } else { nc(c.st(w)) }
}
pub open spec fn some_nc<S: NorFlash, C: SealedCacheImpl>(c: &C, mem: Seq<u8>, g: Geo) -> bool { exists|w: int| #[trigger] nc_at::<S, C>(c, mem, g, w) }
/// changing data bytes of one page changes no page state
pub proof fn truth_data<S: NorFlash>(a: Seq<u8>, b: Seq<u8>, g: Geo, p: int, lo: int, hi: int)
    requires geo_ok(g), 0 <= p < g.n, dstart(g, p) <= lo, hi <= dend(g, p), only_changed(a, b, lo, hi), g.hi <= a.len(), g.w == S::WORD_SIZE, g.e == S::ERASE_SIZE
    ensures forall|q: int| 0 <= q < g.n ==> #[trigger] truth::<S>(b, g, q) == truth::<S>(a, g, q)
{
    geometry::<S>(); page_geom(g, p);
    assert forall|q: int| 0 <= q < g.n implies #[trigger] truth::<S>(b, g, q) == truth::<S>(a, g, q) by {
        page_geom(g, q);
        if q != p { pages_disjoint(g, p, q); assert(same_page(a, b, g, q)); truth_frame::<S>(a, b, g, q); }
        else {
            let rs = S::READ_SIZE as int;
            let s = paddr(g, p);
            let t = paddr(g, p) + g.e - rs;
            assert(a.subrange(s, s + rs) =~= b.subrange(s, s + rs));
            assert(a.subrange(t, t + rs) =~= b.subrange(t, t + rs));
        }
    }
}
/// changing markers of one page changes no other page state
pub proof fn truth_markers<S: NorFlash>(a: Seq<u8>, b: Seq<u8>, g: Geo, p: int)
    requires geo_ok(g), 0 <= p < g.n, only_changed(a, b, paddr(g, p), paddr(g, p) + g.e), g.hi <= a.len(), g.w == S::WORD_SIZE, g.e == S::ERASE_SIZE
    ensures forall|q: int| 0 <= q < g.n && q != p ==> #[trigger] truth::<S>(b, g, q) == truth::<S>(a, g, q),
        wrote_marker(a, b, paddr(g, p), g.w) ==> marked::<S>(b, paddr(g, p)),
        wrote_marker(a, b, dend(g, p), g.w) ==> marked::<S>(b, paddr(g, p) + g.e - S::READ_SIZE),
        only_changed(a, b, paddr(g, p), paddr(g, p) + g.w) ==> marked::<S>(b, paddr(g, p) + g.e - S::READ_SIZE) == marked::<S>(a, paddr(g, p) + g.e - S::READ_SIZE),
        only_changed(a, b, dend(g, p), dend(g, p) + g.w) ==> marked::<S>(b, paddr(g, p)) == marked::<S>(a, paddr(g, p)),
        blank(b, paddr(g, p), paddr(g, p) + g.e) ==> truth::<S>(b, g, p) == Truth::Is(PageState::Open),
{
    geometry::<S>(); page_geom(g, p);
    page_op::<S>(a, b, g, p);
    let rs = S::READ_SIZE as int;
    let s = paddr(g, p);
    let t = paddr(g, p) + g.e - rs;
    if wrote_marker(a, b, s, g.w) { zb_00(b.subrange(s, s + rs)); }
    if wrote_marker(a, b, dend(g, p), g.w) { zb_00(b.subrange(t, t + rs)); }
    if only_changed(a, b, s, s + g.w) { assert(a.subrange(t, t + rs) =~= b.subrange(t, t + rs)); }
    if only_changed(a, b, dend(g, p), dend(g, p) + g.w) { assert(a.subrange(s, s + rs) =~= b.subrange(s, s + rs)); }
}
pub proof fn zb_00(s: Seq<u8>)
    requires s.len() >= 1, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0u8
    ensures zero_bits_of(s) >= 8
    decreases s.len()
{
    assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 0u8 & 16 == 0 && 0u8 & 32 == 0 && 0u8 & 64 == 0 && 0u8 & 128 == 0) by (bit_vector);
    if s.len() > 1 { zb_00(s.drop_last()); } else { reveal_with_fuel(zero_bits_of, 2); }
}
pub enum Truth { Is(PageState), Torn }
pub open spec fn marked<S: NorFlash>(mem: Seq<u8>, a: int) -> bool { zero_bits_of(mem.subrange(a, a + S::READ_SIZE)) >= 4 }
/// what the markers of a page say
pub open spec fn truth<S: NorFlash>(mem: Seq<u8>, g: Geo, p: int) -> Truth {
    match (marked::<S>(mem, paddr(g, p)), marked::<S>(mem, paddr(g, p) + g.e - S::READ_SIZE)) {
        (true, true) => Truth::Is(PageState::Closed),
        (true, false) => Truth::Is(PageState::PartialOpen),
        (false, true) => Truth::Torn,
        (false, false) => Truth::Is(PageState::Open),
    }
}
pub open spec fn truth_result<E>(t: Truth, r: Result<PageState, Error<E>>) -> bool {
    match r { Ok(s) => t == Truth::Is(s), Err(Error::Corrupted { .. }) => t == Truth::Torn, Err(e) => e is Storage }
}
pub open spec fn same_cfg<S: NorFlash, C: CacheImpl<KEY>, KEY>(a: &GenericStorage<S, C, KEY>, b: &GenericStorage<S, C, KEY>) -> bool {
    a.flash_range == b.flash_range && same_region(&a.flash, &b.flash)
}
pub open spec fn blank(m: Seq<u8>, a: int, b: int) -> bool { forall|i: int| #![trigger m[i]] a <= i < b ==> m[i] == 0xFFu8 }
/// all items from here on are popped/removed or unreadable
pub open spec fn dead<S: NorFlash>(mem: Seq<u8>, a: int, end: int) -> bool
    decreases end - a
{
    match scan::<S>(mem, a, end, a, Skip::Erased) {
        Scan::End(x) => true,
        Scan::Found(x, g) => if intact::<S>(mem, x, g) { false } else if a < nxt::<S>(x, g.len as int) <= end { dead::<S>(mem, nxt::<S>(x, g.len as int), end) } else { true },
    }
}
/// the address behind the items of a page
pub open spec fn free_addr<S: NorFlash, C: SealedCacheImpl>(c: &C, mem: Seq<u8>, g: Geo, p: int) -> int {
    match c.wr(p) {
        Some(a) => a as int,
        None => { let a = first_addr(c, g, p); match scan::<S>(mem, a, dend(g, p), a, Skip::All) { Scan::End(x) => x, Scan::Found(x, h) => x } }
    }
}
pub open spec fn first_addr<C: SealedCacheImpl>(c: &C, g: Geo, p: int) -> int { match c.er(p) { Some(a) => a as int, None => dstart(g, p) } }

@insert impl GenericStorage
    pub open spec fn g(&self) -> Geo { geo_of::<S>(self.flash_range) }
    /// what the cache says about the pages is the truth, unless it is marked unreliable
    pub open spec fn wf(&self) -> bool { flash_in(&self.flash, self.g()) && self.cache.inv(self.g()) && (self.cache.is_d() || self.coh()) }
    pub open spec fn coh(&self) -> bool { st_true::<S, C>(&self.cache, self.flash.mem(), self.g()) }

@fn calculate_page_address props=C09,C19
    requires geo_ok(geo_of::<S>(flash_range)), page_index < geo_of::<S>(flash_range).n, // @C19
    ensures r == paddr(geo_of::<S>(flash_range), page_index as int), // @C09
@start
    proof { page_geom(geo_of::<S>(flash_range), page_index as int); }
@fn calculate_page_end_address props=C09,C19
    requires geo_ok(geo_of::<S>(flash_range)), page_index < geo_of::<S>(flash_range).n, // @C19
    ensures r == paddr(geo_of::<S>(flash_range), page_index as int) + S::ERASE_SIZE, // @C09
@start
    proof { page_geom(geo_of::<S>(flash_range), page_index as int); }
@fn calculate_page_index props=C09,C19
    requires geo_ok(geo_of::<S>(flash_range)), flash_range.start <= address, // @C19
    ensures r == pidx(geo_of::<S>(flash_range), address as int), // @C09
@start
    proof { reveal(pidx); }
@fn calculate_page_size props=C19,C18
    requires S::ERASE_SIZE >= 2 * S::WORD_SIZE, // @C19
    ensures r == S::ERASE_SIZE - 2 * S::WORD_SIZE, // @C18
@start
    proof { geometry::<S>(); }
@fn PageState::is_closed props=C14
    ensures r == (self == PageState::Closed),
@fn PageState::is_partial_open props=C14
    ensures r == (self == PageState::PartialOpen),
@fn PageState::is_open props=C14
    ensures r == (self == PageState::Open),

@fn GenericStorage::erase_all props=C09,C14
    requires old(self).wf(), // @C09
    ensures final(self).wf(), same_cfg(final(self), old(self)), // @C09,C14
        r is Ok ==> blank(final(self).flash.mem(), old(self).g().lo, old(self).g().hi), // @C05
        only_changed(old(self).flash.mem(), final(self).flash.mem(), old(self).g().lo, old(self).g().hi), // @C09
        r is Err ==> r->Err_0 is Storage,
        forall|q: int| #![auto] final(self).cache.er(q) is None && final(self).cache.wr(q) is None, // @C14
        forall|q: int| #![auto] 0 <= q < old(self).g().n ==> final(self).cache.st(q) is None, // @C14
@start
    proof { n_e(self.g()); }
@fn GenericStorage::item_overhead_size props=C08
    ensures r == hl::<S>(), // @C08
@start
    proof { geometry::<S>(); }
@fn GenericStorage::try_general_repair props=C09,C19,C10
    requires old(self).wf(), // @C09
    ensures old(self).coh() && r is Ok ==> final(self).coh(), // @C14
        final(self).wf(), same_cfg(final(self), old(self)), // @C09
        only_changed(old(self).flash.mem(), final(self).flash.mem(), old(self).g().lo, old(self).g().hi), // @C09
        r is Err ==> r->Err_0 is Storage, // @C10
        r is Ok && final(self).flash.faults() == old(self).flash.faults() ==> forall|p: int| 0 <= p < old(self).g().n ==> !(#[trigger] truth::<S>(final(self).flash.mem(), old(self).g(), p) is Torn), // @C10
        forall|p: int| 0 <= p < old(self).g().n && !(truth::<S>(old(self).flash.mem(), old(self).g(), p) is Torn) ==> #[trigger] same_page(old(self).flash.mem(), final(self).flash.mem(), old(self).g(), p), // @C10
@loop 0
    invariant old(self).coh() ==> self.coh(), self.wf(), same_cfg(self, old(self)), start__1 == 0, count__1 == self.g().n, i__1 <= count__1,
        repaired_but::<S>(old(self).flash.mem(), self.flash.mem(), old(self).g()), self.flash.faults() >= old(self).flash.faults(),
        repaired::<S>(old(self).flash.mem(), self.flash.mem(), old(self).g(), i__1 as int, self.flash.faults() == old(self).flash.faults()),
    decreases count__1 - i__1,
@start
    proof { repair_start::<S>(self.flash.mem(), self.g()); }
@before `if matches ! (`
    let ghost m0 = self.flash.mem();
    let ghost g = self.g();
    proof {
        n_e(g);
        assert(page_index as int == i__1 - 1);
        repair_fault::<S>(old(self).flash.mem(), m0, g, page_index as int);
        if !(truth::<S>(m0, g, page_index as int) is Torn) { repair_skip::<S>(old(self).flash.mem(), m0, g, page_index as int, self.flash.faults() == old(self).flash.faults()); }
        else {
            assert forall|m1: Seq<u8>| #[trigger] only_changed(m0, m1, paddr(g, page_index as int), paddr(g, page_index as int) + g.e) implies
                repaired_but::<S>(old(self).flash.mem(), m1, g) && (blank(m1, paddr(g, page_index as int), paddr(g, page_index as int) + g.e) ==> repaired::<S>(old(self).flash.mem(), m1, g, page_index + 1, self.flash.faults() == old(self).flash.faults()))
            by { repair_step::<S>(old(self).flash.mem(), m0, m1, g, page_index as int, self.flash.faults() == old(self).flash.faults()); }
        }
    }
@raw
/// pages that were not torn are as they were
pub open spec fn repaired_but<S: NorFlash>(o: Seq<u8>, m: Seq<u8>, g: Geo) -> bool {
    &&& only_changed(o, m, g.lo, g.hi)
    &&& forall|p: int| 0 <= p < g.n && !(truth::<S>(o, g, p) is Torn) ==> #[trigger] same_page(o, m, g, p)
}
/// the first k pages are repaired
pub open spec fn repaired<S: NorFlash>(o: Seq<u8>, m: Seq<u8>, g: Geo, k: int, ok: bool) -> bool {
    &&& repaired_but::<S>(o, m, g)
    &&& forall|p: int| ok && 0 <= p < k && p < g.n ==> !(#[trigger] truth::<S>(m, g, p) is Torn)
    &&& forall|p: int| k <= p < g.n ==> #[trigger] same_page(o, m, g, p)
}
pub proof fn repair_start<S: NorFlash>(o: Seq<u8>, g: Geo)
    ensures repaired::<S>(o, o, g, 0, true), repaired_but::<S>(o, o, g)
{}
pub proof fn repair_skip<S: NorFlash>(o: Seq<u8>, m: Seq<u8>, g: Geo, p: int, ok: bool)
    requires geo_ok(g), 0 <= p < g.n, repaired::<S>(o, m, g, p, ok), !(truth::<S>(m, g, p) is Torn)
    ensures repaired::<S>(o, m, g, p + 1, ok)
{}
pub proof fn repair_step<S: NorFlash>(o: Seq<u8>, m0: Seq<u8>, m1: Seq<u8>, g: Geo, p: int, ok: bool)
    requires geo_ok(g), 0 <= p < g.n, repaired::<S>(o, m0, g, p, ok), truth::<S>(m0, g, p) is Torn, g.hi <= o.len(), g.w == S::WORD_SIZE, g.e == S::ERASE_SIZE,
        only_changed(m0, m1, paddr(g, p), paddr(g, p) + g.e)
    ensures repaired_but::<S>(o, m1, g), blank(m1, paddr(g, p), paddr(g, p) + g.e) ==> repaired::<S>(o, m1, g, p + 1, ok)
{
    page_op::<S>(m0, m1, g, p);
    assert(same_page(o, m0, g, p));
    truth_frame::<S>(o, m0, g, p);
    assert forall|q: int| 0 <= q < g.n && !(truth::<S>(o, g, q) is Torn) implies #[trigger] same_page(o, m1, g, q) by {
        assert(q != p);
        assert(same_page(o, m0, g, q)); assert(same_page(m0, m1, g, q));
    }
    assert forall|q: int| p + 1 <= q < g.n implies #[trigger] same_page(o, m1, g, q) by { assert(same_page(o, m0, g, q)); assert(same_page(m0, m1, g, q)); }
    assert forall|q: int| 0 <= q < p + 1 && q < g.n && blank(m1, paddr(g, p), paddr(g, p) + g.e) && ok implies !(#[trigger] truth::<S>(m1, g, q) is Torn) by {
        if q != p { assert(truth::<S>(m1, g, q) == truth::<S>(m0, g, q)); }
    }
}
pub proof fn repair_fault<S: NorFlash>(o: Seq<u8>, m: Seq<u8>, g: Geo, p: int)
    ensures repaired::<S>(o, m, g, p, false) ==> repaired::<S>(o, m, g, p + 1, false), forall|ok: bool| #[trigger] repaired::<S>(o, m, g, p, ok) ==> repaired::<S>(o, m, g, p, false)
{}
@raw
/// consequences of changing one page only
pub open spec fn page_changed<S: NorFlash>(m0: Seq<u8>, m1: Seq<u8>, g: Geo, p: int) -> bool {
    &&& only_changed(m0, m1, g.lo, g.hi)
    &&& forall|q: int| 0 <= q < g.n && q != p ==> #[trigger] same_page(m0, m1, g, q)
    &&& forall|q: int| 0 <= q < g.n && q != p ==> #[trigger] truth::<S>(m1, g, q) == truth::<S>(m0, g, q)
    &&& blank(m1, paddr(g, p), paddr(g, p) + g.e) ==> truth::<S>(m1, g, p) == Truth::Is(PageState::Open)
}
pub proof fn page_op<S: NorFlash>(m0: Seq<u8>, m1: Seq<u8>, g: Geo, p: int)
    requires geo_ok(g), 0 <= p < g.n, only_changed(m0, m1, paddr(g, p), paddr(g, p) + g.e), g.hi <= m0.len(), g.w == S::WORD_SIZE, g.e == S::ERASE_SIZE
    ensures page_changed::<S>(m0, m1, g, p)
{
    geometry::<S>();
    page_geom(g, p);
    assert forall|q: int| 0 <= q < g.n && q != p implies #[trigger] same_page(m0, m1, g, q) by { page_geom(g, q); pages_disjoint(g, p, q); }
    assert forall|q: int| 0 <= q < g.n && q != p implies #[trigger] truth::<S>(m1, g, q) == truth::<S>(m0, g, q) by { assert(same_page(m0, m1, g, q)); truth_frame::<S>(m0, m1, g, q); }
    if blank(m1, paddr(g, p), paddr(g, p) + g.e) {
        let rs = S::READ_SIZE as int;
        zb_ff(m1.subrange(paddr(g, p), paddr(g, p) + rs));
        zb_ff(m1.subrange(paddr(g, p) + g.e - rs, paddr(g, p) + g.e - rs + rs));
    }
}
pub proof fn pages_disjoint(g: Geo, p: int, q: int)
    requires geo_ok(g), 0 <= p < g.n, 0 <= q < g.n, p != q
    ensures p < q ==> paddr(g, p) + g.e <= paddr(g, q), q < p ==> paddr(g, q) + g.e <= paddr(g, p)
{
    reveal(paddr);
    let e = g.e;
    if p < q { assert(e * p + e <= e * q) by (nonlinear_arith) requires p + 1 <= q, e >= 1; }
    else { assert(e * q + e <= e * p) by (nonlinear_arith) requires q + 1 <= p, e >= 1; }
}
pub proof fn truth_frame<S: NorFlash>(a: Seq<u8>, b: Seq<u8>, g: Geo, p: int)
    requires geo_ok(g), 0 <= p < g.n, same_page(a, b, g, p), g.hi <= a.len(), g.w == S::WORD_SIZE, g.e == S::ERASE_SIZE
    ensures truth::<S>(a, g, p) == truth::<S>(b, g, p)
{
    geometry::<S>(); page_geom(g, p);
    let rs = S::READ_SIZE as int;
    let s = paddr(g, p);
    let t = paddr(g, p) + g.e - rs;
    assert(a.subrange(s, s + rs) =~= b.subrange(s, s + rs));
    assert(a.subrange(t, t + rs) =~= b.subrange(t, t + rs));
}
pub proof fn zb_ff(s: Seq<u8>)
    requires all_ff(s)
    ensures zero_bits_of(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        zb_ff(s.drop_last());
        assert(0xffu8 & 1 != 0 && 0xffu8 & 2 != 0 && 0xffu8 & 4 != 0 && 0xffu8 & 8 != 0 && 0xffu8 & 16 != 0 && 0xffu8 & 32 != 0 && 0xffu8 & 64 != 0 && 0xffu8 & 128 != 0) by (bit_vector);
    }
}
pub open spec fn same_page(a: Seq<u8>, b: Seq<u8>, g: Geo, p: int) -> bool { a.len() == b.len() && forall|i: int| #![trigger b[i]] paddr(g, p) <= i < paddr(g, p) + g.e ==> a[i] == b[i] }

@fn GenericStorage::page_count props=C09,C19
    requires geo_ok(self.g()), // @C19
    ensures r@ == self.g().n,
@start
    proof { n_e(self.g()); }
@fn GenericStorage::get_pages_len props=C09,C19
    requires geo_ok(self.g()),
    ensures r == self.g().n,
@start
    proof { n_e(self.g()); }
@fn GenericStorage::get_pages_at props=C09,C19
    requires geo_ok(self.g()), starting_page_index < self.g().n, index < self.g().n, // @C19
    ensures r == wrap(starting_page_index + index, self.g().n), r < self.g().n, // @C05,C02
@start
    proof { n_e(self.g()); wrap_mod(index + starting_page_index, self.g().n); }
@raw
pub open spec fn wrap(x: int, n: int) -> int { if x < n { x } else { x - n } }
pub proof fn wrap_mod(x: int, n: int)
    requires 0 <= x < 2 * n
    ensures x % n == wrap(x, n)
{
    if x < n { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, n, 1, x - n); }
}
@fn GenericStorage::next_page props=C09,C19
    requires geo_ok(self.g()), page_index < self.g().n, // @C19
    ensures r == wrap(page_index + 1, self.g().n), r < self.g().n, // @C05
@start
    proof { n_e(self.g()); wrap_mod(page_index + 1, self.g().n); }
@fn GenericStorage::previous_page props=C09,C19
    requires geo_ok(self.g()), page_index < self.g().n, // @C19
    ensures r == (if page_index == 0 { self.g().n - 1 } else { page_index - 1 }), r < self.g().n, // @C05
@start
    proof { n_e(self.g()); }

@fn GenericStorage::find_first_page props=C09,C19
    requires old(self).wf(), starting_page_index < old(self).g().n, // @C19
    ensures final(self).wf(), same_cfg(final(self), old(self)), same_flash(&final(self).flash, &old(self).flash), // @C09
        old(self).coh() ==> final(self).coh(), // @C14
        r is Ok && r->Ok_0 is Some ==> r->Ok_0->0 < old(self).g().n, // @C19
        r is Ok && r->Ok_0 is Some ==> (final(self).cache.st(r->Ok_0->0 as int) is Some ==> final(self).cache.st(r->Ok_0->0 as int) == Some(page_state)),
        r is Ok && r->Ok_0 is Some && page_state != PageState::Closed && old(self).coh() ==> some_nc::<S, C>(&final(self).cache, final(self).flash.mem(), final(self).g()), // @C19
        C::exact() && old(self).coh() && r is Ok && r->Ok_0 is Some ==> truth::<S>(old(self).flash.mem(), old(self).g(), r->Ok_0->0 as int) == Truth::Is(page_state), // @C14
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted,
@loop 0
    invariant old(self).coh() ==> self.coh(), self.wf(), same_cfg(self, old(self)), same_flash(&self.flash, &old(self).flash), start__1 == starting_page_index, count__1 == self.g().n, i__1 <= count__1,
    decreases count__1 - i__1,
@fn GenericStorage::find_last_page props=C09,C19
    requires old(self).wf(), starting_page_index < old(self).g().n, // @C19
    ensures final(self).wf(), same_cfg(final(self), old(self)), same_flash(&final(self).flash, &old(self).flash), // @C09
        old(self).coh() ==> final(self).coh(), // @C14
        r is Ok && r->Ok_0 is Some ==> r->Ok_0->0 < old(self).g().n, // @C19
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted,
@loop 0
    invariant old(self).coh() ==> self.coh(), self.wf(), same_cfg(self, old(self)), same_flash(&self.flash, &old(self).flash), start__1 == starting_page_index, count__1 == self.g().n, i__1 <= count__1,
        opt_lt(last_page_index, self.g().n),
    decreases count__1 - i__1,

@fn GenericStorage::get_page_state_cached props=C09,C19,C14
    requires old(self).wf(), page_index < old(self).g().n, // @C19
    ensures final(self).wf(), same_cfg(final(self), old(self)), same_flash(&final(self).flash, &old(self).flash), // @C09
        match old(self).cache.st(page_index as int) {
            Some(s) => r is Ok && r->Ok_0 == s,
            None => truth_result(truth::<S>(old(self).flash.mem(), old(self).g(), page_index as int), r),
        }, // @C14
        r is Ok ==> (final(self).cache.st(page_index as int) is Some ==> final(self).cache.st(page_index as int) == Some(r->Ok_0)), // @C14
        final(self).cache.is_d() == old(self).cache.is_d(), // @C14
        old(self).coh() ==> final(self).coh(), // @C14
        r is Ok && r->Ok_0 != PageState::Closed && old(self).coh() ==> some_nc::<S, C>(&final(self).cache, final(self).flash.mem(), final(self).g()), // @C19
        r is Ok && r->Ok_0 == PageState::Closed && old(self).coh() ==> forall|w: int| #[trigger] nc_at::<S, C>(&old(self).cache, old(self).flash.mem(), old(self).g(), w) ==> nc_at::<S, C>(&final(self).cache, final(self).flash.mem(), final(self).g(), w) && w != page_index, // @C19
        C::exact() && old(self).coh() ==> truth_result(truth::<S>(old(self).flash.mem(), old(self).g(), page_index as int), r), // @C14
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted,
@before `return Ok (cached_page_state)`
    proof { assert(nc(Some(cached_page_state)) && self.coh() ==> nc_at::<S, C>(&self.cache, self.flash.mem(), self.g(), page_index as int)); }
@before `Ok (discovered_state)` n=0
    proof {
        assert(nc(Some(discovered_state)) && C::exact() ==> nc_at::<S, C>(&self.cache, self.flash.mem(), self.g(), page_index as int));
        assert(nc(Some(discovered_state)) && !C::exact() ==> nc_at::<S, C>(&self.cache, self.flash.mem(), self.g(), self.cache.snc()));
    }
@fn GenericStorage::get_page_state props=C09,C19,C10
    requires old(self).wf(), page_index < old(self).g().n, // @C19
    ensures final(self).cache == old(self).cache, final(self).flash_range == old(self).flash_range, same_flash(&final(self).flash, &old(self).flash), // @C09,C14
        truth_result(truth::<S>(old(self).flash.mem(), old(self).g(), page_index as int), r), // @C10,C14
        final(self).flash.faults() == (if r is Err && r->Err_0 is Storage { old(self).flash.faults() + 1 } else { old(self).flash.faults() }),
@start
    let ghost g = self.g();
    let ghost p = page_index as int;
    proof {
        geometry::<S>(); page_geom(g, p);
        let rs = S::READ_SIZE as int;
        al_trans(rs, S::WORD_SIZE as int, paddr(g, p)); al_trans(rs, S::WORD_SIZE as int, paddr(g, p) + g.e);
        al_mul(rs, 1);
        al_add(rs, paddr(g, p) + g.e, rs);
    }
@before `let start_marked`
    assert(buffer@.subrange(0, S::READ_SIZE as int) =~= self.flash.mem().subrange(paddr(g, p), paddr(g, p) + S::READ_SIZE));
@before `let end_marked`
    assert(buffer@.subrange(0, S::READ_SIZE as int) =~= self.flash.mem().subrange(paddr(g, p) + g.e - S::READ_SIZE, paddr(g, p) + g.e));

@fn GenericStorage::open_page props=C09,C14,C07
    requires old(self).wf(), page_index < old(self).g().n, // @C09
    ensures final(self).wf(), same_cfg(final(self), old(self)), // @C09
        only_changed(old(self).flash.mem(), final(self).flash.mem(), paddr(old(self).g(), page_index as int), paddr(old(self).g(), page_index as int) + old(self).g().e), // @C09
        r is Ok ==> blank(final(self).flash.mem(), paddr(old(self).g(), page_index as int), paddr(old(self).g(), page_index as int) + old(self).g().e), // @C05,C07
        r is Err ==> r->Err_0 is Storage,
        final(self).flash.faults() == (if r is Err { old(self).flash.faults() + 1 } else { old(self).flash.faults() }),
        final(self).cache.is_d(), // @C14
        old(self).coh() && r is Ok ==> final(self).coh(), // @C14
@start
    let ghost g = self.g();
    let ghost m0 = self.flash.mem();
    proof { page_geom(g, page_index as int); }
@before `Ok (())`
    proof { truth_markers::<S>(m0, self.flash.mem(), g, page_index as int); }
@fn GenericStorage::close_page props=C09,C14,C07
    requires old(self).wf(), page_index < old(self).g().n, // @C09
    ensures final(self).wf(), same_cfg(final(self), old(self)), // @C09
        markers_changed::<S>(old(self).flash.mem(), final(self).flash.mem(), old(self).g(), page_index as int), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted,
        r is Ok && old(self).cache.st(page_index as int) is None && truth::<S>(old(self).flash.mem(), old(self).g(), page_index as int) == Truth::Is(PageState::Open)
            ==> wrote_marker(old(self).flash.mem(), final(self).flash.mem(), paddr(old(self).g(), page_index as int), old(self).g().w)
                && wrote_marker(old(self).flash.mem(), final(self).flash.mem(), dend(old(self).g(), page_index as int), old(self).g().w), // @C07,C10
        old(self).coh() && r is Ok ==> final(self).coh(), // @C14
        C::exact() && old(self).coh() && r is Ok ==> truth::<S>(final(self).flash.mem(), old(self).g(), page_index as int) == Truth::Is(PageState::Closed), // @C05,C07
@start
    let ghost g = self.g();
    proof { zeros(); geometry::<S>(); page_geom(g, page_index as int); }
@before `self . cache . notice_page_state (`
    let ghost m1 = self.flash.mem();
@before `Ok (())` n=1
    proof { truth_markers::<S>(m1, self.flash.mem(), g, page_index as int); }
@fn GenericStorage::partial_close_page props=C09,C14,C07
    requires old(self).wf(), page_index < old(self).g().n, // @C09
    ensures final(self).wf(), same_cfg(final(self), old(self)), // @C09
        only_changed(old(self).flash.mem(), final(self).flash.mem(), paddr(old(self).g(), page_index as int), paddr(old(self).g(), page_index as int) + old(self).g().w), // @C09
        r is Ok ==> r->Ok_0 != PageState::Open && (final(self).cache.st(page_index as int) is Some ==> final(self).cache.st(page_index as int) == Some(r->Ok_0)), // @C14
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted,
        r is Ok ==> match old(self).cache.st(page_index as int) {
            Some(PageState::Open) => r->Ok_0 == PageState::PartialOpen && wrote_marker(old(self).flash.mem(), final(self).flash.mem(), paddr(old(self).g(), page_index as int), old(self).g().w),
            Some(s) => r->Ok_0 == s && final(self).flash.mem() == old(self).flash.mem(),
            None => match truth::<S>(old(self).flash.mem(), old(self).g(), page_index as int) {
                Truth::Is(PageState::Open) => r->Ok_0 == PageState::PartialOpen && wrote_marker(old(self).flash.mem(), final(self).flash.mem(), paddr(old(self).g(), page_index as int), old(self).g().w),
                Truth::Is(s) => r->Ok_0 == s && final(self).flash.mem() == old(self).flash.mem(),
                Truth::Torn => false,
            },
        }, // @C07,C10
        old(self).coh() && r is Ok ==> final(self).coh(), // @C14
        C::exact() && old(self).coh() && r is Ok ==> truth::<S>(final(self).flash.mem(), old(self).g(), page_index as int) == Truth::Is(r->Ok_0), // @C05,C07
@start
    let ghost g = self.g();
    proof { zeros(); geometry::<S>(); page_geom(g, page_index as int); }
@before `self . cache . notice_page_state (`
    let ghost m1 = self.flash.mem();
@before `Ok (new_state)`
    proof { truth_markers::<S>(m1, self.flash.mem(), g, page_index as int); }
@raw
pub proof fn zeros()
    ensures forall|x: u8| #[trigger] programmed(x, 0u8) == 0u8
{
    assert forall|x: u8| #[trigger] programmed(x, 0u8) == 0u8 by { assert(x & 0u8 == 0u8) by (bit_vector); }
}
pub open spec fn wrote_marker(old: Seq<u8>, new: Seq<u8>, a: int, w: int) -> bool { forall|i: int| #![trigger new[i]] a <= i < a + w ==> new[i] == 0u8 }
pub open spec fn markers_changed<S: NorFlash>(old: Seq<u8>, new: Seq<u8>, g: Geo, p: int) -> bool {
    new.len() == old.len() && forall|i: int| #![trigger new[i]] 0 <= i < new.len() && !(paddr(g, p) <= i < dstart(g, p)) && !(dend(g, p) <= i < dend(g, p) + g.w) ==> new[i] == old[i]
}
@fn GenericStorage::destroy props=C10
    ensures r.0 == self.flash, r.1 == self.cache,
@fn GenericStorage::flash_range props=C09
    ensures r == self.flash_range,
@raw
pub open spec fn opt_lt(x: Option<usize>, n: int) -> bool { x is Some ==> x->0 < n }
