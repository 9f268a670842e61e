# src/queue/mod.rs
@insert impl GenericStorage
    pub open spec fn ok_after(&self, o: &Self) -> bool {
        &&& self.wf()
        &&& same_cfg(self, o)
        &&& only_changed(o.flash.mem(), self.flash.mem(), o.g().lo, o.g().hi)
    }
    pub open spec fn ok_same(&self, o: &Self) -> bool {
        &&& self.wf()
        &&& same_cfg(self, o)
        &&& same_flash(&self.flash, &o.flash)
        &&& o.coh() ==> self.coh()
    }
@raw
/// what a valid flash range is
pub open spec fn q_range_ok<S: NorFlash>(r: Range<u32>) -> bool {
    &&& al(S::ERASE_SIZE as int, r.start as int) && al(S::ERASE_SIZE as int, r.end as int)
    &&& r.start < r.end
    &&& S::ERASE_SIZE >= 3 * S::WORD_SIZE + up(S::WORD_SIZE as int, 8)
    &&& S::WORD_SIZE <= 32
}
pub proof fn q_range_geo<S: NorFlash>(r: Range<u32>)
    requires q_range_ok::<S>(r), r.end <= u32::MAX - 0x2_0000
    ensures geo_ok(geo_of::<S>(r))
{
    geometry::<S>();
}
/// a range on page boundaries that is not empty holds at least a page
pub proof fn q_range_page(e: int, a: int, b: int)
    requires e >= 1, al(e, a), al(e, b)
    ensures a < b <==> b - a >= e
{
    if a < b { al_gap(e, a, b); }
}
/// data that can't be stored as one item
pub open spec fn q_too_big<S: NorFlash>(len: int) -> bool { len > 0xffff || len > S::ERASE_SIZE - 2 * S::WORD_SIZE - hl::<S>() }

/// a cache that says nothing about the pages says nothing wrong
pub broadcast proof fn coh_none<S: NorFlash, C: SealedCacheImpl>(c: &C, mem: Seq<u8>, g: Geo)
    requires forall|p: int| 0 <= p < g.n ==> (#[trigger] c.st(p)) is None
    ensures #[trigger] st_true::<S, C>(c, mem, g)
{}
pub broadcast proof fn coh_same<S: NorFlash, C: SealedCacheImpl>(a: &C, b: &C, mem: Seq<u8>, g: Geo)
    requires #[trigger] st_true::<S, C>(a, mem, g), forall|q: int| #[trigger] b.st(q) == a.st(q)
    ensures #[trigger] st_true::<S, C>(b, mem, g)
{}
pub broadcast proof fn oc_refl(a: Seq<u8>, lo: int, hi: int)
    ensures #[trigger] only_changed(a, a, lo, hi)
{}
pub broadcast proof fn oc_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, l1: int, h1: int, l2: int, h2: int, lo: int, hi: int)
    requires #[trigger] only_changed(a, b, l1, h1), #[trigger] only_changed(b, c, l2, h2), lo <= l1, h1 <= hi, lo <= l2, h2 <= hi
    ensures #[trigger] only_changed(a, c, lo, hi)
{}
pub broadcast proof fn ptr_page(g: Geo, p: int, a: int)
    requires geo_ok(g), 0 <= p < g.n, #[trigger] ptr_in(g, p, a)
    ensures pidx(g, a) == p, g.lo <= a, a <= g.hi
{
    page_geom(g, p);
    page_is(g, a, p);
}
/// the start of a page
pub proof fn page_start(g: Geo, p: int)
    requires geo_ok(g), 0 <= p < g.n
    ensures ptr_in(g, p, dstart(g, p)), dstart(g, p) + up(g.w, 8) <= dend(g, p), g.lo <= paddr(g, p), paddr(g, p) + g.e <= g.hi, pidx(g, dstart(g, p)) == p
{
    page_geom(g, p);
    up_props(g.w, 8);
    ptr_page(g, p, dstart(g, p));
}
pub proof fn page_total(g: Geo, i: int)
    requires geo_ok(g), 0 <= i <= g.n
    ensures 0 <= i * (g.e - 2 * g.w) <= g.hi - g.lo, (i + 1) * (g.e - 2 * g.w) == i * (g.e - 2 * g.w) + (g.e - 2 * g.w)
{
    n_e(g);
    assert((i + 1) * (g.e - 2 * g.w) == i * (g.e - 2 * g.w) + (g.e - 2 * g.w)) by (nonlinear_arith);
    assert(0 <= i * (g.e - 2 * g.w)) by (nonlinear_arith) requires i >= 0, g.e - 2 * g.w >= 0;
    assert(i * (g.e - 2 * g.w) <= i * g.e) by (nonlinear_arith) requires i >= 0, g.e - 2 * g.w <= g.e;
    assert(i * g.e <= g.e * g.n) by (nonlinear_arith) requires i <= g.n, g.e >= 0;
}
@fn QueueConfig::try_new props=C18,C19
    ensures r is Ok <==> q_range_ok::<S>(flash_range), // @C18
        r is Ok ==> r->Ok_0.flash_range == flash_range, // @C18
        match r {
            Err(QueueConfigError::StartRangeNotAtPageBoundary) => !al(S::ERASE_SIZE as int, flash_range.start as int),
            Err(QueueConfigError::EndRangeNotAtPageBoundary) => !al(S::ERASE_SIZE as int, flash_range.end as int),
            Err(QueueConfigError::RangeTooSmall) => flash_range.start >= flash_range.end,
            Err(QueueConfigError::PagesTooSmall) => S::ERASE_SIZE < 3 * S::WORD_SIZE + up(S::WORD_SIZE as int, 8),
            Err(QueueConfigError::WordSizeTooLarge) => S::WORD_SIZE > 32,
            Ok(_) => true,
        }, // @C18
@start
    proof { geometry::<S>(); reveal(al); if al(S::ERASE_SIZE as int, flash_range.start as int) && al(S::ERASE_SIZE as int, flash_range.end as int) { q_range_page(S::ERASE_SIZE as int, flash_range.start as int, flash_range.end as int); } }
@fn QueueConfig::new props=C18
    requires q_range_ok::<S>(flash_range), // @C18
    ensures r.flash_range == flash_range, // @C18
@insert impl QueueStorage
    pub open spec fn wf(&self) -> bool { self.inner.wf() }
@fn QueueStorage::new props=C09
    requires q_range_ok::<S>(config.flash_range), config.flash_range.end <= u32::MAX - 0x2_0000,
        storage.lo() == config.flash_range.start, storage.hi() == config.flash_range.end, storage.hi() <= storage.mem().len(), cache.inv(geo_of::<S>(config.flash_range)),
        cache.is_d() || st_true::<S, C>(&cache, storage.mem(), geo_of::<S>(config.flash_range)),
    ensures r.wf(), r.inner.flash == storage, r.inner.cache == cache, r.inner.flash_range == config.flash_range, // @C09
@start
    proof { q_range_geo::<S>(config.flash_range); geometry::<S>(); }
@fn QueueStorage::flash_range props=C09
    ensures r == self.inner.flash_range,
@fn QueueStorage::destroy props=C10
    ensures r.0 == self.inner.flash, r.1 == self.inner.cache,
@fn QueueStorage::item_overhead_size props=C08
    ensures r == hl::<S>(), // @C08
@fn GenericStorage::flash props=C09
    ensures *r == old(self).flash, *final(r) == final(self).flash, final(self).cache == old(self).cache, final(self).flash_range == old(self).flash_range,
@fn QueueStorage::flash props=C09
    ensures *r == old(self).inner.flash, *final(r) == final(self).inner.flash, final(self).inner.cache == old(self).inner.cache, final(self).inner.flash_range == old(self).inner.flash_range,
@fn QueueStorage::erase_all props=C09,C05
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Ok ==> blank(final(self).inner.flash.mem(), old(self).inner.g().lo, old(self).inner.g().hi), // @C05
        r is Err ==> r->Err_0 is Storage, // @C19
@fn QueueStorage::try_repair props=C09,C10,C19
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage, // @C19
        r is Ok && final(self).inner.flash.faults() == old(self).inner.flash.faults() ==> forall|p: int| 0 <= p < old(self).inner.g().n ==> !(#[trigger] truth::<S>(final(self).inner.flash.mem(), old(self).inner.g(), p) is Torn), // @C10
        forall|p: int| 0 <= p < old(self).inner.g().n && !(truth::<S>(old(self).inner.flash.mem(), old(self).inner.g(), p) is Torn) ==> #[trigger] same_page(old(self).inner.flash.mem(), final(self).inner.flash.mem(), old(self).inner.g(), p), // @C10
@fn QueueStorage::find_youngest_page props=C09,C19
    requires old(self).wf(), // @C09
    ensures final(self).inner.ok_same(&old(self).inner), // @C09
        r is Ok ==> r->Ok_0 < old(self).inner.g().n, // @C19
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@start
    proof { n_e(self.inner.g()); }
@fn QueueStorage::find_oldest_page props=C09,C19
    requires old(self).wf(), // @C09
    ensures final(self).inner.ok_same(&old(self).inner), // @C09
        r is Ok ==> r->Ok_0 < old(self).inner.g().n, // @C19
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@fn QueueStorage::find_start_address props=C09,C19
    requires old(self).wf(), // @C09
    ensures final(self).inner.ok_same(&old(self).inner), // @C09
        r is Ok ==> na_ok(old(self).inner.g(), r->Ok_0), // @C09,C19
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@before `let current_address = match`
    proof {
        let g = self.inner.g();
        let p = oldest_page as int;
        self.inner.cache.inv_law(g, p); page_start(g, p);
        assert forall|a: int| #[trigger] ptr_in(g, p, a) implies pidx(g, a) == p by { ptr_page(g, p, a); }
    }
@fn QueueStorage::max_data_length props=C08,C19
    ensures match r {
            Some(n) => forall|len: int| 0 <= len <= 0xffff ==> ((len <= n) == #[trigger] fits::<S>(total_available as int, len)), // @C08
            None => !fits::<S>(total_available as int, 0), // @C08
        },
        r is Some ==> r->0 <= 0xffff, // @C18
@start
    proof { geometry::<S>(); }
@fn QueueStorage::push_inner props=C09,C19,C18,C06 attr=verifier::spinoff_prover
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err && r->Err_0 is ItemTooBig <==> q_too_big::<S>(data@.len() as int), // @C18
        r is Err && r->Err_0 is ItemTooBig ==> final(self).inner.flash.mem() == old(self).inner.flash.mem(), // @C18
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted || r->Err_0 is ItemTooBig || r->Err_0 is FullStorage, // @C19
        r is Err && r->Err_0 is FullStorage ==> !allow_overwrite_old_data, // @C06
        r is Ok ==> exists|a: int, p: int, d: Seq<u8>| (#[trigger] pushed_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, p, d)) && d == data@, // @C05,C12
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(pushed_here); hide(st_true);
    broadcast use page_geom, coh_none, coh_same;
    proof { geometry::<S>(); n_e(self.inner.g()); }
@before `self . inner . partial_close_page ( current_page`
    proof {
        page_start(self.inner.g(), current_page as int); ptr_page(self.inner.g(), current_page as int, dstart(self.inner.g(), current_page as int));
        let (w, e) = (S::WORD_SIZE as int, S::ERASE_SIZE as int);
        al_add(w, e, w); al_add(w, e - w, w); al_add(w, e - w - w, hl::<S>());
        up_le(w, data@.len() as int, e - w - w - hl::<S>());
        assert(forall|p: int| 0 <= p < self.inner.g().n ==> item_in(self.inner.g(), p, #[trigger] dstart(self.inner.g(), p), data@.len() as int));
    }
@before `Ok(())`
    proof {
        let p = choose|p: int| #[trigger] pushed_here::<S>(self.inner.flash.mem(), self.inner.g(), next_address->0 as int, p, data@);
        assert(pushed_here::<S>(self.inner.flash.mem(), self.inner.g(), next_address->0 as int, p, data@));
    }
@fn QueueStorage::push props=C09,C19,C18,C06
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err && r->Err_0 is ItemTooBig <==> q_too_big::<S>(data@.len() as int), // @C18
        r is Err && r->Err_0 is ItemTooBig ==> final(self).inner.flash.mem() == old(self).inner.flash.mem(), // @C18
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted || r->Err_0 is ItemTooBig || r->Err_0 is FullStorage, // @C19
        r is Err && r->Err_0 is FullStorage ==> !allow_overwrite_old_data, // @C06
        r is Ok ==> exists|a: int, p: int, d: Seq<u8>| (#[trigger] pushed_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, p, d)) && d == data@, // @C05,C12
@fn QueueStorage::find_max_fit_inner props=C09,C19,C08
    requires old(self).wf(), // @C09
    ensures final(self).inner.ok_same(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@start
    hide(st_true);
    broadcast use page_geom, ptr_page, coh_none, coh_same;
    proof { geometry::<S>(); n_e(self.inner.g()); }
@before `let next_item_address`
    proof { self.inner.cache.inv_law(self.inner.g(), current_page as int); page_start(self.inner.g(), current_page as int); }
@fn QueueStorage::find_max_fit props=C09,C19,C08
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@fn QueueStorage::space_left_inner props=C09,C19,C08
    requires old(self).wf(), // @C09
    ensures final(self).inner.ok_same(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@loop 0
    invariant self.inner.ok_same(&old(self).inner), self.inner.coh(), start__1 == 0, count__1 == self.inner.g().n, i__1 <= count__1,
        total_free_space <= i__1 * (self.inner.g().e - 2 * self.inner.g().w),
    decreases count__1 - i__1,
@start
    hide(st_true);
    broadcast use page_geom, ptr_page, coh_none, coh_same;
    proof { geometry::<S>(); n_e(self.inner.g()); }
@body 0
    broadcast use page_geom, ptr_page;
    proof { page_total(self.inner.g(), i__1 as int); page_total(self.inner.g(), i__1 + 1); page_start(self.inner.g(), i__1 as int); }
@end
@before `let next_item_address`
    proof { self.inner.cache.inv_law(self.inner.g(), page as int); }
@fn QueueStorage::space_left props=C09,C19,C08
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
# ------------------------------------------------------------ iterating
@raw
pub open spec fn na_ok(g: Geo, na: NextAddress) -> bool {
    match na { NextAddress::Address(a) => 0 <= pidx(g, a as int) < g.n && ptr_in(g, pidx(g, a as int), a as int), NextAddress::PageAfter(p) => p < g.n }
}
pub open spec fn na_page(g: Geo, na: NextAddress) -> int { match na { NextAddress::Address(a) => pidx(g, a as int), NextAddress::PageAfter(p) => p as int } }
/// how many pages follow before the oldest page is reached again
pub open spec fn pages_left(n: int, oldest: int, p: int) -> int { if p < oldest { oldest - p - 1 } else { oldest - p - 1 + n } }
pub open spec fn na_left(g: Geo, na: NextAddress) -> int {
    match na { NextAddress::Address(a) => imax(0, dend(g, pidx(g, a as int)) - a) + 1, NextAddress::PageAfter(p) => 0 }
}
@insert impl QueueIterator
    pub open spec fn iinv(&self) -> bool { self.storage.wf() && self.oldest_page < self.storage.inner.g().n && na_ok(self.storage.inner.g(), self.next_address) }
@fn QueueIterator::new props=C09,C19
    requires old(storage).wf(), // @C09
    ensures match r {
            Ok(it) => it.iinv() && it.storage.inner.ok_after(&old(storage).inner) && *final(it.storage) == *final(storage), // @C09
            Err(e) => final(storage).wf() && final(storage).inner.ok_after(&old(storage).inner) && (e is Storage || e is Corrupted), // @C09,C19
        },
@start
    broadcast use ptr_page;
@fn QueueStorage::iter props=C09,C19
    requires old(self).wf(), // @C09
    ensures match r {
            Ok(it) => it.iinv() && it.storage.inner.ok_after(&old(self).inner) && *final(it.storage) == *final(self), // @C09
            Err(e) => final(self).wf() && final(self).inner.ok_after(&old(self).inner) && (e is Storage || e is Corrupted), // @C09,C19
        },
@fn QueueIterator::next_inner props=C09,C19,C05,C13 attr=verifier::spinoff_prover
    requires old(self).iinv(), // @C09
    ensures final(self).iinv(), final(self).storage.inner.ok_after(&old(self).storage.inner), final(self).oldest_page == old(self).oldest_page, // @C09
        *final(final(self).storage) == *final(old(self).storage),
        final(data_buffer)@.len() == old(data_buffer)@.len(),
        match r {
            Ok(Some((item, address))) => final(self).storage.inner.coh() && item_in(final(self).storage.inner.g(), pidx(final(self).storage.inner.g(), address as int), address as int, item.header.length as int)
                && item.header.length <= final(data_buffer)@.len()
                && final(data_buffer)@.subrange(0, item.header.length as int) == item_data::<S>(final(self).storage.inner.flash.mem(), address as int, item.header.gh())
                && intact::<S>(final(self).storage.inner.flash.mem(), address as int, item.header.gh()), // @C13,C05
            Ok(None) => true,
            Err(e) => e is Storage || e is Corrupted || e is BufferTooSmall, // @C19
        },
@loop 0
    invariant self.iinv(), self.storage.inner.coh(), self.storage.inner.ok_after(&old(self).storage.inner), self.oldest_page == old(self).oldest_page, *final(self.storage) == *final(old(self).storage), g == self.storage.inner.g(), g == old(self).storage.inner.g(), g.n >= 1,
        data_buffer@.len() == old(data_buffer)@.len(),
    decreases pages_left(self.storage.inner.g().n, self.oldest_page as int, na_page(self.storage.inner.g(), self.next_address)), na_left(self.storage.inner.g(), self.next_address),
@start
    hide(hdr_at); hide(intact); hide(only_changed); hide(blank); hide(st_true);
    broadcast use oc_refl, oc_trans, coh_none, coh_same;
    let ghost g = self.storage.inner.g();
    proof { geometry::<S>(); n_e(g); }
@body 0
    proof { assert(self.storage.inner.g() == g); page_start(g, na_page(g, self.next_address)); page_start(g, wrap(na_page(g, self.next_address) + 1, g.n)); }
@before `let page_data_end_address`
    proof { page_start(g, current_page as int); assert(ptr_in(g, current_page as int, current_address as int)); assert(na_page(g, self.next_address) == current_page); }
@before `let maybe_item`
    proof {
        nxt_props::<S>(found_item_address as int, found_item_header.length as int);
        assert(item_in(g, current_page as int, found_item_address as int, found_item_header.length as int));
        item_place(g, current_page as int, found_item_address as int, found_item_header.length as int);
        ptr_page(g, current_page as int, nxt::<S>(found_item_address as int, found_item_header.length as int));
    }
@end
@fn QueueIterator::next props=C09,C19,C05,C13
    requires old(self).iinv(), // @C09
    ensures match r {
            Ok(Some(e)) => e.einv() && e.iter.storage.inner.ok_after(&old(self).storage.inner) && *final(e.iter) == *final(self) && *final(e.iter.storage) == *final(old(self).storage)
                && e.item.dat() == item_data::<S>(e.iter.storage.inner.flash.mem(), e.address as int, e.item.header.gh()) && intact::<S>(e.iter.storage.inner.flash.mem(), e.address as int, e.item.header.gh())
                && e.item.dat().len() <= old(data_buffer)@.len() && same_buffer(old(data_buffer)@, final(data_buffer)@, final(e.item.item_data_buffer)@), // @C13
            Ok(None) => final(data_buffer)@.len() == old(data_buffer)@.len() && final(self).iinv() && final(self).storage.inner.ok_after(&old(self).storage.inner) && *final(final(self).storage) == *final(old(self).storage),
            Err(e) => final(data_buffer)@.len() == old(data_buffer)@.len() && final(self).iinv() && final(self).storage.inner.ok_after(&old(self).storage.inner) && *final(final(self).storage) == *final(old(self).storage)
                && (e is Storage || e is Corrupted || e is BufferTooSmall), // @C19
        },
@raw
/// the flash contains an intact item with this data
pub open spec fn item_here<S: NorFlash>(mem: Seq<u8>, g: Geo, a: int, h: GH, d: Seq<u8>) -> bool {
    item_in(g, pidx(g, a), a, h.len as int) && intact::<S>(mem, a, h) && d == item_data::<S>(mem, a, h)
}
/// an intact item with this data was just marked as erased
pub open spec fn popped_here<S: NorFlash>(mem: Seq<u8>, g: Geo, a: int, h: GH, d: Seq<u8>) -> bool {
    exists|m0: Seq<u8>| item_here::<S>(m0, g, a, h, d) && #[trigger] wrote(m0, mem, a, hdr_bytes::<S>(GH { len: h.len, crc: 0 }))
}
@insert impl QueueIteratorEntry
    pub open spec fn einv(&self) -> bool {
        self.iter.iinv() && self.iter.storage.inner.coh() && item_in(self.iter.storage.inner.g(), pidx(self.iter.storage.inner.g(), self.address as int), self.address as int, self.item.header.length as int)
    }
@fn QueueIteratorEntry::Deref::deref props=C13
    ensures r@ == self.item.dat(), // @C13
@fn QueueIteratorEntry::DerefMut::deref_mut props=C13
    ensures r@ == old(self).item.dat(), // @C13
@fn QueueIteratorEntry::into_buf props=C13
    ensures r@ == self.item.dat(), *final(self.iter) == *old(self.iter), final(self.item.item_data_buffer)@ == final(r)@, // @C13
@fn QueueIteratorEntry::pop props=C09,C11,C19
    requires self.einv(), // @C09
    ensures final(self.iter).iinv(), final(self.iter).storage.inner.ok_after(&old(self.iter).storage.inner), *final(final(self.iter).storage) == *final(old(self.iter).storage), // @C09
        only_changed(old(self.iter).storage.inner.flash.mem(), final(self.iter).storage.inner.flash.mem(), self.address as int, self.address + hl::<S>()), // @C11
        r is Ok ==> r->Ok_0@ == self.item.dat() && final(self.item.item_data_buffer)@ == final(r->Ok_0)@, // @C05
        r is Ok ==> wrote(old(self.iter).storage.inner.flash.mem(), final(self.iter).storage.inner.flash.mem(), self.address as int, hdr_bytes::<S>(GH { len: self.item.header.length, crc: 0 })), // @C05,C12
        r is Err ==> r->Err_0 is Storage, // @C19
        r is Ok && intact::<S>(old(self.iter).storage.inner.flash.mem(), self.address as int, self.item.header.gh()) && self.item.dat() == item_data::<S>(old(self.iter).storage.inner.flash.mem(), self.address as int, self.item.header.gh())
            ==> popped_here::<S>(final(self.iter).storage.inner.flash.mem(), old(self.iter).storage.inner.g(), self.address as int, self.item.header.gh(), self.item.dat()), // @C05
@start
    broadcast use coh_same;
    proof { let g = self.iter.storage.inner.g(); item_place(g, pidx(g, self.address as int), self.address as int, self.item.header.length as int); geometry::<S>(); up_props(g.w, self.item.header.length as int); }
@fn QueueStorage::peek props=C09,C19,C05
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted || r->Err_0 is BufferTooSmall, // @C19
        final(data_buffer)@.len() == old(data_buffer)@.len(),
        r is Ok && r->Ok_0 is Some ==> same_buffer(old(data_buffer)@, final(data_buffer)@, final(r->Ok_0->0)@),
        r is Ok && r->Ok_0 is Some ==> r->Ok_0->0@.len() <= old(data_buffer)@.len(),
        r is Ok && r->Ok_0 is Some ==> exists|a: int, h: GH, d: Seq<u8>| (#[trigger] item_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, h, d)) && d == r->Ok_0->0@, // @C05,C13
@before `Ok(Some(entry.into_buf()))`
    { proof { let ghost h = entry.item.header.gh(); assert(item_here::<S>(entry.iter.storage.inner.flash.mem(), entry.iter.storage.inner.g(), entry.address as int, h, entry.item.dat())); }
@after `Ok(Some(entry.into_buf()))`
    }
@fn QueueStorage::pop props=C09,C19,C05
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted || r->Err_0 is BufferTooSmall, // @C19
        final(data_buffer)@.len() == old(data_buffer)@.len(),
        r is Ok && r->Ok_0 is Some ==> same_buffer(old(data_buffer)@, final(data_buffer)@, final(r->Ok_0->0)@),
        r is Ok && r->Ok_0 is Some ==> r->Ok_0->0@.len() <= old(data_buffer)@.len(),
        r is Ok && r->Ok_0 is Some ==> exists|a: int, h: GH, d: Seq<u8>| (#[trigger] popped_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, h, d)) && d == r->Ok_0->0@, // @C05,C13
@before `Ok(Some(entry.pop()?))`
    { proof { let ghost h = entry.item.header.gh(); assert(item_here::<S>(entry.iter.storage.inner.flash.mem(), entry.iter.storage.inner.g(), entry.address as int, h, entry.item.dat())); }
@after `Ok(Some(entry.pop()?))`
    }
