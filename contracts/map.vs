# src/map.rs
@raw
/// what the question mark does with an error: it converts it by From::from, as the language defines (trusted)
pub broadcast axiom fn question_mark_converts<S, T: From<S>>(v: S, r: T)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(v, r) ==> call_ensures(<T as From<S>>::from, (v,), r);
/// what a valid flash range for a map is
pub open spec fn m_range_ok<S: NorFlash>(r: Range<u32>) -> bool {
    &&& al(S::ERASE_SIZE as int, r.start as int) && al(S::ERASE_SIZE as int, r.end as int)
    &&& r.start + 2 * S::ERASE_SIZE <= r.end
    &&& S::ERASE_SIZE >= 3 * S::WORD_SIZE + up(S::WORD_SIZE as int, 8)
    &&& S::WORD_SIZE <= 32
}
pub proof fn m_range_geo<S: NorFlash>(r: Range<u32>)
    requires m_range_ok::<S>(r), r.end <= u32::MAX - 0x2_0000
    ensures geo_ok(geo_of::<S>(r)), geo_of::<S>(r).n >= 2
{
    geometry::<S>();
    let g = geo_of::<S>(r);
    n_e(g);
    assert(g.n >= 2) by (nonlinear_arith) requires g.e * g.n == g.hi - g.lo, g.hi - g.lo >= 2 * g.e, g.e > 0;
}
/// an intact item of the map is at this address
pub open spec fn m_item<S: NorFlash>(mem: Seq<u8>, g: Geo, a: int, h: GH) -> bool {
    &&& 0 <= pidx(g, a) < g.n && item_in(g, pidx(g, a), a, h.len as int)
    &&& hdr_at::<S>(mem, a, dend(g, pidx(g, a))) == Hdr::Item(h)
    &&& intact::<S>(mem, a, h)
}
/// a reader that may look further sees the same item
pub proof fn hdr_wider<S: NorFlash>(mem: Seq<u8>, a: int, end: int, end2: int)
    requires hdr_at::<S>(mem, a, end) is Item, end <= end2
    ensures hdr_at::<S>(mem, a, end2) == hdr_at::<S>(mem, a, end)
{}
pub broadcast proof fn mc_oc<S: NorFlash>(old: Seq<u8>, new: Seq<u8>, g: Geo, p: int)
    requires #[trigger] markers_changed::<S>(old, new, g, p), g.e >= 2 * g.w, g.w > 0
    ensures only_changed(old, new, paddr(g, p), paddr(g, p) + g.e)
{}
/// keeps the hidden functions known to the solver
pub open spec fn touch<S: NorFlash>() -> bool { let m: Seq<u8> = Seq::empty(); hdr_at::<S>(m, 0, 0) is End || intact::<S>(m, 0, GH { len: 0, crc: 0 }) || blank(m, 0, 0) || wrote(m, m, 0, m) || only_changed(m, m, 0, 0) }
pub proof fn m_item_props<S: NorFlash>(mem: Seq<u8>, g: Geo, a: int, h: GH)
    requires m_item::<S>(mem, g, a, h), geo_ok(g), g.w == S::WORD_SIZE
    ensures h.crc != 0, intact::<S>(mem, a, h), head_in(g, a), 0 < a, 0 <= pidx(g, a) < g.n, hdr_at::<S>(mem, a, u32::MAX as int) == Hdr::Item(h) || dend(g, pidx(g, a)) > u32::MAX,
        g.lo <= a, nxt::<S>(a, h.len as int) <= g.hi, al(g.w, a), dstart(g, pidx(g, a)) <= a, nxt::<S>(a, h.len as int) <= dend(g, pidx(g, a))
{
    let p = pidx(g, a);
    item_place(g, p, a, h.len as int); page_start(g, p); geometry::<S>(); up_props(g.w, h.len as int);
    if dend(g, p) <= u32::MAX { hdr_wider::<S>(mem, a, dend(g, p), u32::MAX as int); }
}
pub proof fn m_place<S: NorFlash>(mem: Seq<u8>, g: Geo, p: int, a: int, h: GH)
    requires geo_ok(g), 0 <= p < g.n, dstart(g, p) <= a, al(g.w, a), g.w == S::WORD_SIZE,
        hdr_at::<S>(mem, a, dend(g, p)) == Hdr::Item(h), nxt::<S>(a, h.len as int) <= dend(g, p), intact::<S>(mem, a, h)
    ensures m_item::<S>(mem, g, a, h), pidx(g, a) == p
{
    assert(item_in(g, p, a, h.len as int));
    item_place(g, p, a, h.len as int);
}
impl<S> vstd::std_specs::convert::FromSpecImpl<SerializationError> for Error<S> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SerializationError) -> Self { Error::SerializationError(v) }
}
@fn Error::From::from props=C19
    ensures r == Error::<S>::SerializationError(v),
@fn MapConfig::try_new props=C18,C19
    ensures r is Ok <==> m_range_ok::<S>(flash_range), // @C18
        r is Ok ==> r->Ok_0.flash_range == flash_range, // @C18
        match r {
            Err(MapConfigError::StartRangeNotAtPageBoundary) => !al(S::ERASE_SIZE as int, flash_range.start as int),
            Err(MapConfigError::EndRangeNotAtPageBoundary) => !al(S::ERASE_SIZE as int, flash_range.end as int),
            Err(MapConfigError::RangeTooSmall) => flash_range.start + 2 * S::ERASE_SIZE > flash_range.end,
            Err(MapConfigError::PagesTooSmall) => S::ERASE_SIZE < 3 * S::WORD_SIZE + up(S::WORD_SIZE as int, 8),
            Err(MapConfigError::WordSizeTooLarge) => S::WORD_SIZE > 32,
            Ok(_) => true,
        }, // @C18
@start
    proof { geometry::<S>(); reveal(al); }
@fn MapConfig::new props=C18
    requires m_range_ok::<S>(flash_range), // @C18
    ensures r.flash_range == flash_range, // @C18
@insert impl MapStorage
    pub open spec fn wf(&self) -> bool { self.inner.wf() && self.inner.g().n >= 2 }
@fn MapStorage::new props=C09
    requires m_range_ok::<S>(config.flash_range), config.flash_range.end <= u32::MAX - 0x2_0000,
        storage.lo() == config.flash_range.start, storage.hi() == config.flash_range.end, storage.hi() <= storage.mem().len(), cache.inv(geo_of::<S>(config.flash_range)),
        cache.is_d() || st_true::<S, C>(&cache, storage.mem(), geo_of::<S>(config.flash_range)),
    ensures r.wf(), r.inner.flash == storage, r.inner.cache == cache, r.inner.flash_range == config.flash_range, // @C09
@start
    proof { m_range_geo::<S>(config.flash_range); geometry::<S>(); }
@fn MapStorage::flash_range props=C09
    ensures r == self.inner.flash_range,
@fn MapStorage::destroy props=C10
    ensures r.0 == self.inner.flash, r.1 == self.inner.cache,
@fn MapStorage::item_overhead_size props=C08
    ensures r == hl::<S>(), // @C08
@fn MapStorage::flash props=C09
    ensures *r == old(self).inner.flash, *final(r) == final(self).inner.flash, final(self).inner.cache == old(self).inner.cache, final(self).inner.flash_range == old(self).inner.flash_range,
@fn MapStorage::erase_all props=C09,C05
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Ok ==> blank(final(self).inner.flash.mem(), old(self).inner.g().lo, old(self).inner.g().hi), // @C05
        r is Err ==> r->Err_0 is Storage, // @C19
@raw
pub open spec fn m_err<E>(e: Error<E>) -> bool { e is Storage || e is Corrupted || e is BufferTooSmall || e is SerializationError }
pub open spec fn found_ok<S: NorFlash>(o: Option<(u32, usize)>, mem: Seq<u8>, g: Geo) -> bool { o is Some ==> exists|h: GH| #[trigger] m_item::<S>(mem, g, (o->0).0 as int, h) }
@fn MapStorage::fetch_item_with_location props=C09,C19,C01,C13 attr=verifier::spinoff_prover
    requires old(self).wf(), // @C09
    ensures final(self).inner.ok_same(&old(self).inner), final(data_buffer)@.len() == old(data_buffer)@.len(), // @C09
        final(self).inner.coh(), // @C14
        match r {
            Ok(Some((item, a, key_len))) => m_item::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a as int, item.header.gh())
                && item.header.crc is Some && item.header.length <= old(data_buffer)@.len()
                && final(data_buffer)@.subrange(0, item.header.length as int) == item_data::<S>(final(self).inner.flash.mem(), a as int, item.header.gh()), // @C13,C01
            Ok(None) => true,
            Err(e) => m_err(e), // @C19
        },
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); }
@before `let page_index`
    proof { self.inner.cache.kinv_law(g, key_id(*search_key)); up_props(g.w, 0); item_place(g, pidx(g, cached_location as int), cached_location as int, 0); }
@before `return Ok ( Some ( ( item . unborrow`
    proof { m_place::<S>(self.inner.flash.mem(), g, page_index as int, cached_location as int, item.header.gh()); }
@before `let mut current_page_to_check`
    let ghost wit = choose|w: int| #[trigger] nc_at::<S, C>(&self.inner.cache, self.inner.flash.mem(), g, w);
@before `let page_data_start_address`
    proof { page_start(g, current_page_to_check as int); }
@after `newest_found_item_data = Some ( ( address , found_key_len ) ) ;`
    proof { assert(m_item::<S>(self.inner.flash.mem(), self.inner.g(), address as int, item.header.gh())); assert((newest_found_item_data->0).0 == address); }
@before `let ( found_key , found_key_len )`
    proof { m_place::<S>(self.inner.flash.mem(), g, current_page_to_check as int, address as int, item.header.gh()); }
@loop 0
    invariant self.inner.ok_same(&old(self).inner), old(self).wf(), self.inner.coh(), data_buffer@.len() == old(data_buffer)@.len(),
    decreases 0int
@loop 1
    invariant self.inner.ok_same(&old(self).inner), old(self).wf(), self.inner.coh(), data_buffer@.len() == old(data_buffer)@.len(), current_page_to_check < self.inner.g().n, nc_at::<S, C>(&self.inner.cache, self.inner.flash.mem(), self.inner.g(), wit),
        found_ok::<S>(newest_found_item_data, self.inner.flash.mem(), self.inner.g()),
    decreases dist(wit, current_page_to_check as int, self.inner.g().n)
@loop 2
    invariant self.inner.ok_same(&old(self).inner), old(self).wf(), self.inner.coh(), data_buffer@.len() == old(data_buffer)@.len(), current_page_to_check < self.inner.g().n, nc_at::<S, C>(&self.inner.cache, self.inner.flash.mem(), self.inner.g(), wit),
        scan_ok(&self.inner.flash, it.header.current_address as int, it.header.end_address as int),
        it.header.end_address == dend(self.inner.g(), current_page_to_check as int), dstart(self.inner.g(), current_page_to_check as int) <= it.header.current_address,
        found_ok::<S>(newest_found_item_data, self.inner.flash.mem(), self.inner.g()),
    decreases u32::MAX - it.header.current_address
@before `let item = ( match`
    let ghost h1 = choose|h: GH| #[trigger] m_item::<S>(self.inner.flash.mem(), g, newest_found_item_address as int, h);
    proof { assert(found_ok::<S>(newest_found_item_data, self.inner.flash.mem(), g)); m_item_props::<S>(self.inner.flash.mem(), g, newest_found_item_address as int, h1); page_start(g, pidx(g, newest_found_item_address as int)); }
@fn MapStorage::fetch_item props=C09,C19,C01,C13
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> m_err(r->Err_0), // @C19
@start
    broadcast use question_mark_converts;
@fn MapStorage::store_item_inner props=C09,C19,C18,C02 attr=verifier::spinoff_prover
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), final(data_buffer)@.len() == old(data_buffer)@.len(), // @C09
        r is Err ==> m_err(r->Err_0) || r->Err_0 is ItemTooBig || r->Err_0 is FullStorage, // @C19
        r is Err && r->Err_0 is ItemTooBig ==> q_too_big::<S>((key.kser().len() + item.vser().len()) as int), // @C18
        r is Ok ==> !q_too_big::<S>((key.kser().len() + item.vser().len()) as int), // @C18
        r is Ok ==> exists|a: int, p: int, d: Seq<u8>| (#[trigger] pushed_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, p, d)) && d == key.kser() + item.vser(), // @C01,C12
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, mc_oc, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); assert(vstd::slice::spec_slice_len(data_buffer) <= usize::MAX); }
@loop 0
    invariant self.wf(), self.inner.coh(), self.inner.ok_after(&old(self).inner), old(self).wf(), data_buffer@.len() == old(data_buffer)@.len(), recursion_level <= self.inner.g().n,
    decreases self.inner.g().n - recursion_level
@before `if item_data_length > u16 :: MAX`
    proof { assert(data_buffer@.subrange(0, item_data_length as int) =~= key.kser() + item.vser()); page_start(g, partial_open_page as int); }
@before `self . inner . cache . notice_key_location`
    proof { let p = partial_open_page as int; assert(item_in(g, p, free_spot_address as int, item_data_length as int)); item_place(g, p, free_spot_address as int, item_data_length as int); }
@before `return Ok ( ( ) )`
    proof {
        let p = choose|p: int| #[trigger] pushed_here::<S>(self.inner.flash.mem(), self.inner.g(), free_spot_address as int, p, data_buffer@.subrange(0, item_data_length as int));
        assert(pushed_here::<S>(self.inner.flash.mem(), self.inner.g(), free_spot_address as int, p, data_buffer@.subrange(0, item_data_length as int)));
    }
@before `self . inner . partial_close_page ( next_page_to_use`
    proof { page_start(g, next_page_to_use as int); assert(self.inner.ok_after(&old(self).inner)); }
@before `let next_buffer_page`
    proof { assert(self.inner.ok_after(&old(self).inner)); }
@before `self . migrate_items`
    proof { assert(self.inner.ok_after(&old(self).inner)); }
@before `self . inner . partial_close_page ( first_open_page`
    proof { page_start(g, first_open_page as int); assert(self.inner.ok_after(&old(self).inner)); }
@before `recursion_level += 1`
    proof { assert(self.inner.ok_after(&old(self).inner)); }
@fn MapStorage::store_item props=C09,C19,C18,C02
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> m_err(r->Err_0) || r->Err_0 is ItemTooBig || r->Err_0 is FullStorage, // @C19
        r is Err && r->Err_0 is ItemTooBig ==> q_too_big::<S>((key.kser().len() + item.vser().len()) as int), // @C18
        r is Ok ==> !q_too_big::<S>((key.kser().len() + item.vser().len()) as int), // @C18
        r is Ok ==> exists|a: int, p: int, d: Seq<u8>| (#[trigger] pushed_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, p, d)) && d == key.kser() + item.vser(), // @C01,C12
@fn MapStorage::store_item_generic props=C09,C19,C18,C02
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> m_err(r->Err_0) || r->Err_0 is ItemTooBig || r->Err_0 is FullStorage, // @C19
        r is Err && r->Err_0 is ItemTooBig ==> q_too_big::<S>((key.kser().len() + item.vser().len()) as int), // @C18
        r is Ok ==> !q_too_big::<S>((key.kser().len() + item.vser().len()) as int), // @C18
        r is Ok ==> exists|a: int, p: int, d: Seq<u8>| (#[trigger] pushed_here::<S>(final(self).inner.flash.mem(), final(self).inner.g(), a, p, d)) && d == key.kser() + item.vser(), // @C01,C12
@fn MapStorage::remove_item_inner props=C09,C19,C02 attr=verifier::spinoff_prover
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), final(data_buffer)@.len() == old(data_buffer)@.len(), // @C09
        r is Err ==> m_err(r->Err_0), // @C19
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); }
@loop 0
    invariant self.wf(), self.inner.coh(), self.inner.ok_after(&old(self).inner), old(self).wf(), data_buffer@.len() == old(data_buffer)@.len(),
        start__1 < self.inner.g().n, count__1 == self.inner.g().n, i__1 <= count__1,
    decreases count__1 - i__1
@loop 1
    invariant self.wf(), self.inner.coh(), self.inner.ok_after(&old(self).inner), old(self).wf(), data_buffer@.len() == old(data_buffer)@.len(), page_index < self.inner.g().n,
        scan_ok(&self.inner.flash, item_headers.current_address as int, item_headers.end_address as int),
        item_headers.end_address == dend(self.inner.g(), page_index as int), dstart(self.inner.g(), page_index as int) <= item_headers.current_address,
    decreases u32::MAX - item_headers.current_address
@before `item . header . erase_data`
    proof { up_props(g.w, item.header.length as int); assert(item_in(g, page_index as int, item_address as int, item.header.length as int)); }
@fn MapStorage::remove_item props=C09,C19,C02
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> m_err(r->Err_0), // @C19
@fn MapStorage::remove_all_items props=C09,C19,C02
    requires old(self).wf(), // @C09
    ensures final(self).wf(), final(self).inner.ok_after(&old(self).inner), // @C09
        r is Err ==> m_err(r->Err_0), // @C19
@fn MapStorage::find_first_used_page props=C09,C19,C04,C14 attr=verifier::spinoff_prover
    requires old(self).wf(), // @C09
        old(self).inner.coh(), // @C14
    ensures final(self).inner.ok_same(&old(self).inner), // @C09
        r is Ok ==> r->Ok_0 < old(self).inner.g().n, // @C19
        r is Err ==> r->Err_0 is Storage || r->Err_0 is Corrupted, // @C19
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); }
@fn MapStorage::migrate_items props=C09,C19,C03 attr=verifier::spinoff_prover
    requires old(self).wf(), source_page < old(self).inner.g().n, target_page < old(self).inner.g().n, source_page != target_page, // @C09
        old(self).inner.coh(), // @C14
    ensures r is Ok ==> final(self).inner.coh(), // @C14
        final(self).wf(), final(self).inner.ok_after(&old(self).inner), final(data_buffer)@.len() == old(data_buffer)@.len(), // @C09
        r is Err ==> m_err(r->Err_0), // @C19
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); }
    proof { page_start(g, source_page as int); page_start(g, target_page as int); }
@loop 0
    invariant self.wf(), self.inner.coh(), self.inner.ok_after(&old(self).inner), old(self).wf(), data_buffer@.len() == old(data_buffer)@.len(), source_page < self.inner.g().n, target_page < self.inner.g().n, source_page != target_page,
        scan_ok(&self.inner.flash, it.header.current_address as int, it.header.end_address as int),
        it.header.end_address == dend(self.inner.g(), source_page as int), dstart(self.inner.g(), source_page as int) <= it.header.current_address,
        al(S::WORD_SIZE as int, next_page_write_address as int), dstart(self.inner.g(), target_page as int) <= next_page_write_address,
        next_page_write_address - dstart(self.inner.g(), target_page as int) <= it.header.current_address - dstart(self.inner.g(), source_page as int),
    decreases u32::MAX - it.header.current_address
@before `let ( key , _ )`
    let ghost h1 = item.header.gh();
    proof { m_place::<S>(self.inner.flash.mem(), g, source_page as int, item_address as int, h1); }
@before `self . inner . cache . notice_key_location`
    proof {
        let a = next_page_write_address as int;
        up_props(g.w, h1.len as int); nxt_props::<S>(item_address as int, h1.len as int);
        assert(found_item.header.gh() == h1);
        assert(item_in(g, target_page as int, a, h1.len as int));
        item_place(g, target_page as int, a, h1.len as int);
    }
@fn MapStorage::try_repair props=C09,C19,C10,C03
    requires old(self).wf(), // @C09
    ensures r is Ok ==> final(self).inner.coh(), // @C14
        final(self).wf(), final(self).inner.ok_after(&old(self).inner), final(data_buffer)@.len() == old(data_buffer)@.len(), // @C09
        r is Err ==> m_err(r->Err_0), // @C19
@before `self . inner . open_page`
    proof { page_start(g, partial_open_page as int); }
@before `self . inner . partial_close_page`
    proof { assert(self.inner.ok_after(&old(self).inner)); }
@before `self . migrate_items`
    proof { assert(self.inner.ok_after(&old(self).inner)); }
@insert impl MapItemIter
    pub open spec fn miinv(&self) -> bool {
        let g = self.storage.inner.g();
        &&& self.storage.wf() && self.first_page < g.n && self.current_page_index < g.n
        &&& scan_ok(&self.storage.inner.flash, self.current_iter.header.current_address as int, self.current_iter.header.end_address as int)
    }
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); }
@fn MapStorage::fetch_all_items props=C09,C19,C04 attr=verifier::spinoff_prover
    requires old(self).wf(), // @C09
    ensures match r {
            Ok(it) => it.miinv() && it.storage.inner.ok_after(&old(self).inner) && *final(it.storage) == *final(self), // @C09
            Err(e) => m_err(e) && final(self).wf() && final(self).inner.ok_after(&old(self).inner), // @C19
        },
@start
    hide(hdr_at); hide(intact); hide(blank); hide(wrote); hide(only_changed); hide(st_true);
    let ghost _t = touch::<S>();
    broadcast use page_geom, ptr_page, oc_refl, oc_trans, question_mark_converts, coh_none, coh_same;
    let ghost g = self.inner.g();
    proof { geometry::<S>(); n_e(g); }
@fn MapItemIter::next props=C09,C19,C04
    requires old(self).miinv(), // @C09
    ensures final(self).miinv(), final(self).storage.inner.ok_same(&old(self).storage.inner), *final(final(self).storage) == *final(old(self).storage), // @C09
@loop 0
    invariant self.miinv(), self.storage.inner.ok_same(&old(self).storage.inner), *final(self.storage) == *final(old(self).storage), self.first_page == old(self).first_page, data_buffer@.len() == old(data_buffer)@.len(),
    decreases dist(self.current_page_index as int, self.first_page as int, self.storage.inner.g().n)
@loop 1
    invariant self.storage.wf(), self.first_page < self.storage.inner.g().n, self.current_page_index < self.storage.inner.g().n, self.storage.inner.ok_same(&old(self).storage.inner), *final(self.storage) == *final(old(self).storage), self.first_page == old(self).first_page, data_buffer@.len() == old(data_buffer)@.len(),
        scan_ok(&self.storage.inner.flash, self.current_iter.header.current_address as int, self.current_iter.header.end_address as int), dist(self.current_page_index as int, self.first_page as int, self.storage.inner.g().n) <= d0,
    decreases dist(self.current_page_index as int, self.first_page as int, self.storage.inner.g().n)
@start
    broadcast use page_geom, question_mark_converts;
    let ghost g = self.storage.inner.g();
    proof { geometry::<S>(); n_e(g); }
@body 0
    let ghost d0 = dist(self.current_page_index as int, self.first_page as int, self.storage.inner.g().n);
@before `self . current_iter = ItemIter :: new`
    proof { page_start(g, self.current_page_index as int); }
@raw
/// how many steps forward it takes to come to the page again
pub open spec fn dist(c: int, f: int, n: int) -> int { if c < f { f - c } else { f + n - c } }
