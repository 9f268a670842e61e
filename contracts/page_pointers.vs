# src/cache/page_pointers.rs
@insert trait SealedPagePointersCache super
: Sized
@insert trait SealedPagePointersCache
    spec fn qinv(&self, g: Geo) -> bool;
    spec fn per(&self, p: int) -> Option<u32>;
    spec fn pwr(&self, p: int) -> Option<u32>;
    proof fn qinv_law(&self, g: Geo, p: int)
        requires self.qinv(g), geo_ok(g), 0 <= p < g.n
        ensures self.per(p) is Some ==> ptr_in(g, p, self.per(p)->0 as int), self.pwr(p) is Some ==> ptr_in(g, p, self.pwr(p)->0 as int);
@fn SealedPagePointersCache::first_item_after_erased props=C14
    ensures r == self.per(page_index as int), // @C14
@fn SealedPagePointersCache::first_item_after_written props=C14
    ensures r == self.pwr(page_index as int), // @C14
@fn SealedPagePointersCache::notice_item_written props=C14,C19
    requires geo_ok(geo_of::<S>(flash_range)), old(self).qinv(geo_of::<S>(flash_range)), // @C19
        exists|p: int| item_in(geo_of::<S>(flash_range), p, item_address as int, item_header.length as int), // @C19
    ensures final(self).qinv(geo_of::<S>(flash_range)), // @C14
        forall|q: int| #![auto] final(self).per(q) == old(self).per(q), // @C14
        forall|q: int| #![auto] q != pidx(geo_of::<S>(flash_range), item_address as int) ==> final(self).pwr(q) == old(self).pwr(q), // @C14
        wr_after(final(self).pwr(pidx(geo_of::<S>(flash_range), item_address as int)), old(self).pwr(pidx(geo_of::<S>(flash_range), item_address as int)), nxt::<S>(item_address as int, item_header.length as int)), // @C14
@fn SealedPagePointersCache::notice_item_erased props=C14,C19
    requires geo_ok(geo_of::<S>(flash_range)), old(self).qinv(geo_of::<S>(flash_range)), // @C19
        exists|p: int| item_in(geo_of::<S>(flash_range), p, item_address as int, item_header.length as int), // @C19
    ensures final(self).qinv(geo_of::<S>(flash_range)), // @C14
        forall|q: int| #![auto] final(self).pwr(q) == old(self).pwr(q), // @C14
        forall|q: int| #![auto] q != pidx(geo_of::<S>(flash_range), item_address as int) ==> final(self).per(q) == old(self).per(q), // @C14
        er_after(geo_of::<S>(flash_range), final(self).per(pidx(geo_of::<S>(flash_range), item_address as int)), old(self).per(pidx(geo_of::<S>(flash_range), item_address as int)), item_address as int, nxt::<S>(item_address as int, item_header.length as int)), // @C14
@fn SealedPagePointersCache::notice_page_state props=C14
    ensures forall|g: Geo| #[trigger] old(self).qinv(g) ==> final(self).qinv(g), // @C14
        forall|q: int| #![auto] q != page_index ==> final(self).per(q) == old(self).per(q) && final(self).pwr(q) == old(self).pwr(q), // @C14
        final(self).per(page_index as int) == (if new_state == PageState::Open { None } else { old(self).per(page_index as int) }), // @C14
        final(self).pwr(page_index as int) == (if new_state == PageState::Open { None } else { old(self).pwr(page_index as int) }), // @C14
@fn SealedPagePointersCache::invalidate_cache_state props=C14
    ensures forall|g: Geo| #[trigger] old(self).qinv(g) ==> final(self).qinv(g), // @C14
        forall|q: int| #![auto] final(self).per(q) is None && final(self).pwr(q) is None, // @C14
@raw
/// the pointers of one kind, seen as addresses
pub open spec fn ptr_at(s: Seq<Option<NonZeroU32>>, p: int) -> Option<u32> { if 0 <= p < s.len() && s[p] is Some { Some(s[p]->0@) } else { None } }
pub open spec fn ptrs_ok(s: Seq<Option<NonZeroU32>>, g: Geo) -> bool { forall|p: int| 0 <= p < g.n && p < s.len() && (#[trigger] s[p]) is Some ==> ptr_in(g, p, s[p]->0@ as int) }
@insert impl ArrayPagePointers::SealedPagePointersCache
    open spec fn qinv(&self, g: Geo) -> bool { ptrs_ok(self.after_erased_pointers@, g) && ptrs_ok(self.after_written_pointers@, g) }
    open spec fn per(&self, p: int) -> Option<u32> { ptr_at(self.after_erased_pointers@, p) }
    open spec fn pwr(&self, p: int) -> Option<u32> { ptr_at(self.after_written_pointers@, p) }
    proof fn qinv_law(&self, g: Geo, p: int) {}
@fn ArrayPagePointers::new props=C14
    ensures forall|q: int| #[trigger] r.per(q) is None, forall|q: int| #[trigger] r.pwr(q) is None, // @C14
@fn ArrayPagePointers::as_tracked_mut props=C14
    ensures r.after_erased_pointers@ == old(self).after_erased_pointers@, r.after_written_pointers@ == old(self).after_written_pointers@,
        final(self).after_erased_pointers@ == final(r.after_erased_pointers)@, final(self).after_written_pointers@ == final(r.after_written_pointers)@, // @C14
@fn ArrayPagePointers::SealedPagePointersCache::first_item_after_erased props=C14,C19
@fn ArrayPagePointers::SealedPagePointersCache::first_item_after_written props=C14,C19
@fn ArrayPagePointers::SealedPagePointersCache::notice_item_written props=C14,C19
@fn ArrayPagePointers::SealedPagePointersCache::notice_item_erased props=C14,C19
@fn ArrayPagePointers::SealedPagePointersCache::notice_page_state props=C14,C19
@fn ArrayPagePointers::SealedPagePointersCache::invalidate_cache_state props=C14,C19
@insert impl HeapPagePointers::SealedPagePointersCache
    open spec fn qinv(&self, g: Geo) -> bool { ptrs_ok(self.after_erased_pointers@, g) && ptrs_ok(self.after_written_pointers@, g) }
    open spec fn per(&self, p: int) -> Option<u32> { ptr_at(self.after_erased_pointers@, p) }
    open spec fn pwr(&self, p: int) -> Option<u32> { ptr_at(self.after_written_pointers@, p) }
    proof fn qinv_law(&self, g: Geo, p: int) {}
@fn HeapPagePointers::new props=C14
    ensures forall|q: int| #[trigger] r.per(q) is None, forall|q: int| #[trigger] r.pwr(q) is None, // @C14
@fn HeapPagePointers::as_tracked props=C14
    ensures r.after_erased_pointers@ == old(self).after_erased_pointers@, r.after_written_pointers@ == old(self).after_written_pointers@,
        final(self).after_erased_pointers@ == final(r.after_erased_pointers)@, final(self).after_written_pointers@ == final(r.after_written_pointers)@, // @C14
@fn HeapPagePointers::SealedPagePointersCache::first_item_after_erased props=C14,C19
@fn HeapPagePointers::SealedPagePointersCache::first_item_after_written props=C14,C19
@fn HeapPagePointers::SealedPagePointersCache::notice_item_written props=C14,C19
@fn HeapPagePointers::SealedPagePointersCache::notice_item_erased props=C14,C19
@fn HeapPagePointers::SealedPagePointersCache::notice_page_state props=C14,C19
@fn HeapPagePointers::SealedPagePointersCache::invalidate_cache_state props=C14,C19
@insert impl TrackedPagePointers::SealedPagePointersCache
    open spec fn qinv(&self, g: Geo) -> bool { ptrs_ok(self.after_erased_pointers@, g) && ptrs_ok(self.after_written_pointers@, g) }
    open spec fn per(&self, p: int) -> Option<u32> { ptr_at(self.after_erased_pointers@, p) }
    open spec fn pwr(&self, p: int) -> Option<u32> { ptr_at(self.after_written_pointers@, p) }
    proof fn qinv_law(&self, g: Geo, p: int) {}
@fn TrackedPagePointers::SealedPagePointersCache::first_item_after_erased props=C14,C19
@fn TrackedPagePointers::SealedPagePointersCache::first_item_after_written props=C14,C19
@fn TrackedPagePointers::SealedPagePointersCache::notice_item_written props=C14,C19
    ensures final(final(self).after_erased_pointers)@ == final(old(self).after_erased_pointers)@, final(final(self).after_written_pointers)@ == final(old(self).after_written_pointers)@, // @C14
        final(self).after_erased_pointers@.len() == old(self).after_erased_pointers@.len(), final(self).after_written_pointers@.len() == old(self).after_written_pointers@.len(), // @C14
        forall|q: int| #[trigger] ptr_at(final(self).after_erased_pointers@, q) == ptr_at(old(self).after_erased_pointers@, q), forall|q: int| q != pidx(geo_of::<S>(flash_range), item_address as int) ==> #[trigger] ptr_at(final(self).after_written_pointers@, q) == ptr_at(old(self).after_written_pointers@, q), // @C14
@start
    proof {
        let g = geo_of::<S>(flash_range);
        let p = choose|p: int| item_in(g, p, item_address as int, item_header.length as int);
        item_place(g, p, item_address as int, item_header.length as int);
        geometry::<S>();
        page_geom(g, p);
    }
@fn TrackedPagePointers::SealedPagePointersCache::notice_item_erased props=C14,C19
    ensures final(final(self).after_erased_pointers)@ == final(old(self).after_erased_pointers)@, final(final(self).after_written_pointers)@ == final(old(self).after_written_pointers)@, // @C14
        final(self).after_erased_pointers@.len() == old(self).after_erased_pointers@.len(), final(self).after_written_pointers@.len() == old(self).after_written_pointers@.len(), // @C14
        forall|q: int| #[trigger] ptr_at(final(self).after_written_pointers@, q) == ptr_at(old(self).after_written_pointers@, q), forall|q: int| q != pidx(geo_of::<S>(flash_range), item_address as int) ==> #[trigger] ptr_at(final(self).after_erased_pointers@, q) == ptr_at(old(self).after_erased_pointers@, q), // @C14
@start
    proof {
        let g = geo_of::<S>(flash_range);
        let p = choose|p: int| item_in(g, p, item_address as int, item_header.length as int);
        item_place(g, p, item_address as int, item_header.length as int);
        geometry::<S>();
        page_geom(g, p);
    }
@fn TrackedPagePointers::SealedPagePointersCache::notice_page_state props=C14,C19
    ensures final(final(self).after_erased_pointers)@ == final(old(self).after_erased_pointers)@, final(final(self).after_written_pointers)@ == final(old(self).after_written_pointers)@, // @C14
        final(self).after_erased_pointers@.len() == old(self).after_erased_pointers@.len(), final(self).after_written_pointers@.len() == old(self).after_written_pointers@.len(), // @C14
        forall|q: int| q != page_index ==> #[trigger] ptr_at(final(self).after_written_pointers@, q) == ptr_at(old(self).after_written_pointers@, q), forall|q: int| q != page_index ==> #[trigger] ptr_at(final(self).after_erased_pointers@, q) == ptr_at(old(self).after_erased_pointers@, q), // @C14
        forall|g: Geo| #[trigger] ptrs_ok(old(self).after_erased_pointers@, g) ==> ptrs_ok(final(self).after_erased_pointers@, g), forall|g: Geo| #[trigger] ptrs_ok(old(self).after_written_pointers@, g) ==> ptrs_ok(final(self).after_written_pointers@, g), // @C14
@fn TrackedPagePointers::SealedPagePointersCache::invalidate_cache_state props=C14,C19
    ensures final(final(self).after_erased_pointers)@ == final(old(self).after_erased_pointers)@, final(final(self).after_written_pointers)@ == final(old(self).after_written_pointers)@, // @C14
        final(self).after_erased_pointers@.len() == old(self).after_erased_pointers@.len(), final(self).after_written_pointers@.len() == old(self).after_written_pointers@.len(), // @C14
        forall|q: int| #[trigger] ptr_at(final(self).after_written_pointers@, q) is None, forall|q: int| #[trigger] ptr_at(final(self).after_erased_pointers@, q) is None, // @C14
        forall|g: Geo| #[trigger] ptrs_ok(old(self).after_erased_pointers@, g) ==> ptrs_ok(final(self).after_erased_pointers@, g), forall|g: Geo| #[trigger] ptrs_ok(old(self).after_written_pointers@, g) ==> ptrs_ok(final(self).after_written_pointers@, g), // @C14
@loop 0
    invariant __m1 <= self.after_erased_pointers@.len(), forall|q: int| 0 <= q < __m1 ==> self.after_erased_pointers@[q] is None,
        self.after_written_pointers@ == old(self).after_written_pointers@, self.after_erased_pointers@.len() == old(self).after_erased_pointers@.len(),
        final(self.after_erased_pointers)@ == final(old(self).after_erased_pointers)@, final(self.after_written_pointers)@ == final(old(self).after_written_pointers)@,
    decreases self.after_erased_pointers@.len() - __m1,
@loop 1
    invariant __m2 <= self.after_written_pointers@.len(), forall|q: int| 0 <= q < __m2 ==> self.after_written_pointers@[q] is None,
        forall|q: int| 0 <= q < self.after_erased_pointers@.len() ==> self.after_erased_pointers@[q] is None,
        self.after_erased_pointers@.len() == old(self).after_erased_pointers@.len(), self.after_written_pointers@.len() == old(self).after_written_pointers@.len(),
        final(self.after_erased_pointers)@ == final(old(self).after_erased_pointers)@, final(self.after_written_pointers)@ == final(old(self).after_written_pointers)@,
    decreases self.after_written_pointers@.len() - __m2,
