# src/cache
@insert trait SealedCacheImpl
    /// everything the cache holds is usable with this geometry
    spec fn inv(&self, g: Geo) -> bool;
    spec fn st(&self, p: int) -> Option<PageState>;
    spec fn er(&self, p: int) -> Option<u32>;
    spec fn wr(&self, p: int) -> Option<u32>;
    spec fn is_d(&self) -> bool;
    /// what it says about a page was noticed for that page, not inferred from other pages
    spec fn exact() -> bool;
    /// a page it is sure not to be closed, if it is sure about any
    spec fn snc(&self) -> int;
    proof fn inv_law(&self, g: Geo, p: int)
        requires self.inv(g), geo_ok(g), 0 <= p < g.n
        ensures self.er(p) is Some ==> ptr_in(g, p, self.er(p)->0 as int), self.wr(p) is Some ==> ptr_in(g, p, self.wr(p)->0 as int);
@fn SealedCacheImpl::is_dirty props=C14
    ensures *final(self) == *old(self), r == old(self).is_d(), // @C14
@fn SealedCacheImpl::mark_dirty props=C14
    ensures forall|g: Geo| #[trigger] final(self).inv(g) == old(self).inv(g), final(self).is_d(), // @C14
        forall|q: int| #![auto] final(self).st(q) == old(self).st(q) && final(self).er(q) == old(self).er(q) && final(self).wr(q) == old(self).wr(q), // @C14
@fn SealedCacheImpl::unmark_dirty props=C14
    ensures forall|g: Geo| #[trigger] final(self).inv(g) == old(self).inv(g), !final(self).is_d(), // @C14
        forall|q: int| #![auto] final(self).st(q) == old(self).st(q) && final(self).er(q) == old(self).er(q) && final(self).wr(q) == old(self).wr(q), // @C14
@fn SealedCacheImpl::get_page_state props=C14,C19
    requires exists|g: Geo| #[trigger] old(self).inv(g) && page_index < g.n, // @C19
    ensures *final(self) == *old(self), r == old(self).st(page_index as int), // @C14
@fn SealedCacheImpl::notice_page_state props=C14,C19
    requires exists|g: Geo| #[trigger] old(self).inv(g) && page_index < g.n, // @C19
        !(new_state == PageState::PartialOpen && old(self).st(page_index as int) == Some(PageState::Closed)), // @C19
        !(new_state == PageState::Closed && old(self).st(page_index as int) == Some(PageState::Open)), // @C19
    ensures forall|g: Geo| #[trigger] old(self).inv(g) && page_index < g.n ==> final(self).inv(g), // @C14
        final(self).is_d() == (old(self).is_d() || dirty), // @C14
        final(self).st(page_index as int) is Some ==> final(self).st(page_index as int) == Some(new_state), // @C14
        Self::exact() ==> forall|q: int| q != page_index && (#[trigger] final(self).st(q)) is Some ==> final(self).st(q) == old(self).st(q), // @C14
        new_state != PageState::Closed ==> Self::exact() || forall|g: Geo| #[trigger] old(self).inv(g) && page_index < g.n ==> 0 <= final(self).snc() < g.n && nc(final(self).st(final(self).snc())), // @C19
        new_state == PageState::Closed && old(self).st(page_index as int) is None ==> forall|w: int| nc(#[trigger] old(self).st(w)) ==> final(self).st(w) == old(self).st(w), // @C19
        forall|q: int| #![auto] q != page_index ==> final(self).er(q) == old(self).er(q) && final(self).wr(q) == old(self).wr(q), // @C14
        final(self).er(page_index as int) == (if new_state == PageState::Open { None } else { old(self).er(page_index as int) }), // @C14
        final(self).wr(page_index as int) == (if new_state == PageState::Open { None } else { old(self).wr(page_index as int) }), // @C14
@fn SealedCacheImpl::first_item_after_erased props=C14
    ensures *final(self) == *old(self), r == old(self).er(page_index as int), // @C14
@fn SealedCacheImpl::first_item_after_written props=C14
    ensures *final(self) == *old(self), r == old(self).wr(page_index as int), // @C14
@fn SealedCacheImpl::notice_item_written props=C14,C19
    requires geo_ok(geo_of::<S>(flash_range)), old(self).inv(geo_of::<S>(flash_range)), // @C19
        exists|p: int| item_in(geo_of::<S>(flash_range), p, item_address as int, item_header.length as int), // @C19
    ensures final(self).inv(geo_of::<S>(flash_range)), final(self).is_d(), // @C14
        forall|q: int| #![auto] final(self).st(q) == old(self).st(q) && final(self).er(q) == old(self).er(q), // @C14
        forall|q: int| #![auto] q != pidx(geo_of::<S>(flash_range), item_address as int) ==> final(self).wr(q) == old(self).wr(q), // @C14
        wr_after(final(self).wr(pidx(geo_of::<S>(flash_range), item_address as int)), old(self).wr(pidx(geo_of::<S>(flash_range), item_address as int)), nxt::<S>(item_address as int, item_header.length as int)), // @C14
@fn SealedCacheImpl::notice_item_erased props=C14,C19
    requires geo_ok(geo_of::<S>(flash_range)), old(self).inv(geo_of::<S>(flash_range)), // @C19
        exists|p: int| item_in(geo_of::<S>(flash_range), p, item_address as int, item_header.length as int), // @C19
    ensures final(self).inv(geo_of::<S>(flash_range)), final(self).is_d(), // @C14
        forall|q: int| #![auto] final(self).st(q) == old(self).st(q) && final(self).wr(q) == old(self).wr(q), // @C14
        forall|q: int| #![auto] q != pidx(geo_of::<S>(flash_range), item_address as int) ==> final(self).er(q) == old(self).er(q), // @C14
        er_after(geo_of::<S>(flash_range), final(self).er(pidx(geo_of::<S>(flash_range), item_address as int)), old(self).er(pidx(geo_of::<S>(flash_range), item_address as int)), item_address as int, nxt::<S>(item_address as int, item_header.length as int)), // @C14
@fn SealedCacheImpl::invalidate_cache_state props=C14
    ensures forall|g: Geo| #[trigger] old(self).inv(g) ==> final(self).inv(g), !final(self).is_d(), // @C14
        forall|q: int| #![auto] final(self).er(q) is None && final(self).wr(q) is None, // @C14
        forall|g: Geo, q: int| #![auto] old(self).inv(g) && 0 <= q < g.n ==> final(self).st(q) is None, // @C14
@raw
pub open spec fn same_views<C: SealedCacheImpl>(a: &C, b: &C) -> bool {
    forall|q: int| #![auto] a.st(q) == b.st(q) && a.er(q) == b.er(q) && a.wr(q) == b.wr(q)
}
/// the pointer behind the written items only moves forward
pub open spec fn wr_after(new: Option<u32>, old: Option<u32>, next: int) -> bool {
    new == old && (old is Some ==> old->0 >= next) || (new is Some && new->0 == next) || (new is None && old is None)
}
/// the pointer behind the erased items only moves over an item that directly follows them
pub open spec fn er_after(g: Geo, new: Option<u32>, old: Option<u32>, a: int, next: int) -> bool {
    new == old || (new is Some && new->0 == next && (match old { Some(x) => x == a, None => a == dstart(g, pidx(g, a)) }))
}
@insert trait SealedCacheImpl super
: Sized
@insert trait SealedKeyCacheImpl super
: SealedCacheImpl
@insert trait SealedKeyCacheImpl
    /// where the item of the key with this encoding is
    spec fn kl(&self, id: Seq<u8>) -> Option<u32>;
    proof fn kinv_law(&self, g: Geo, id: Seq<u8>)
        requires self.inv(g), geo_ok(g)
        ensures self.kl(id) is Some ==> head_in(g, self.kl(id)->0 as int);
@fn SealedKeyCacheImpl::key_location props=C14
    requires exists|g: Geo| #[trigger] old(self).inv(g), // @C19
    ensures *final(self) == *old(self), r == old(self).kl(key_id(*key)), // @C14
@fn SealedKeyCacheImpl::notice_key_location props=C14,C19
    requires item_address > 0, exists|g: Geo| #[trigger] old(self).inv(g), // @C19
    ensures forall|g: Geo| #[trigger] old(self).inv(g) && head_in(g, item_address as int) ==> final(self).inv(g), // @C14
        final(self).is_d() == (old(self).is_d() || dirty), // @C14
        forall|q: int| #![auto] final(self).st(q) == old(self).st(q) && final(self).er(q) == old(self).er(q) && final(self).wr(q) == old(self).wr(q), // @C14
        final(self).kl(key_id(*key)) is Some ==> final(self).kl(key_id(*key)) == Some(item_address), // @C14
        forall|k: Seq<u8>| k != key_id(*key) && final(self).kl(k) is Some ==> #[trigger] final(self).kl(k) == old(self).kl(k), // @C14
@fn SealedKeyCacheImpl::notice_key_erased props=C14
    requires exists|g: Geo| #[trigger] old(self).inv(g), // @C19
    ensures forall|g: Geo| #[trigger] old(self).inv(g) ==> final(self).inv(g), // @C14
        final(self).is_d(), // @C14
        forall|q: int| #![auto] final(self).st(q) == old(self).st(q) && final(self).er(q) == old(self).er(q) && final(self).wr(q) == old(self).wr(q), // @C14
        final(self).kl(key_id(*key)) is None, // @C14
        forall|k: Seq<u8>| k != key_id(*key) && final(self).kl(k) is Some ==> #[trigger] final(self).kl(k) == old(self).kl(k), // @C14
@fn DirtTracker::new props=C14
    ensures !r.dirty, // @C14
@fn DirtTracker::is_dirty props=C14
    ensures r == self.dirty, // @C14
@fn DirtTracker::mark_dirty props=C14
    ensures final(self).dirty, // @C14
@fn DirtTracker::unmark_dirty props=C14
    ensures !final(self).dirty, // @C14
@fn Cache::new props=C14
    ensures r.page_states == page_states, r.page_pointers == page_pointers, r.key_pointers == key_pointers, !r.dirt_tracker.dirty, // @C14
@fn Cache::new_uncached props=C14
    ensures !r.dirt_tracker.dirty, // @C14
@insert impl Cache::SealedCacheImpl
    open spec fn inv(&self, g: Geo) -> bool { self.page_states.pinv(g.n) && self.page_pointers.qinv(g) && self.key_pointers.kpinv(g) }
    open spec fn st(&self, p: int) -> Option<PageState> { self.page_states.pst(p) }
    open spec fn er(&self, p: int) -> Option<u32> { self.page_pointers.per(p) }
    open spec fn wr(&self, p: int) -> Option<u32> { self.page_pointers.pwr(p) }
    open spec fn is_d(&self) -> bool { self.dirt_tracker.dirty }
    open spec fn exact() -> bool { PAGE::pexact() }
    open spec fn snc(&self) -> int { self.page_states.pnc() }
    proof fn inv_law(&self, g: Geo, p: int) { self.page_pointers.qinv_law(g, p); }
@fn Cache::SealedCacheImpl::is_dirty props=C14
@fn Cache::SealedCacheImpl::mark_dirty props=C14
    ensures final(self).page_states == old(self).page_states, final(self).page_pointers == old(self).page_pointers, final(self).key_pointers == old(self).key_pointers, // @C14
@fn Cache::SealedCacheImpl::unmark_dirty props=C14
@fn Cache::SealedCacheImpl::get_page_state props=C14,C19
@fn Cache::SealedCacheImpl::notice_page_state props=C14,C19
@fn Cache::SealedCacheImpl::first_item_after_erased props=C14
@fn Cache::SealedCacheImpl::first_item_after_written props=C14
@fn Cache::SealedCacheImpl::notice_item_written props=C14,C19
@fn Cache::SealedCacheImpl::notice_item_erased props=C14,C19
@fn Cache::SealedCacheImpl::invalidate_cache_state props=C14
@insert impl Cache::SealedKeyCacheImpl
    open spec fn kl(&self, id: Seq<u8>) -> Option<u32> { self.key_pointers.kkl(id) }
    proof fn kinv_law(&self, g: Geo, id: Seq<u8>) { self.key_pointers.kpinv_law(g, id); }
@fn Cache::SealedKeyCacheImpl::key_location props=C14
@start
    proof { let g = choose|g: Geo| #[trigger] self.inv(g); assert(self.key_pointers.kpinv(g)); }
@fn Cache::SealedKeyCacheImpl::notice_key_location props=C14,C19
@start
    proof { let g = choose|g: Geo| #[trigger] self.inv(g); assert(self.key_pointers.kpinv(g)); }
@fn Cache::SealedKeyCacheImpl::notice_key_erased props=C14
@start
    proof { let g = choose|g: Geo| #[trigger] self.inv(g); assert(self.key_pointers.kpinv(g)); }
@insert impl Uncached::SealedPageStatesCache
    open spec fn pinv(&self, n: int) -> bool { true }
    open spec fn pst(&self, p: int) -> Option<PageState> { None }
    open spec fn pexact() -> bool { true }
    open spec fn pnc(&self) -> int { 0 }
@fn Uncached::SealedPageStatesCache::get_page_state props=C14
@fn Uncached::SealedPageStatesCache::notice_page_state props=C14
@fn Uncached::SealedPageStatesCache::invalidate_cache_state props=C14
@insert impl Uncached::SealedPagePointersCache
    open spec fn qinv(&self, g: Geo) -> bool { true }
    open spec fn per(&self, p: int) -> Option<u32> { None }
    open spec fn pwr(&self, p: int) -> Option<u32> { None }
    proof fn qinv_law(&self, g: Geo, p: int) {}
@fn Uncached::SealedPagePointersCache::first_item_after_erased props=C14
@fn Uncached::SealedPagePointersCache::first_item_after_written props=C14
@fn Uncached::SealedPagePointersCache::notice_item_written props=C14
@fn Uncached::SealedPagePointersCache::notice_item_erased props=C14
@fn Uncached::SealedPagePointersCache::notice_page_state props=C14
@fn Uncached::SealedPagePointersCache::invalidate_cache_state props=C14
@insert impl Uncached::SealedKeyPointersCache
    open spec fn kpinv(&self, g: Geo) -> bool { true }
    open spec fn kkl(&self, id: Seq<u8>) -> Option<u32> { None }
    proof fn kpinv_law(&self, g: Geo, id: Seq<u8>) {}
@fn Uncached::SealedKeyPointersCache::key_location props=C14
@fn Uncached::SealedKeyPointersCache::notice_key_location props=C14
@fn Uncached::SealedKeyPointersCache::notice_key_erased props=C14
@fn Uncached::SealedKeyPointersCache::invalidate_cache_state props=C14
