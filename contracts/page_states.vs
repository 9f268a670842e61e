# src/cache/page_states.rs
@insert trait SealedPageStatesCache super
: Sized
@insert trait SealedPageStatesCache
    /// usable for n pages
    spec fn pinv(&self, n: int) -> bool;
    spec fn pst(&self, p: int) -> Option<PageState>;
    /// what it says about a page was noticed for that page, not inferred from other pages
    spec fn pexact() -> bool;
    /// a page it is sure not to be closed, if it is sure about any
    spec fn pnc(&self) -> int;
@fn SealedPageStatesCache::get_page_state props=C14,C19
    requires exists|n: int| #[trigger] self.pinv(n) && page_index < n, // @C19
    ensures r == self.pst(page_index as int), // @C14
@fn SealedPageStatesCache::notice_page_state props=C14,C19
    requires exists|n: int| #[trigger] old(self).pinv(n) && page_index < n, // @C19
        !(new_state == PageState::PartialOpen && old(self).pst(page_index as int) == Some(PageState::Closed)), // @C19
        !(new_state == PageState::Closed && old(self).pst(page_index as int) == Some(PageState::Open)), // @C19
    ensures forall|n: int| #[trigger] old(self).pinv(n) && page_index < n ==> final(self).pinv(n), // @C14
        final(self).pst(page_index as int) is Some ==> final(self).pst(page_index as int) == Some(new_state), // @C14
        Self::pexact() ==> forall|q: int| q != page_index && (#[trigger] final(self).pst(q)) is Some ==> final(self).pst(q) == old(self).pst(q), // @C14
        new_state != PageState::Closed ==> Self::pexact() || forall|n: int| #[trigger] old(self).pinv(n) && page_index < n ==> 0 <= final(self).pnc() < n && nc(final(self).pst(final(self).pnc())), // @C19
        new_state == PageState::Closed && old(self).pst(page_index as int) is None ==> forall|w: int| nc(#[trigger] old(self).pst(w)) ==> final(self).pst(w) == old(self).pst(w), // @C19
@raw
/// known not to be closed
pub open spec fn nc(s: Option<PageState>) -> bool { s == Some(PageState::Open) || s == Some(PageState::PartialOpen) }
@fn SealedPageStatesCache::invalidate_cache_state props=C14
    ensures forall|n: int| #[trigger] old(self).pinv(n) ==> final(self).pinv(n), // @C14
        forall|n: int, q: int| #![auto] old(self).pinv(n) && 0 <= q < n ==> final(self).pst(q) is None, // @C14
@insert impl CalculatedPageStates
    pub open spec fn front(&self, p: int) -> int { if p >= self.anchor->0 { p - self.anchor->0 } else { self.page_count - self.anchor->0 + p } }
    pub open spec fn behind(&self, p: int) -> int { if p <= self.anchor->0 { self.anchor->0 - p } else { self.anchor->0 + 1 + self.page_count - p } }
    pub open spec fn ok(&self) -> bool {
        &&& 1 <= self.page_count < 0x7fff_0000
        &&& self.anchor is None ==> self.open_pages == 0 && self.closed_pages == 0 && self.anchor_is_guess
        &&& self.anchor is Some ==> self.anchor->0 < self.page_count && 1 <= self.open_pages <= self.page_count && self.closed_pages + self.open_pages <= self.page_count + 1
        &&& self.anchor_is_guess ==> self.closed_pages == 0 && !self.anchor_is_partial
    }
    pub open spec fn claim(&self, p: int) -> Option<PageState> {
        if self.anchor is None { None }
        else if self.anchor->0 == p { Some(if self.anchor_is_partial { PageState::PartialOpen } else { PageState::Open }) }
        else if self.front(p) < self.open_pages { Some(PageState::Open) }
        else if self.behind(p) <= self.closed_pages { Some(PageState::Closed) }
        else { None }
    }
@fn CalculatedPageStates::new props=C14,C19
    ensures 1 <= page_count < 0x7fff_0000 ==> r.ok(), // @C19
        r.page_count == page_count, r.anchor is None, !r.anchor_is_partial, r.anchor_is_guess, r.closed_pages == 0, r.open_pages == 0, // @C14
@fn CalculatedPageStates::places_in_front_of_anchor props=C14,C19
    requires self.page_count < 0x7fff_0000, self.anchor is Some ==> self.anchor->0 < self.page_count, page_index < self.page_count, // @C19
    ensures match self.anchor { None => r is None, Some(a) => r == Some(self.front(page_index as int) as usize) && self.front(page_index as int) < self.page_count }, // @C14
@fn CalculatedPageStates::places_behind_of_anchor props=C14,C19
    requires self.page_count < 0x7fff_0000, self.anchor is Some ==> self.anchor->0 < self.page_count, page_index < self.page_count, // @C19
    ensures match self.anchor { None => r is None, Some(a) => r == Some(self.behind(page_index as int) as usize) && self.behind(page_index as int) <= self.page_count }, // @C14
@insert impl CalculatedPageStates::SealedPageStatesCache
    open spec fn pinv(&self, n: int) -> bool { self.ok() && self.page_count == n }
    open spec fn pst(&self, p: int) -> Option<PageState> { self.claim(p) }
    open spec fn pexact() -> bool { false }
    open spec fn pnc(&self) -> int { self.anchor->0 as int }
@fn CalculatedPageStates::SealedPageStatesCache::get_page_state props=C14,C19
@fn CalculatedPageStates::SealedPageStatesCache::notice_page_state props=C14,C19
@start
    proof {
        let n = self.page_count as int;
        if self.anchor is Some { wrap_mod(self.anchor->0 + 1, n); wrap_mod(self.anchor->0 + self.open_pages, n); }
        wrap_mod(page_index + 1, n);
    }
@fn CalculatedPageStates::SealedPageStatesCache::invalidate_cache_state props=C14

@insert impl ArrayPageStates::SealedPageStatesCache
    open spec fn pinv(&self, n: int) -> bool { n <= PAGE_COUNT }
    open spec fn pst(&self, p: int) -> Option<PageState> { if 0 <= p < self.pages@.len() { self.pages@[p] } else { None } }
    open spec fn pexact() -> bool { true }
    open spec fn pnc(&self) -> int { 0 }
@fn ArrayPageStates::new props=C14
    ensures forall|q: int| #[trigger] r.pst(q) is None, // @C14
@fn ArrayPageStates::SealedPageStatesCache::get_page_state props=C14,C19
@fn ArrayPageStates::SealedPageStatesCache::notice_page_state props=C14,C19
@fn ArrayPageStates::SealedPageStatesCache::invalidate_cache_state props=C14
@loop 0
    invariant __m1 <= self.pages@.len(), forall|q: int| 0 <= q < __m1 ==> self.pages@[q] is None,
    decreases self.pages@.len() - __m1,
@insert impl HeapPageStates::SealedPageStatesCache
    open spec fn pinv(&self, n: int) -> bool { n <= self.pages@.len() }
    open spec fn pst(&self, p: int) -> Option<PageState> { if 0 <= p < self.pages@.len() { self.pages@[p] } else { None } }
    open spec fn pexact() -> bool { true }
    open spec fn pnc(&self) -> int { 0 }
@fn HeapPageStates::new props=C14
    ensures r.pages@.len() == page_count, forall|q: int| #[trigger] r.pst(q) is None, // @C14
@fn HeapPageStates::SealedPageStatesCache::get_page_state props=C14,C19
@fn HeapPageStates::SealedPageStatesCache::notice_page_state props=C14,C19
@fn HeapPageStates::SealedPageStatesCache::invalidate_cache_state props=C14
@loop 0
    invariant __m1 <= self.pages@.len(), self.pages@.len() == old(self).pages@.len(), forall|q: int| 0 <= q < __m1 ==> self.pages@[q] is None,
    decreases self.pages@.len() - __m1,
