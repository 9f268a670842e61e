# src/cache/key_pointers.rs
@raw
/// the encoding of a key; keys are equal exactly when their encodings are
pub uninterp spec fn key_id<K>(k: K) -> Seq<u8>;
#[verifier::external_body]
pub proof fn key_ax<K: Key>()
    ensures K::obeys_eq_spec(), forall|a: K, b: K| #[trigger] a.eq_spec(&b) <==> (key_id(a) == key_id(b)),
        forall|a: &K, b: K| #[trigger] call_ensures(K::clone, (a,), b) ==> key_id(b) == key_id(*a),
        forall|a: K| #[trigger] key_id(a) == a.kser() {}
pub type KP<K> = Option<(K, NonZeroU32)>;
pub open spec fn kp_is<K>(e: KP<K>, id: Seq<u8>) -> bool { e is Some && key_id((e->0).0) == id }
pub open spec fn kp_pos<K>(s: Seq<KP<K>>, id: Seq<u8>) -> int { choose|i: int| 0 <= i < s.len() && #[trigger] kp_is(s[i], id) }
pub open spec fn kp_has<K>(s: Seq<KP<K>>, id: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] kp_is(s[i], id) }
/// the cached address of a key
pub open spec fn kp_at<K>(s: Seq<KP<K>>, id: Seq<u8>) -> Option<u32> { if kp_has(s, id) { Some((s[kp_pos(s, id)]->0).1@) } else { None } }
/// no key is there twice
pub open spec fn kp_uniq<K>(s: Seq<KP<K>>) -> bool { forall|i: int, j: int, id: Seq<u8>| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] kp_is(s[i], id) && #[trigger] kp_is(s[j], id) ==> i == j }
pub open spec fn kp_in<K>(s: Seq<KP<K>>, g: Geo) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> head_in(g, (s[i]->0).1@ as int) }
pub open spec fn kp_ok<K>(s: Seq<KP<K>>, g: Geo) -> bool { kp_uniq(s) && kp_in(s, g) }
pub proof fn kp_at_is<K>(s: Seq<KP<K>>, i: int)
    requires kp_uniq(s), 0 <= i < s.len(), s[i] is Some
    ensures kp_at(s, key_id((s[i]->0).0)) == Some((s[i]->0).1@)
{ assert(kp_is(s[i], key_id((s[i]->0).0))); }
/// s2 has the entries of s in another order, with entry i replaced by e
pub open spec fn kp_moved<K>(s2: Seq<KP<K>>, s: Seq<KP<K>>, i: int, to: int, e: KP<K>) -> bool { s2 == s.remove(i).insert(to, e) }
pub proof fn kp_replace<K>(s: Seq<KP<K>>, i: int, to: int, e: KP<K>, id: Seq<u8>)
    requires kp_uniq(s), 0 <= i < s.len(), 0 <= to < s.len(), e is Some ==> key_id((e->0).0) == id, kp_is(s[i], id) || !kp_has(s, id)
    ensures ({ let t = s.remove(i).insert(to, e);
        &&& kp_uniq(t)
        &&& kp_at(t, id) == (if e is Some { Some((e->0).1@) } else { None })
        &&& forall|k: Seq<u8>| k != id && kp_at(t, k) is Some ==> #[trigger] kp_at(t, k) == kp_at(s, k)
        &&& forall|g: Geo| #[trigger] kp_in(s, g) && (e is Some ==> head_in(g, (e->0).1@ as int)) ==> kp_in(t, g) })
{
    let t = s.remove(i).insert(to, e);
    let src = |j: int| -> int { let m = if j < to { j } else { j - 1 }; if m < i { m } else { m + 1 } };
    assert forall|j: int| 0 <= j < t.len() && j != to implies t[j] == s[#[trigger] src(j)] && 0 <= src(j) < s.len() && src(j) != i by {}
    assert forall|j: int, j2: int| 0 <= j < t.len() && 0 <= j2 < t.len() && j != to && j2 != to && j != j2 implies #[trigger] src(j) != #[trigger] src(j2) by {}
    assert forall|j: int| 0 <= j < t.len() && #[trigger] kp_is(t[j], id) implies j == to by { if j != to { let z = src(j); assert(kp_is(s[z], id)); } }
    assert forall|a: int, b: int, k: Seq<u8>| 0 <= a < t.len() && 0 <= b < t.len() && #[trigger] kp_is(t[a], k) && #[trigger] kp_is(t[b], k) implies a == b by {
        if k != id && a != b { let x = src(a); let y = src(b); assert(kp_is(s[x], k) && kp_is(s[y], k)); }
    }
    if e is Some { assert(kp_is(t[to], id)); }
    assert forall|k: Seq<u8>| k != id && kp_at(t, k) is Some implies #[trigger] kp_at(t, k) == kp_at(s, k) by {
        let j = kp_pos(t, k); let z = src(j);
        assert(kp_is(t[j], k)); assert(j != to); assert(kp_is(s[z], k)); assert(kp_pos(s, k) == z);
    }
    assert forall|g: Geo| #[trigger] kp_in(s, g) && (e is Some ==> head_in(g, (e->0).1@ as int)) implies kp_in(t, g) by {
        assert forall|j: int| 0 <= j < t.len() && (#[trigger] t[j]) is Some implies head_in(g, (t[j]->0).1@ as int) by { if j != to { let z = src(j); assert(s[z] is Some); } }
    }
}
@insert trait SealedKeyPointersCache super
: Sized
@insert trait SealedKeyPointersCache
    spec fn kpinv(&self, g: Geo) -> bool;
    spec fn kkl(&self, id: Seq<u8>) -> Option<u32>;
    proof fn kpinv_law(&self, g: Geo, id: Seq<u8>)
        requires self.kpinv(g), geo_ok(g)
        ensures self.kkl(id) is Some ==> head_in(g, self.kkl(id)->0 as int);
@fn SealedKeyPointersCache::key_location props=C14
    requires exists|g: Geo| #[trigger] self.kpinv(g), // @C19
    ensures r == self.kkl(key_id(*key)), // @C14
@fn SealedKeyPointersCache::notice_key_location props=C14,C19
    requires item_address > 0, exists|g: Geo| #[trigger] old(self).kpinv(g), // @C19
    ensures forall|g: Geo| #[trigger] old(self).kpinv(g) && head_in(g, item_address as int) ==> final(self).kpinv(g), // @C14
        final(self).kkl(key_id(*key)) is Some ==> final(self).kkl(key_id(*key)) == Some(item_address), // @C14
        forall|k: Seq<u8>| k != key_id(*key) && final(self).kkl(k) is Some ==> #[trigger] final(self).kkl(k) == old(self).kkl(k), // @C14
@fn SealedKeyPointersCache::notice_key_erased props=C14
    requires exists|g: Geo| #[trigger] old(self).kpinv(g), // @C19
    ensures forall|g: Geo| #[trigger] old(self).kpinv(g) ==> final(self).kpinv(g), // @C14
        final(self).kkl(key_id(*key)) is None, // @C14
        forall|k: Seq<u8>| k != key_id(*key) && final(self).kkl(k) is Some ==> #[trigger] final(self).kkl(k) == old(self).kkl(k), // @C14
@fn SealedKeyPointersCache::invalidate_cache_state props=C14
    ensures forall|g: Geo| #[trigger] old(self).kpinv(g) ==> final(self).kpinv(g), // @C14
        forall|k: Seq<u8>| #[trigger] final(self).kkl(k) is None, // @C14
@fn move_to_front props=C14,C19
    requires index < old(data)@.len(), // @C19
    ensures final(data)@ == old(data)@.remove(index as int).insert(0, old(data)@[index as int]), // @C14
@after `data[..=index].rotate_right(1);` optional
    proof { assert(data@ =~= old(data)@.remove(index as int).insert(0, old(data)@[index as int])); }
@fn move_to_back props=C14,C19
    requires index < old(data)@.len(), // @C19
    ensures final(data)@ == old(data)@.remove(index as int).insert(old(data)@.len() - 1, old(data)@[index as int]), // @C14
@after `data[index..].rotate_left(1);` optional
    proof { assert(data@ =~= old(data)@.remove(index as int).insert(old(data)@.len() - 1, old(data)@[index as int])); }
@fn ArrayKeyPointers::new props=C14 trusted
    ensures forall|i: int| 0 <= i < KEYS ==> r.key_pointers@[i] is None, // @C14
@fn ArrayKeyPointers::as_tracked props=C14
    ensures r.key_pointers@ == old(self).key_pointers@, final(self).key_pointers@ == final(r.key_pointers)@, // @C14
        forall|g: Geo| #![trigger r.kpinv(g)] #![trigger old(self).kpinv(g)] r.kpinv(g) == old(self).kpinv(g),
@fn HeapKeyPointers::new props=C14
    ensures forall|i: int| 0 <= i < keys ==> r.key_pointers@[i] is None, r.key_pointers@.len() == keys, // @C14
@fn HeapKeyPointers::as_tracked props=C14
    ensures r.key_pointers@ == old(self).key_pointers@, final(self).key_pointers@ == final(r.key_pointers)@, // @C14
        forall|g: Geo| #![trigger r.kpinv(g)] #![trigger old(self).kpinv(g)] r.kpinv(g) == old(self).kpinv(g),
@insert impl ArrayKeyPointers::SealedKeyPointersCache
    open spec fn kpinv(&self, g: Geo) -> bool { kp_ok(self.key_pointers@, g) }
    open spec fn kkl(&self, id: Seq<u8>) -> Option<u32> { kp_at(self.key_pointers@, id) }
    proof fn kpinv_law(&self, g: Geo, id: Seq<u8>) {}
@fn ArrayKeyPointers::SealedKeyPointersCache::key_location props=C14,C19
@start
    proof { key_ax::<KEY>(); assert(exists|g: Geo| #[trigger] self.kpinv(g)); assert(kp_uniq(self.key_pointers@)); }
@loop 0
    invariant __f1 <= self.key_pointers@.len(),
        __r1 is Some ==> kp_at(self.key_pointers@, key_id(*key)) == __r1, // @C14
        __r1 is None ==> forall|i: int| 0 <= i < __f1 ==> !#[trigger] kp_is(self.key_pointers@[i], key_id(*key)), // @C14
    decreases self.key_pointers@.len() - __f1
@body 0
    proof { if self.key_pointers@[__f1 as int] is Some { let g = choose|g: Geo| #[trigger] self.kpinv(g); kp_at_is(self.key_pointers@, __f1 as int); } }
@fn ArrayKeyPointers::SealedKeyPointersCache::notice_key_location props=C14,C19
@fn ArrayKeyPointers::SealedKeyPointersCache::notice_key_erased props=C14,C19
@fn ArrayKeyPointers::SealedKeyPointersCache::invalidate_cache_state props=C14,C19
@insert impl HeapKeyPointers::SealedKeyPointersCache
    open spec fn kpinv(&self, g: Geo) -> bool { kp_ok(self.key_pointers@, g) }
    open spec fn kkl(&self, id: Seq<u8>) -> Option<u32> { kp_at(self.key_pointers@, id) }
    proof fn kpinv_law(&self, g: Geo, id: Seq<u8>) {}
@fn HeapKeyPointers::SealedKeyPointersCache::key_location props=C14,C19
@start
    proof { key_ax::<KEY>(); assert(exists|g: Geo| #[trigger] self.kpinv(g)); assert(kp_uniq(self.key_pointers@)); }
@loop 0
    invariant __f1 <= self.key_pointers@.len(),
        __r1 is Some ==> kp_at(self.key_pointers@, key_id(*key)) == __r1, // @C14
        __r1 is None ==> forall|i: int| 0 <= i < __f1 ==> !#[trigger] kp_is(self.key_pointers@[i], key_id(*key)), // @C14
    decreases self.key_pointers@.len() - __f1
@body 0
    proof { if self.key_pointers@[__f1 as int] is Some { let g = choose|g: Geo| #[trigger] self.kpinv(g); kp_at_is(self.key_pointers@, __f1 as int); } }
@fn HeapKeyPointers::SealedKeyPointersCache::notice_key_location props=C14,C19
@fn HeapKeyPointers::SealedKeyPointersCache::notice_key_erased props=C14,C19
@fn HeapKeyPointers::SealedKeyPointersCache::invalidate_cache_state props=C14,C19
@insert impl TrackedKeyPointers::SealedKeyPointersCache
    open spec fn kpinv(&self, g: Geo) -> bool { kp_ok(self.key_pointers@, g) }
    open spec fn kkl(&self, id: Seq<u8>) -> Option<u32> { kp_at(self.key_pointers@, id) }
    proof fn kpinv_law(&self, g: Geo, id: Seq<u8>) {}
@fn TrackedKeyPointers::insert_front props=C14,C19
    ensures final(final(self).key_pointers)@ == final(old(self).key_pointers)@,
        old(self).key_pointers@.len() == 0 ==> final(self).key_pointers@ == old(self).key_pointers@,
        old(self).key_pointers@.len() > 0 ==> final(self).key_pointers@ == old(self).key_pointers@.remove(old(self).key_pointers@.len() - 1).insert(0, Some(value)), // @C14
@after `move_to_front(self.key_pointers, last_index);` optional
    proof { assert(self.key_pointers@ =~= old(self).key_pointers@.remove(old(self).key_pointers@.len() - 1).insert(0, Some(value))); }
@fn TrackedKeyPointers::SealedKeyPointersCache::key_location props=C14,C19
@start
    proof { key_ax::<KEY>(); assert(exists|g: Geo| #[trigger] self.kpinv(g)); assert(kp_uniq(self.key_pointers@)); }
@loop 0
    invariant __f1 <= self.key_pointers@.len(),
        __r1 is Some ==> kp_at(self.key_pointers@, key_id(*key)) == __r1, // @C14
        __r1 is None ==> forall|i: int| 0 <= i < __f1 ==> !#[trigger] kp_is(self.key_pointers@[i], key_id(*key)), // @C14
    decreases self.key_pointers@.len() - __f1
@body 0
    proof { if self.key_pointers@[__f1 as int] is Some { let g = choose|g: Geo| #[trigger] self.kpinv(g); kp_at_is(self.key_pointers@, __f1 as int); } }
@fn TrackedKeyPointers::SealedKeyPointersCache::notice_key_location props=C14,C19
    ensures final(final(self).key_pointers)@ == final(old(self).key_pointers)@,
        forall|k: Seq<u8>| k != key_id(*key) && kp_at(final(self).key_pointers@, k) is Some ==> #[trigger] kp_at(final(self).key_pointers@, k) == kp_at(old(self).key_pointers@, k), // @C14
@start
    proof { key_ax::<KEY>(); }
@loop 0
    invariant __f1 <= self.key_pointers@.len(), self.key_pointers@ == old(self).key_pointers@,
        __r1 is Some ==> __r1->0 < self.key_pointers@.len() && kp_is(self.key_pointers@[__r1->0 as int], key_id(*key)), // @C14
        __r1 is None ==> forall|i: int| 0 <= i < __f1 ==> !#[trigger] kp_is(self.key_pointers@[i], key_id(*key)), // @C14
    decreases self.key_pointers@.len() - __f1
@fn TrackedKeyPointers::SealedKeyPointersCache::notice_key_erased props=C14,C19
    ensures final(final(self).key_pointers)@ == final(old(self).key_pointers)@,
        forall|k: Seq<u8>| k != key_id(*key) && kp_at(final(self).key_pointers@, k) is Some ==> #[trigger] kp_at(final(self).key_pointers@, k) == kp_at(old(self).key_pointers@, k), // @C14
@start
    proof { key_ax::<KEY>(); }
@loop 0
    invariant __f1 <= self.key_pointers@.len(), self.key_pointers@ == old(self).key_pointers@,
        __r1 is Some ==> __r1->0 < self.key_pointers@.len() && kp_is(self.key_pointers@[__r1->0 as int], key_id(*key)), // @C14
        __r1 is None ==> forall|i: int| 0 <= i < __f1 ==> !#[trigger] kp_is(self.key_pointers@[i], key_id(*key)), // @C14
    decreases self.key_pointers@.len() - __f1
@fn TrackedKeyPointers::SealedKeyPointersCache::invalidate_cache_state props=C14,C19
    ensures final(final(self).key_pointers)@ == final(old(self).key_pointers)@,
        forall|k: Seq<u8>| #[trigger] kp_at(final(self).key_pointers@, k) is None, // @C14
@loop 0
    invariant __m1 <= self.key_pointers@.len(), self.key_pointers@.len() == old(self).key_pointers@.len(), forall|q: int| 0 <= q < __m1 ==> self.key_pointers@[q] is None,
    decreases self.key_pointers@.len() - __m1,
