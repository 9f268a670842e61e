# src/map.rs: keys and values
@insert trait Key
    /// the serialized form
    spec fn kser(&self) -> Seq<u8>;
    /// b deserializes to k, which takes the first n bytes
    spec fn kde(b: Seq<u8>, k: Self, n: int) -> bool;
    /// the two are the same key
    spec fn ksame(&self, k: &Self) -> bool;
    /// serialization and deserialization agree, also when more bytes follow
    proof fn key_law(&self, b: Seq<u8>, k: &Self, n: int)
        requires self.kser().is_prefix_of(b), Self::kde(b, *k, n)
        ensures n == self.kser().len(), k.kser() == self.kser(), self.ksame(k);
    /// no encoding is the beginning of another one, different keys have different encodings
    proof fn key_prefix_law(&self, o: &Self)
        requires self.kser().is_prefix_of(o.kser())
        ensures self.ksame(o), self.kser() == o.kser();
    /// the errors serialization into cap bytes and deserialization of b may give
    spec fn kserr(&self, cap: int, e: SerializationError) -> bool;
    spec fn kderr(b: Seq<u8>, e: SerializationError) -> bool;
    proof fn key_len_law(b: Seq<u8>, k: &Self, n: int)
        requires Self::kde(b, *k, n)
        ensures 0 <= n <= b.len();
@fn Key::serialize_into props=C17
    ensures final(buffer)@.len() == old(buffer)@.len(), // @C17,C19
        r is Ok ==> r->Ok_0 == self.kser().len() && r->Ok_0 <= old(buffer)@.len() && final(buffer)@.subrange(0, r->Ok_0 as int) == self.kser(), // @C17
        r is Err ==> self.kserr(old(buffer)@.len() as int, r->Err_0), // @C17
        forall|i: int| self.kser().len() <= i < old(buffer)@.len() ==> final(buffer)@[i] == old(buffer)@[i], // @C17
@fn Key::deserialize_from props=C17
    ensures r is Ok ==> Self::kde(buffer@, r->Ok_0.0, r->Ok_0.1 as int), // @C17
        r is Err ==> Self::kderr(buffer@, r->Err_0), // @C17
        forall|k: Self| (#[trigger] k.kser()).is_prefix_of(buffer@) ==> r is Ok, // @C17
@fn Key::get_len props=C17
    ensures
        r is Err ==> Self::kderr(buffer@, r->Err_0), // @C17
        forall|k: Self| (#[trigger] k.kser()).is_prefix_of(buffer@) ==> r is Ok && r->Ok_0 == k.kser().len(), // @C17
@start
    proof { assert forall|k: Self, k2: Self, n: int| (#[trigger] k.kser()).is_prefix_of(buffer@) && #[trigger] Self::kde(buffer@, k2, n) implies n == k.kser().len() by { k.key_law(buffer@, &k2, n); } }

@insert impl $int::Key
    open spec fn kserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < <$int as LeBytes>::width() }
    open spec fn kderr(b: Seq<u8>, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && b.len() < <$int as LeBytes>::width() }
    open spec fn kser(&self) -> Seq<u8> { self.le_spec() }
    open spec fn kde(b: Seq<u8>, k: Self, n: int) -> bool { n == <$int as LeBytes>::width() && b.len() >= n && k == <$int as LeBytes>::un_spec(b.subrange(0, n)) }
    open spec fn ksame(&self, k: &Self) -> bool { *self == *k }
    proof fn key_law(&self, b: Seq<u8>, k: &Self, n: int) { self.le_law(); assert(b.subrange(0, n) =~= self.kser()); }
    proof fn key_len_law(b: Seq<u8>, k: &Self, n: int) { k.le_law(); }
    proof fn key_prefix_law(&self, o: &Self) { self.le_law(); o.le_law(); assert(self.kser() =~= o.kser()); }
@fn $int::Key::serialize_into props=C17
@start
    proof { <$int as LeBytes>::le_law_all(); }
@fn $int::Key::deserialize_from props=C17
@start
    proof { <$int as LeBytes>::le_law_all(); }
@fn $int::Key::get_len props=C17
@start
    proof { <$int as LeBytes>::le_law_all(); }

@insert impl [u8;N]::Key
    open spec fn kserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < N }
    open spec fn kderr(b: Seq<u8>, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && b.len() < N }
    open spec fn kser(&self) -> Seq<u8> { self@ }
    open spec fn kde(b: Seq<u8>, k: Self, n: int) -> bool { n == N && b.len() >= n && k@ == b.subrange(0, n) }
    open spec fn ksame(&self, k: &Self) -> bool { self@ == k@ }
    proof fn key_law(&self, b: Seq<u8>, k: &Self, n: int) { assert(b.subrange(0, n) =~= self.kser()); }
    proof fn key_len_law(b: Seq<u8>, k: &Self, n: int) { }
    proof fn key_prefix_law(&self, o: &Self) { assert(self.kser() =~= o.kser()); }
@fn [u8;N]::Key::serialize_into props=C17
@fn [u8;N]::Key::deserialize_from props=C17
@fn [u8;N]::Key::get_len props=C17
@insert trait Value
    /// the serialized form
    spec fn vser(&self) -> Seq<u8>;
    /// b deserializes to v, which takes the first n bytes
    spec fn vde(b: Seq<u8>, v: Self, n: int) -> bool where Self: Sized;
    /// the two are the same value
    spec fn vsame(&self, v: &Self) -> bool;
    /// deserializes also when more bytes follow
    spec fn vfixed() -> bool where Self: Sized;
    /// serialization and deserialization agree
    proof fn value_law(&self, b: Seq<u8>, v: &Self, n: int) where Self: Sized
        requires self.vser() == b || (Self::vfixed() && self.vser().is_prefix_of(b)), Self::vde(b, *v, n)
        ensures n == self.vser().len(), self.vsame(v), v.vser() == self.vser();
    /// the errors serialization into cap bytes and deserialization of b may give
    spec fn vserr(&self, cap: int, e: SerializationError) -> bool;
    spec fn vderr(b: Seq<u8>, e: SerializationError) -> bool where Self: Sized;
    proof fn value_len_law(b: Seq<u8>, v: &Self, n: int) where Self: Sized
        requires Self::vde(b, *v, n)
        ensures 0 <= n <= b.len();
@fn Value::serialize_into props=C17
    ensures final(buffer)@.len() == old(buffer)@.len(), // @C17,C19
        r is Ok ==> r->Ok_0 == self.vser().len() && r->Ok_0 <= old(buffer)@.len() && final(buffer)@.subrange(0, r->Ok_0 as int) == self.vser(), // @C17
        r is Err ==> self.vserr(old(buffer)@.len() as int, r->Err_0), // @C17
        forall|i: int| self.vser().len() <= i < old(buffer)@.len() ==> final(buffer)@[i] == old(buffer)@[i], // @C17
@fn Value::deserialize_from props=C17
    ensures r is Ok ==> Self::vde(buffer@, r->Ok_0.0, r->Ok_0.1 as int), // @C17
        r is Err ==> Self::vderr(buffer@, r->Err_0), // @C17
        forall|v: Self| (#[trigger] v.vser()) == buffer@ || (Self::vfixed() && v.vser().is_prefix_of(buffer@)) ==> r is Ok, // @C17

@insert impl $num::Value
    open spec fn vserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < <$num as LeBytes>::width() }
    open spec fn vderr(b: Seq<u8>, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && b.len() < <$num as LeBytes>::width() }
    open spec fn vser(&self) -> Seq<u8> { self.le_spec() }
    open spec fn vde(b: Seq<u8>, v: Self, n: int) -> bool { n == <$num as LeBytes>::width() && b.len() >= n && v == <$num as LeBytes>::un_spec(b.subrange(0, n)) }
    open spec fn vsame(&self, v: &Self) -> bool { *self == *v }
    open spec fn vfixed() -> bool { true }
    proof fn value_law(&self, b: Seq<u8>, v: &Self, n: int) { self.le_law(); assert(b.subrange(0, n) =~= self.vser()); }
    proof fn value_len_law(b: Seq<u8>, v: &Self, n: int) { v.le_law(); }
@fn $num::Value::serialize_into props=C17
@start
    proof { <$num as LeBytes>::le_law_all(); }
@fn $num::Value::deserialize_from props=C17
@start
    proof { <$num as LeBytes>::le_law_all(); }

@insert impl bool::Value
    open spec fn vserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < 1 }
    open spec fn vderr(b: Seq<u8>, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && b.len() < 1 }
    open spec fn vser(&self) -> Seq<u8> { (if *self { 1u8 } else { 0u8 }).vser() }
    open spec fn vde(b: Seq<u8>, v: Self, n: int) -> bool { n == 1 && b.len() >= 1 && v == (<u8 as LeBytes>::un_spec(b.subrange(0, 1)) != 0) }
    open spec fn vsame(&self, v: &Self) -> bool { *self == *v }
    open spec fn vfixed() -> bool { true }
    proof fn value_law(&self, b: Seq<u8>, v: &Self, n: int) { let x = if *self { 1u8 } else { 0u8 }; x.le_law(); assert(b.subrange(0, n) =~= x.vser()); }
    proof fn value_len_law(b: Seq<u8>, v: &Self, n: int) { }
@fn bool::Value::serialize_into props=C17
@start
    proof { <u8 as LeBytes>::le_law_all(); }
@fn bool::Value::deserialize_from props=C17
@start
    proof { <u8 as LeBytes>::le_law_all(); }

@insert impl Option::Value
    open spec fn vserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < 1 || cap >= 1 && self is Some && self->Some_0.vserr(cap - 1, e) }
    open spec fn vderr(b: Seq<u8>, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && b.len() < 1 || b.len() >= 1 && T::vderr(b.subrange(1, b.len() as int), e) }
    open spec fn vser(&self) -> Seq<u8> { match self { Some(v) => true.vser() + v.vser(), None => false.vser() } }
    open spec fn vde(b: Seq<u8>, v: Self, n: int) -> bool {
        bool::vde(b, v is Some, 1) && match v { Some(x) => n >= 1 && T::vde(b.subrange(1, b.len() as int), x, n - 1), None => n == 1 }
    }
    open spec fn vsame(&self, v: &Self) -> bool { match self { Some(x) => v is Some && x.vsame(&v->Some_0), None => v is None } }
    open spec fn vfixed() -> bool { T::vfixed() }
    proof fn value_law(&self, b: Seq<u8>, v: &Self, n: int) {
        1u8.le_law(); 0u8.le_law();
        let t = if self is Some { true } else { false };
        t.value_law(b, &(v is Some), 1);
        if self is Some {
            let x = self->Some_0;
            let c = b.subrange(1, b.len() as int);
            if self.vser() == b { assert(c =~= x.vser()); } else { assert(x.vser().is_prefix_of(c)) by { assert forall|i: int| 0 <= i < x.vser().len() implies #[trigger] c[i] == x.vser()[i] by { assert(b[i + 1] == self.vser()[i + 1]); } assert(c.subrange(0, x.vser().len() as int) =~= x.vser()); }; }
            x.value_law(c, &(v->Some_0), n - 1);
        }
    }
    proof fn value_len_law(b: Seq<u8>, v: &Self, n: int) { if v is Some { T::value_len_law(b.subrange(1, b.len() as int), &v->Some_0, n - 1); } }
@fn Option::Value::serialize_into props=C17
@start
    proof { <u8 as LeBytes>::le_law_all(); assert(vstd::slice::spec_slice_len(buffer) <= usize::MAX); }
    let ghost ob = buffer@;
@before `Ok(size)` optional
    proof { assert(buffer@.subrange(0, size as int) =~= self.vser()); }
@fn Option::Value::deserialize_from props=C17
@start
    proof {
        <u8 as LeBytes>::le_law_all();
        let t = buffer@.subrange(1, buffer@.len() as int);
        assert forall|v: Self| v is Some && ((#[trigger] v.vser()) == buffer@ || (Self::vfixed() && v.vser().is_prefix_of(buffer@))) implies
            v->Some_0.vser() == t || (T::vfixed() && v->Some_0.vser().is_prefix_of(t)) by {
            let x = v->Some_0;
            if v.vser() == buffer@ { assert(t =~= x.vser()); } else {
                assert forall|i: int| 0 <= i < x.vser().len() implies #[trigger] t[i] == x.vser()[i] by { assert(buffer@[i + 1] == v.vser()[i + 1]); }
                assert(t.subrange(0, x.vser().len() as int) =~= x.vser());
            }
        }
        assert forall|v: Self| ((#[trigger] v.vser()) == buffer@ || (Self::vfixed() && v.vser().is_prefix_of(buffer@))) implies buffer@.len() >= 1 && (buffer@[0] == 1u8.vser()[0] <==> v is Some) by {
            let f = v.vser()[0]; 
            1u8.le_law(); 0u8.le_law();
            assert(1u8.vser() =~= seq![1u8.vser()[0]]); assert(0u8.vser() =~= seq![0u8.vser()[0]]);
            assert(1u8.vser()[0] != 0u8.vser()[0]);
        }
        assert(buffer@.len() >= 1 ==> buffer@.subrange(0, 1) =~= seq![buffer@[0]]);
        assert(1u8.vser() =~= seq![1u8.vser()[0]]); assert(0u8.vser() =~= seq![0u8.vser()[0]]);
    }
@before `Ok((Some(value), tag_size + value_size))` optional
    proof { assert(vstd::slice::spec_slice_len(buffer) <= usize::MAX); T::value_len_law(buffer@.subrange(1, buffer@.len() as int), &value, value_size as int); }
@fn [u8]::Value::serialize_into props=C17
@fn [u8]::Value::deserialize_from props=C17
@insert impl [u8]::Value
    open spec fn vserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < self@.len() }
    open spec fn vderr(b: Seq<u8>, e: SerializationError) -> bool { false }
    open spec fn vser(&self) -> Seq<u8> { self@ }
    open spec fn vde(b: Seq<u8>, v: Self, n: int) -> bool { v@ == b && n == b.len() }
    open spec fn vsame(&self, v: &Self) -> bool { self@ == v@ }
    open spec fn vfixed() -> bool { false }
    proof fn value_law(&self, b: Seq<u8>, v: &Self, n: int) { }
    proof fn value_len_law(b: Seq<u8>, v: &Self, n: int) { }
@fn [$num;N]::Value::serialize_into props=C17
@start
    proof { <$num as LeBytes>::le_law_all(); array_fits::<$num, N>(); assert(<$num as LeBytes>::width() * N == N * <$num as LeBytes>::width()) by (nonlinear_arith); }
    let ghost ob = buffer@;
@loop 0
    invariant __z1 <= N, elem_size == <$num as LeBytes>::width(), buffer@.len() == N * <$num as LeBytes>::width(),
        forall|j: int| 0 <= j < __z1 * <$num as LeBytes>::width() ==> #[trigger] buffer@[j] == seq_le(self@)[j], // @C17
    decreases N - __z1
@body 0
    proof { arr_chunk(self@, buffer@, __z1 as int); }
@fn [$num;N]::Value::deserialize_from props=C17
@start
    proof { <$num as LeBytes>::le_law_all(); array_fits::<$num, N>(); assert(<$num as LeBytes>::width() * N == N * <$num as LeBytes>::width()) by (nonlinear_arith); }
@loop 0
    invariant __z1 <= N, elem_size == <$num as LeBytes>::width(), buffer@.len() >= N * <$num as LeBytes>::width(),
        forall|j: int| 0 <= j < __z1 ==> #[trigger] array@[j] == <$num as LeBytes>::un_spec(chunk_at(buffer@, j, <$num as LeBytes>::width())), // @C17
    decreases N - __z1
@body 0
    proof { arr_chunk(array@, buffer@, __z1 as int); }
@insert impl [$num;N]::Value
    open spec fn vserr(&self, cap: int, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && cap < N * <$num as LeBytes>::width() }
    open spec fn vderr(b: Seq<u8>, e: SerializationError) -> bool { e == SerializationError::BufferTooSmall && b.len() < N * <$num as LeBytes>::width() }
    open spec fn vser(&self) -> Seq<u8> { seq_le(self@) }
    open spec fn vde(b: Seq<u8>, v: Self, n: int) -> bool { n == N * <$num as LeBytes>::width() && b.len() >= n && forall|i: int| 0 <= i < N ==> (#[trigger] v@[i]) == <$num as LeBytes>::un_spec(chunk_at(b, i, <$num as LeBytes>::width())) }
    open spec fn vsame(&self, v: &Self) -> bool { self@ == v@ }
    open spec fn vfixed() -> bool { true }
    proof fn value_law(&self, b: Seq<u8>, v: &Self, n: int) { arr_law(self@, b, v@); }
    proof fn value_len_law(b: Seq<u8>, v: &Self, n: int) { <$num as LeBytes>::le_law_all(); assert(N * <$num as LeBytes>::width() >= 0) by (nonlinear_arith) requires <$num as LeBytes>::width() >= 1; }
@raw
pub open spec fn chunk_at(b: Seq<u8>, i: int, w: int) -> Seq<u8> { b.subrange(i * w, (i + 1) * w) }
/// the encodings of the elements one after the other
pub open spec fn seq_le<T: LeBytes>(s: Seq<T>) -> Seq<u8> { Seq::new((s.len() * T::width()) as nat, |j: int| s[j / T::width()].le_spec()[j % T::width()]) }
pub proof fn arr_chunk<T: LeBytes>(s: Seq<T>, b: Seq<u8>, i: int)
    requires 0 <= i < s.len(), b.len() >= s.len() * T::width()
    ensures 0 <= i * T::width() <= (i + 1) * T::width() <= s.len() * T::width(), seq_le(s).is_prefix_of(b) ==> chunk_at(b, i, T::width()) == s[i].le_spec()
{
    let w = T::width();
    s[i].le_law();
    assert(0 <= i * w && i * w + w == (i + 1) * w && (i + 1) * w <= s.len() * w) by (nonlinear_arith) requires 0 <= i < s.len(), w >= 1;
    if seq_le(s).is_prefix_of(b) {
        assert forall|k: int| 0 <= k < w implies #[trigger] chunk_at(b, i, w)[k] == s[i].le_spec()[k] by {
            let j = i * w + k;
            assert(j / w == i && j % w == k) by (nonlinear_arith) requires j == i * w + k, 0 <= k < w, 0 <= i;
            assert(b[j] == seq_le(s)[j]);
        }
        assert(chunk_at(b, i, w) =~= s[i].le_spec());
    }
}
pub proof fn arr_law<T: LeBytes>(s: Seq<T>, b: Seq<u8>, v: Seq<T>)
    requires seq_le(s).is_prefix_of(b), v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]) == T::un_spec(chunk_at(b, i, T::width()))
    ensures v == s
{
    assert forall|i: int| 0 <= i < s.len() implies v[i] == s[i] by {
        s[i].le_law();
        assert(seq_le(s).len() == s.len() * T::width());
        arr_chunk(s, b, i);
    }
    assert(v =~= s);
}
