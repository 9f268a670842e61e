# src/queue/buffered.rs
@drop impl RamRing::Default -- calls new
@raw
// ------------------------------------------------------------ the RAM ring
/// the bytes a queue of items takes in the ring: length prefix (little endian) and data of each
pub open spec fn flat(items: Seq<Seq<u8>>) -> Seq<u8>
    decreases items.len()
{
    if items.len() == 0 { Seq::empty() } else { flat(items.drop_last()) + le16(items.last().len() as u16) + items.last() }
}
pub open spec fn lens_ok(items: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).len() <= 0xffff }
/// the bytes of the ring in order
pub open spec fn lin(buf: Seq<u8>, pos: int, used: int) -> Seq<u8> { Seq::new(used as nat, |k: int| buf[(pos + k) % (buf.len() as int)]) }
pub open spec fn is_ring(buf: Seq<u8>, read: int, write: int, used: int, items: Seq<Seq<u8>>) -> bool {
    &&& 0 <= used <= buf.len() && buf.len() <= usize::MAX / 2
    &&& buf.len() > 0 ==> 0 <= read < buf.len() && write == (read + used) % (buf.len() as int)
    &&& buf.len() == 0 ==> read == 0 && write == 0
    &&& lin(buf, read, used) == flat(items)
    &&& lens_ok(items)
}
pub proof fn flat_first(items: Seq<Seq<u8>>)
    requires items.len() > 0
    ensures flat(items) == le16(items[0].len() as u16) + items[0] + flat(items.drop_first())
    decreases items.len()
{
    if items.len() == 1 {
        assert(items.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(items.drop_first() =~= Seq::<Seq<u8>>::empty());
        assert(flat(items) =~= le16(items[0].len() as u16) + items[0] + flat(items.drop_first()));
    } else {
        flat_first(items.drop_last());
        assert(items.drop_last().drop_first() =~= items.drop_first().drop_last());
        assert(items.drop_first().last() == items.last());
        assert(flat(items) =~= le16(items[0].len() as u16) + items[0] + flat(items.drop_first()));
    }
}
pub proof fn flat_len(items: Seq<Seq<u8>>)
    ensures flat(items).len() >= 2 * items.len(), items.len() > 0 ==> flat(items).len() >= 2 + items[0].len()
    decreases items.len()
{
    if items.len() > 0 { flat_len(items.drop_last()); flat_first(items); }
}
/// the items can be told from the bytes
pub proof fn flat_inj(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires flat(a) == flat(b), lens_ok(a), lens_ok(b)
    ensures a == b
    decreases a.len()
{
    flat_len(a); flat_len(b);
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); }
    else {
        flat_first(a); flat_first(b);
        let fa = flat(a); let fb = flat(b);
        let (la, lb) = (a[0].len() as u16, b[0].len() as u16);
        assert(fa.subrange(0, 2) =~= le16(la) && fb.subrange(0, 2) =~= le16(lb));
        le16_inj(la, lb);
        assert(a[0] =~= fa.subrange(2, 2 + la));
        assert(b[0] =~= fb.subrange(2, 2 + lb));
        assert(flat(a.drop_first()) =~= fa.subrange(2 + la, fa.len() as int));
        assert(flat(b.drop_first()) =~= fb.subrange(2 + lb, fb.len() as int));
        flat_inj(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
pub proof fn le16_inj(a: u16, b: u16)
    requires le16(a) == le16(b)
    ensures a == b
{
    assert(le16(a)[0] == le16(b)[0] && le16(a)[1] == le16(b)[1]);
    assert(a == b) by (bit_vector) requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8;
}
pub proof fn le16_of(lo: u8, hi: u8)
    ensures (lo as usize) | ((hi as usize) << 8) == lo + 256 * hi
{
    assert((lo as usize) | ((hi as usize) << 8) == lo + 256 * hi) by (bit_vector);
}
pub proof fn le16_bytes(n: u16)
    ensures le16(n)[0] + 256 * le16(n)[1] == n
{
    assert(((n & 0xff) as u8) + 256 * (((n >> 8) & 0xff) as u8) == n) by (bit_vector);
}
pub proof fn le16_parts(len: usize)
    requires len <= 0xffff
    ensures le16(len as u16) == seq![len as u8, (len >> 8) as u8]
{
    assert(len <= 0xffff ==> ((len as u16) & 0xff) as u8 == len as u8 && (((len as u16) >> 8) & 0xff) as u8 == (len >> 8) as u8) by (bit_vector);
    assert(le16(len as u16) =~= seq![len as u8, (len >> 8) as u8]);
}
pub proof fn lin_at(n: int, pos: int, d: int, k: int)
    requires n > 0, 0 <= pos, 0 <= d, 0 <= k
    ensures ((pos + d) % n + k) % n == (pos + d + k) % n, 0 <= (pos + d) % n < n
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(pos + d, k, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(pos + d, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(k, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop((pos + d) % n, k, n);
    vstd::arithmetic::div_mod::lemma_mod_twice(pos + d, n);
}
pub proof fn mod_distinct(n: int, pos: int, j: int, k: int)
    requires n > 0, 0 <= pos, 0 <= j < k < n + j
    ensures (pos + j) % n != (pos + k) % n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(pos + j, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(pos + k, n);
    let qa = (pos + j) / n; let qb = (pos + k) / n;
    if (pos + j) % n == (pos + k) % n {
        assert(k - j == n * (qb - qa)) by (nonlinear_arith) requires pos + j == n * qa + (pos + j) % n, pos + k == n * qb + (pos + k) % n, (pos + j) % n == (pos + k) % n;
        assert(qb - qa >= 1 || qb - qa <= 0);
        assert(n * (qb - qa) >= n || n * (qb - qa) <= 0) by (nonlinear_arith) requires qb - qa >= 1 || qb - qa <= 0, n > 0;
    }
}
/// taking bytes from the front
pub proof fn lin_skip(buf: Seq<u8>, pos: int, used: int, d: int)
    requires buf.len() > 0, 0 <= pos, 0 <= d <= used
    ensures lin(buf, (pos + d) % (buf.len() as int), used - d) == lin(buf, pos, used).subrange(d, used)
{
    let n = buf.len() as int;
    assert forall|k: int| 0 <= k < used - d implies #[trigger] lin(buf, (pos + d) % n, used - d)[k] == lin(buf, pos, used).subrange(d, used)[k] by { lin_at(n, pos, d, k); }
    assert(lin(buf, (pos + d) % n, used - d) =~= lin(buf, pos, used).subrange(d, used));
}
/// writing a byte behind the used ones
pub proof fn lin_push(buf: Seq<u8>, pos: int, used: int, b: u8)
    requires buf.len() > 0, 0 <= pos, 0 <= used < buf.len()
    ensures lin(buf.update((pos + used) % (buf.len() as int), b), pos, used + 1) == lin(buf, pos, used).push(b), 0 <= (pos + used) % (buf.len() as int) < buf.len(),
        ((pos + used) % (buf.len() as int) + 1) % (buf.len() as int) == (pos + used + 1) % (buf.len() as int)
{
    let n = buf.len() as int;
    lin_at(n, pos, used, 1);
    let c = buf.update((pos + used) % n, b);
    assert forall|k: int| 0 <= k < used + 1 implies #[trigger] lin(c, pos, used + 1)[k] == lin(buf, pos, used).push(b)[k] by {
        lin_at(n, pos, k, 0);
        if k < used { mod_distinct(n, pos, k, used); }
    }
    assert(lin(c, pos, used + 1) =~= lin(buf, pos, used).push(b));
}
pub proof fn lens_push(items: Seq<Seq<u8>>, d: Seq<u8>)
    requires lens_ok(items), d.len() <= 0xffff
    ensures lens_ok(items.push(d)), flat(items.push(d)) == flat(items) + le16(d.len() as u16) + d
{
    assert(items.push(d).drop_last() =~= items);
}
@insert impl RamRing
    pub open spec fn rinv(&self) -> bool {
        exists|items: Seq<Seq<u8>>| is_ring(self.buf@, self.read_pos as int, self.write_pos as int, self.used as int, items) && #[trigger] items.len() == self.item_count
    }
    /// the buffered items, oldest first
    pub open spec fn items(&self) -> Seq<Seq<u8>> {
        choose|items: Seq<Seq<u8>>| is_ring(self.buf@, self.read_pos as int, self.write_pos as int, self.used as int, items) && #[trigger] items.len() == self.item_count
    }
    pub proof fn items_are(&self, items: Seq<Seq<u8>>)
        requires is_ring(self.buf@, self.read_pos as int, self.write_pos as int, self.used as int, items), items.len() == self.item_count
        ensures self.rinv(), self.items() == items
    {
        assert(items.len() == self.item_count);
        flat_inj(self.items(), items);
    }
    pub proof fn empty_ring()
        requires N <= usize::MAX / 2
        ensures forall|r: RamRing<N>| r.read_pos == 0 && r.write_pos == 0 && r.used == 0 && r.item_count == 0 ==> (#[trigger] r.rinv()) && r.items() == Seq::<Seq<u8>>::empty()
    {
        assert forall|r: RamRing<N>| r.read_pos == 0 && r.write_pos == 0 && r.used == 0 && r.item_count == 0 implies (#[trigger] r.rinv()) && r.items() == Seq::<Seq<u8>>::empty() by {
            assert(lin(r.buf@, 0, 0) =~= flat(Seq::empty()));
            if N > 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, N as nat); }
            r.items_are(Seq::empty());
        }
    }
    /// what the ring invariant says about the bytes in front
    pub proof fn front(&self)
        requires self.rinv()
        ensures is_ring(self.buf@, self.read_pos as int, self.write_pos as int, self.used as int, self.items()), self.items().len() == self.item_count,
            flat(self.items()).len() == self.used, self.used >= 2 * self.item_count, N <= usize::MAX / 2,
            self.items().len() > 0 ==> N > 0 && 2 + self.items()[0].len() <= self.used <= N && self.items()[0].len() <= 0xffff
                && self.buf@[self.read_pos as int] == le16(self.items()[0].len() as u16)[0]
                && self.buf@[(self.read_pos + 1) % (N as int)] == le16(self.items()[0].len() as u16)[1]
                && (forall|k: int| 0 <= k < self.items()[0].len() ==> #[trigger] self.items()[0][k] == self.buf@[(self.read_pos + 2 + k) % (N as int)])
    {
        let items = self.items();
        flat_len(items);
        let l = lin(self.buf@, self.read_pos as int, self.used as int);
        if items.len() > 0 {
            flat_first(items);
            assert(l[0] == le16(items[0].len() as u16)[0]);
            assert(l[1] == le16(items[0].len() as u16)[1]);
            lin_at(N as int, self.read_pos as int, 0, 0);
            vstd::arithmetic::div_mod::lemma_small_mod(self.read_pos as nat, N as nat);
            assert forall|k: int| 0 <= k < items[0].len() implies #[trigger] items[0][k] == self.buf@[(self.read_pos + 2 + k) % (N as int)] by { assert(l[2 + k] == items[0][k]); }
        }
    }
@fn RamRing::new props=C15
    requires N <= usize::MAX / 2, // the language has no bigger arrays
    ensures r.rinv(), r.items() == Seq::<Seq<u8>>::empty(), // @C15
@start
    proof { Self::empty_ring(); }
@fn RamRing::len props=C15
    ensures self.rinv() ==> r == self.items().len(), // @C15
@fn RamRing::is_empty props=C15
    ensures self.rinv() ==> r == (self.items().len() == 0), // @C15
@fn RamRing::bytes_used props=C15
    ensures self.rinv() ==> r == flat(self.items()).len() && r <= N, // @C15
@fn RamRing::oldest_len props=C15,C19
    requires self.rinv(),
    ensures match r { Some(n) => self.items().len() > 0 && n == self.items()[0].len(), None => self.items().len() == 0 }, // @C15
@start
    proof { self.front(); }
@before `Some(lo | (hi << 8))`
    proof { le16_of(lo as u8, hi as u8); le16_bytes(self.items()[0].len() as u16); }
@fn RamRing::push props=C15,C19
    requires old(self).rinv(),
    ensures final(self).rinv(), // @C15
        r is Ok ==> final(self).items() == old(self).items().push(data@), // @C15
        r is Err ==> final(self).items() == old(self).items(), // @C15
        r is Ok <==> data@.len() <= 0xffff && flat(old(self).items()).len() + 2 + data@.len() <= N, // @C15
        final(self).discarded == old(self).discarded, // @C16
@start
    proof { self.front(); }
@fn RamRing::push_overwriting props=C15,C19
    requires old(self).rinv(),
    ensures final(self).rinv(), // @C15
        r is Err ==> final(self).items() == old(self).items() && final(self).discarded == old(self).discarded, // @C15
        r is Ok <==> data@.len() <= 0xffff && 2 + data@.len() <= N, // @C15
        r is Ok ==> exists|k: int| 0 <= k <= old(self).items().len() && final(self).items() == (#[trigger] old(self).items().skip(k)).push(data@)
            // only as many as needed are dropped
            && (k > 0 ==> flat(old(self).items().skip(k - 1)).len() + 2 + data@.len() > N)
            && final(self).discarded == wadd(old(self).discarded, k), // @C15,C16
@loop 0
    invariant
        self.rinv(), total == 2 + data@.len(), total <= N, data@.len() <= 0xffff, N <= usize::MAX / 2,
        0 <= __k <= old(self).items().len(), self.items() == old(self).items().skip(__k),
        __k > 0 ==> flat(old(self).items().skip(__k - 1)).len() + total > N,
        self.discarded == wadd(old(self).discarded, __k),
    decreases self.item_count
@start
    let ghost mut __k: int = 0;
    proof { self.front(); assert(self.items() =~= self.items().skip(0)); wadd_step(self.discarded, 0); }
@body 0
    proof { self.front(); flat_len(self.items()); assert(self.items().drop_first() =~= old(self).items().skip(__k + 1)); wadd_step(old(self).discarded, __k); __k = __k + 1; }
@fn RamRing::peek_into props=C15,C19
    requires self.rinv(),
    ensures final(buf)@.len() == old(buf)@.len(), // @C15
        match r {
            Some(x) => self.items().len() > 0 && x@ == self.items()[0] && final(buf)@.subrange(0, self.items()[0].len() as int) == self.items()[0] && self.items()[0].len() <= old(buf)@.len(),
            None => self.items().len() == 0 || old(buf)@.len() < self.items()[0].len(),
        }, // @C15
@start
    proof { self.front(); }
@loop 0
    invariant
        self.rinv(), self.items().len() > 0, len == self.items()[0].len(), len <= buf@.len(), buf@.len() == old(buf)@.len(), __m1 <= len,
        pos == (self.read_pos + 2 + __m1) % (N as int), N > 0, N <= usize::MAX / 2,
        forall|k: int| 0 <= k < __m1 ==> #[trigger] buf@[k] == self.items()[0][k],
        forall|k: int| 0 <= k < len ==> #[trigger] self.items()[0][k] == self.buf@[(self.read_pos + 2 + k) % (N as int)],
    decreases len - __m1
@body 0
    proof { lin_at(N as int, self.read_pos + 2, __m1 as int, 1); lin_at(N as int, self.read_pos + 2, __m1 as int, 0); assert(self.items()[0][__m1 as int] == self.buf@[(self.read_pos + 2 + __m1) % (N as int)]); }
@before `Some(&buf[..len])`
    proof { assert(buf@.subrange(0, len as int) =~= self.items()[0]); }
@fn RamRing::discard_oldest props=C15,C19
    requires old(self).rinv(),
    ensures final(self).rinv(), // @C15
        old(self).items().len() == 0 ==> final(self).items() == old(self).items() && final(self).discarded == old(self).discarded, // @C15
        old(self).items().len() > 0 ==> final(self).items() == old(self).items().drop_first() && final(self).discarded == wadd(old(self).discarded, 1), // @C15,C16
@start
    let ghost old_items = self.items();
    proof { self.front(); }
@after `self.discarded = self.discarded.wrapping_add(1);`
    proof {
        flat_first(old_items);
        lin_skip(self.buf@, old(self).read_pos as int, old(self).used as int, 2 + len);
        lin_at(N as int, old(self).read_pos as int, 2 + len, self.used as int);
        assert(flat(old_items.drop_first()) =~= flat(old_items).subrange(2 + len, flat(old_items).len() as int));
        self.items_are(old_items.drop_first());
    }
@fn RamRing::write_raw props=C15,C19
    requires old(self).rinv(), flat(old(self).items()).len() + 2 + data@.len() <= N, data@.len() <= 0xffff,
    ensures final(self).rinv(), final(self).items() == old(self).items().push(data@), final(self).discarded == old(self).discarded, // @C15
@start
    let ghost items = self.items();
    let ghost mut __b: Seq<u8> = Seq::empty();
    proof { self.front(); }
@after `self.write_byte(len as u8);`
    proof { lin_push(old(self).buf@, self.read_pos as int, self.used as int, len as u8); }
@after `self.write_byte((len >> 8) as u8);`
    proof {
        let b1 = old(self).buf@.update((self.read_pos + self.used) % (N as int), len as u8);
        lin_push(b1, self.read_pos as int, self.used + 1, (len >> 8) as u8);
        le16_parts(len);
        assert(lin(self.buf@, self.read_pos as int, self.used + 2) =~= flat(items) + le16(len as u16) + data@.subrange(0, 0));
    }
@loop 0
    invariant
        N > 0, N <= usize::MAX / 2, self.used == old(self).used, self.read_pos == old(self).read_pos, self.item_count == old(self).item_count, self.discarded == old(self).discarded,
        len == data@.len(), self.used + 2 + len <= N, __v1 <= len, self.read_pos < N, self.write_pos < N,
        self.write_pos == (self.read_pos + self.used + 2 + __v1) % (N as int),
        lin(self.buf@, self.read_pos as int, self.used + 2 + __v1) == flat(items) + le16(len as u16) + data@.subrange(0, __v1 as int),
    decreases len - __v1
@body 0
    proof {
        lin_push(self.buf@, self.read_pos as int, self.used + 2 + __v1, data@[__v1 as int]);
        assert(data@.subrange(0, __v1 + 1) =~= data@.subrange(0, __v1 as int).push(data@[__v1 as int]));
        assert((flat(items) + le16(len as u16) + data@.subrange(0, __v1 as int)).push(data@[__v1 as int]) =~= flat(items) + le16(len as u16) + data@.subrange(0, __v1 + 1));
    }
@before `self.used += 2 + len;`
    proof { assert(data@.subrange(0, len as int) =~= data@); lens_push(items, data@); }
@after `self.item_count += 1;`
    proof { self.items_are(items.push(data@)); }
@fn RamRing::write_byte props=C15,C19
    requires N <= usize::MAX / 2, old(self).write_pos < N,
    ensures final(self).buf@ == old(self).buf@.update(old(self).write_pos as int, b), final(self).write_pos == (old(self).write_pos + 1) % (N as int), // @C15
        final(self).read_pos == old(self).read_pos, final(self).used == old(self).used, final(self).item_count == old(self).item_count, final(self).discarded == old(self).discarded,
@raw
/// a wrapping counter, k steps on
pub open spec fn wadd(x: usize, k: int) -> usize { ((x + k) % (usize::MAX + 1)) as usize }
pub proof fn wadd_step(x: usize, k: int)
    requires k >= 0
    ensures wadd(wadd(x, k), 1) == wadd(x, k + 1), wadd(x, 0) == x, 0 < k <= usize::MAX ==> wadd(x, k) != x
{
    let m = usize::MAX + 1;
    lin_at(m, x as int, k, 1);
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, m as nat);
    if 0 < k < m { mod_distinct(m, x as int, 0, k); lin_at(m, x as int, k, 0); }
}
@insert impl BufferedQueue
    pub open spec fn bwf(&self) -> bool { self.storage.wf() && self.ram.rinv() }
@fn BufferedQueue::new props=C15
    requires storage.wf(), RAM_BYTES <= usize::MAX / 2, // the language has no bigger arrays
    ensures r.bwf(), r.storage == storage, r.ram.items() == Seq::<Seq<u8>>::empty(), // @C15
@fn BufferedQueue::enqueue props=C15
    requires old(self).bwf(),
    ensures final(self).bwf(), final(self).storage == old(self).storage, // @C15
        r is Err ==> final(self).ram.items() == old(self).ram.items(), // @C15
        policy == OverflowPolicy::Err ==> (r is Ok <==> data@.len() <= 0xffff && flat(old(self).ram.items()).len() + 2 + data@.len() <= RAM_BYTES), // @C15
        policy == OverflowPolicy::Err && r is Ok ==> final(self).ram.items() == old(self).ram.items().push(data@), // @C15
        policy == OverflowPolicy::DiscardOldest ==> (r is Ok <==> data@.len() <= 0xffff && 2 + data@.len() <= RAM_BYTES), // @C15
        policy == OverflowPolicy::DiscardOldest && r is Ok ==> exists|k: int| 0 <= k <= old(self).ram.items().len() && final(self).ram.items() == (#[trigger] old(self).ram.items().skip(k)).push(data@)
            && (k > 0 ==> flat(old(self).ram.items().skip(k - 1)).len() + 2 + data@.len() > RAM_BYTES), // @C15
@fn BufferedQueue::drain_one props=C15,C09,C19
    requires old(self).bwf(),
    ensures final(self).bwf(), final(self).storage.inner.ok_after(&old(self).storage.inner), final(scratch)@.len() == old(scratch)@.len(), // @C09
        match r {
            Ok(true) => old(self).ram.items().len() > 0 && final(self).ram.items() == old(self).ram.items().drop_first()
                && exists|a: int, p: int, d: Seq<u8>| (#[trigger] pushed_here::<S>(final(self).storage.inner.flash.mem(), final(self).storage.inner.g(), a, p, d)) && d == old(self).ram.items()[0],
            Ok(false) => old(self).ram.items().len() == 0 && final(self).ram.items() == old(self).ram.items() && final(self).storage == old(self).storage,
            Err(e) => final(self).ram.items() == old(self).ram.items() && old(self).ram.items().len() > 0,
        }, // @C15
        // too small a scratch buffer is reported, nothing happens then
        old(self).ram.items().len() > 0 && old(self).ram.items()[0].len() > old(scratch)@.len() ==> r is Err && r->Err_0 is BufferTooSmall && final(self).storage == old(self).storage, // @C15,C16
@fn BufferedQueue::drain_all props=C15,C09,C19
    requires old(self).bwf(),
    ensures final(self).bwf(), final(self).storage.inner.ok_after(&old(self).storage.inner), // @C09
        r is Ok ==> final(self).ram.items().len() == 0, // @C15
        r is Err ==> exists|k: int| 0 <= k < old(self).ram.items().len() && final(self).ram.items() == #[trigger] old(self).ram.items().skip(k), // @C15
@loop 0
    invariant
        self.bwf(), self.storage.inner.ok_after(&old(self).storage.inner), 0 <= __k <= old(self).ram.items().len(), self.ram.items() == old(self).ram.items().skip(__k),
    decreases old(self).ram.items().len() - __k
@start
    let ghost mut __k: int = 0;
    proof { assert(self.ram.items() =~= self.ram.items().skip(0)); }
@body 0
    proof { assert(old(self).ram.items().skip(__k).drop_first() =~= old(self).ram.items().skip(__k + 1)); __k = __k + 1; }
@fn BufferedQueue::pop props=C15,C09,C19
    requires old(self).bwf(),
    ensures final(self).bwf(), final(self).storage.inner.ok_after(&old(self).storage.inner), // @C09
        r is Err ==> final(self).ram.items() == old(self).ram.items(), // @C15
        r is Ok && r->Ok_0 is None ==> old(self).ram.items().len() == 0 && final(self).ram.items() == old(self).ram.items(), // @C15
        r is Ok && r->Ok_0 is Some ==> final(self).ram.items() == old(self).ram.items()
                && (exists|a: int, h: GH, d: Seq<u8>| (#[trigger] popped_here::<S>(final(self).storage.inner.flash.mem(), final(self).storage.inner.g(), a, h, d)) && d == r->Ok_0->0@)
            || old(self).ram.items().len() > 0 && final(self).ram.items() == old(self).ram.items().drop_first() && r->Ok_0->0@ == old(self).ram.items()[0], // @C15
@fn BufferedQueue::peek props=C15,C09,C19
    requires old(self).bwf(),
    ensures final(self).bwf(), final(self).storage.inner.ok_after(&old(self).storage.inner), // @C09
        final(self).ram.items() == old(self).ram.items(), // @C15
        r is Ok && r->Ok_0 is None ==> old(self).ram.items().len() == 0, // @C15
        r is Ok && r->Ok_0 is Some ==> old(self).ram.items().len() > 0 && r->Ok_0->0@ == old(self).ram.items()[0]
            || exists|a: int, h: GH, d: Seq<u8>| (#[trigger] item_here::<S>(final(self).storage.inner.flash.mem(), final(self).storage.inner.g(), a, h, d)) && d == r->Ok_0->0@, // @C15
@fn BufferedQueue::peek_ram props=C15,C19
    requires self.bwf(),
    ensures final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(Some(n)) => self.ram.items().len() > 0 && n == self.ram.items()[0].len() && n <= old(buf)@.len() && final(buf)@.subrange(0, n as int) == self.ram.items()[0],
            Ok(None) => self.ram.items().len() == 0 && final(buf)@ == old(buf)@,
            Err(e) => self.ram.items().len() > 0 && self.ram.items()[0].len() > old(buf)@.len() && e is BufferTooSmall && e->BufferTooSmall_0 == self.ram.items()[0].len(),
        }, // @C15
@fn BufferedQueue::ram_capacity_bytes props=C15
    ensures r == RAM_BYTES, // @C15
@fn BufferedQueue::ram_free_bytes props=C15,C19
    requires self.bwf(),
    ensures r == RAM_BYTES - flat(self.ram.items()).len(), // @C15
@fn BufferedQueue::ram_pending_count props=C15
    requires self.bwf(),
    ensures r == self.ram.items().len(), // @C15
@fn BufferedQueue::ram_bytes_used props=C15
    requires self.bwf(),
    ensures r == flat(self.ram.items()).len(), // @C15
@fn BufferedQueue::into_storage props=C15
    ensures r == self.storage, // @C15
# ------------------------------------------------------------ the shared ring
@raw
/// what a critical section is about to do with the ring
pub ghost enum Job { Read, Enqueue(Seq<u8>), Pushed(Seq<u8>) }
/// what a critical section may do with the ring (the guarantee)
pub open spec fn allowed<const N: usize>(a: RamRing<N>, g: RamRing<N>, job: Job) -> bool {
    ||| g.items() == a.items() && g.discarded == a.discarded
    ||| match job {
            Job::Read => false,
            // a new item goes to the end; only as many as needed are dropped for it
            Job::Enqueue(d) => exists|k: int| 0 <= k <= a.items().len() && g.items() == (#[trigger] a.items().skip(k)).push(d) && g.discarded == wadd(a.discarded, k)
                && (k > 0 ==> flat(a.items().skip(k - 1)).len() + 2 + d.len() > N),
            // only the item that was pushed to flash leaves the ring
            Job::Pushed(d) => a.items().len() > 0 && a.items()[0] == d && g.items() == a.items().drop_first() && g.discarded == wadd(a.discarded, 1),
        }
}
/// what others may have done to the ring since (the rely): appended items and removed some from the front, fewer than the counter can tell apart
pub open spec fn evolved<const N: usize>(a: RamRing<N>, g: RamRing<N>) -> bool {
    exists|k: int, new: Seq<Seq<u8>>| 0 <= k <= a.items().len() + new.len() && k <= usize::MAX
        && g.items() == #[trigger] (a.items() + new).skip(k) && g.discarded == wadd(a.discarded, k)
}
/// the rely contains the guarantee
pub proof fn guarantee_in_rely<const N: usize>(a: RamRing<N>, g: RamRing<N>, job: Job)
    requires allowed(a, g, job), a.items().len() <= usize::MAX
    ensures evolved(a, g)
{
    wadd_step(a.discarded, 0);
    if g.items() == a.items() && g.discarded == a.discarded {
        assert(g.items() =~= (a.items() + Seq::empty()).skip(0));
    } else {
        match job {
            Job::Read => {}
            Job::Enqueue(d) => {
                let k = choose|k: int| 0 <= k <= a.items().len() && g.items() == (#[trigger] a.items().skip(k)).push(d) && g.discarded == wadd(a.discarded, k);
                assert(g.items() =~= (a.items() + seq![d]).skip(k));
            }
            Job::Pushed(d) => { assert(g.items() =~= (a.items() + Seq::empty()).skip(1)); }
        }
    }
}
/// an item that is in flash may leave the ring
pub proof fn pushed<S: NorFlash, C: CacheImpl<()>>(q: &QueueStorage<S, C>, d: Seq<u8>) -> (j: Job)
    requires exists|a: int, p: int| #[trigger] pushed_here::<S>(q.inner.flash.mem(), q.inner.g(), a, p, d), // @C16
    ensures j == Job::Pushed(d)
{ Job::Pushed(d) }
#[verifier::external_body] pub struct CriticalSectionRawMutex;
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefCell<T>(T);
#[verifier::external_body] #[verifier::accept_recursive_types(R)] #[verifier::accept_recursive_types(T)] pub struct Mutex<R, T>(R, T);
#[verifier::external_body] #[verifier::accept_recursive_types(R)] #[verifier::accept_recursive_types(T)] pub struct Signal<R, T>(R, T);
pub type SharedMutex<const N: usize> = Mutex<CriticalSectionRawMutex, RefCell<RamRing<N>>>;
impl<T> RefCell<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body] pub fn new(t: T) -> (r: Self) ensures r.val() == t { unimplemented!() }
}
impl<const N: usize> SharedMutex<N> {
    #[verifier::external_body] pub fn new(t: RefCell<RamRing<N>>) -> (r: Self)
        requires t.val().rinv(), // @C16
    { unimplemented!() }
}
impl<R, T> Signal<R, T> {
    #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn signal(&self, t: T) { unimplemented!() }
    #[verifier::external_body] pub fn wait(&self) -> (r: T) { unimplemented!() }
}
/// some critical section took the ring from a to g
pub uninterp spec fn section<const N: usize>(m: SharedMutex<N>, a: RamRing<N>, g: RamRing<N>) -> bool;
#[verifier::external_body]
pub fn rt_acquire<const N: usize>(m: &SharedMutex<N>, last: Ghost<Option<RamRing<N>>>) -> (g: RamRing<N>)
    ensures g.rinv(), last@ is Some ==> evolved(last@->0, g)
{ unimplemented!() }
#[verifier::external_body]
pub fn rt_release<const N: usize>(m: &SharedMutex<N>, g: RamRing<N>, a: Ghost<RamRing<N>>, job: Ghost<Job>)
    requires g.rinv(), // @C16
        allowed(a@, g, job@), // @C16
    ensures section(*m, a@, g)
{ unimplemented!() }
@drop impl SharedRamRing::Default -- calls new
@fn SharedRamRing::new props=C16
    requires N <= usize::MAX / 2, // the language has no bigger arrays
@fn SharedRamRing::enqueue props=C16,C19
    ensures exists|a: RamRing<N>, g: RamRing<N>| #[trigger] section(self.ring, a, g)
        && (r is Err ==> g.items() == a.items())
        && (r is Ok ==> exists|k: int| 0 <= k <= a.items().len() && g.items() == (#[trigger] a.items().skip(k)).push(data@)
            && (k > 0 ==> policy == OverflowPolicy::DiscardOldest && flat(a.items().skip(k - 1)).len() + 2 + data@.len() > N))
        && (policy == OverflowPolicy::Err ==> (r is Ok <==> data@.len() <= 0xffff && flat(a.items()).len() + 2 + data@.len() <= N))
        && (policy == OverflowPolicy::DiscardOldest ==> (r is Ok <==> data@.len() <= 0xffff && 2 + data@.len() <= N)), // @C16
@after `let ghost mut __job: Job = Job::Read;`
    proof { __job = Job::Enqueue(data@); }
@after `let ghost __a = __g;`
    proof { assert(__a.items().push(data@) =~= __a.items().skip(0).push(data@)); wadd_step(__a.discarded, 0); }
@fn SharedRamRing::wait props=C16
@fn SharedRamRing::drain_one props=C16,C09,C19
    requires old(storage).wf(), // @C09
    ensures final(storage).wf(), final(storage).inner.ok_after(&old(storage).inner), final(scratch)@.len() == old(scratch)@.len(), // @C09
        exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && match r {
            // there was nothing to do
            Ok(false) => a.items().len() == 0 && *final(storage) == *old(storage),
            // the oldest item is in flash now, and no longer in the ring (if another one is the oldest by now, it's gone already)
            Ok(true) => a.items().len() > 0 && (exists|x: int, p: int| #[trigger] pushed_here::<S>(final(storage).inner.flash.mem(), final(storage).inner.g(), x, p, a.items()[0]))
                && (exists|b: RamRing<N>, g: RamRing<N>| #[trigger] section(self.ring, b, g) && evolved(a, b)
                    && (b.discarded == a.discarded ==> b.items()[0] == a.items()[0] && g.items() == b.items().drop_first())
                    && (b.discarded != a.discarded ==> g.items() == b.items())),
            Err(e) => a.items().len() > 0 && (a.items()[0].len() > old(scratch)@.len() ==> e is BufferTooSmall && e->BufferTooSmall_0 == a.items()[0].len() && *final(storage) == *old(storage)),
        }, // @C16
@after `storage.push(&scratch[..len], allow_overwrite)?;`
    let ghost a1 = __last->0;
    proof {
        assert(scratch@.subrange(0, len as int) == a1.items()[0]);
        __job = pushed(storage, a1.items()[0]);
    }
@after `let ghost __a = __g;` n=1
    proof {
        let (k, new) = choose|k: int, new: Seq<Seq<u8>>| 0 <= k <= a1.items().len() + new.len() && k <= usize::MAX
            && __a.items() == #[trigger] (a1.items() + new).skip(k) && __a.discarded == wadd(a1.discarded, k);
        wadd_step(a1.discarded, k);
        if __a.discarded == a1.discarded { assert(k == 0); assert(__a.items()[0] == a1.items()[0]); }
        wadd_step(__a.discarded, 0);
    }
@fn SharedRamRing::drain_all props=C16,C09,C19 attr=verifier::exec_allows_no_decreases_clause
    requires old(storage).wf(), // @C09
    ensures final(storage).wf(), final(storage).inner.ok_after(&old(storage).inner), final(scratch)@.len() == old(scratch)@.len(), // @C09
        r is Ok ==> exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && a.items().len() == 0, // @C16
@loop 0
    invariant storage.wf(), storage.inner.ok_after(&old(storage).inner), scratch@.len() == old(scratch)@.len(),
@fn SharedRamRing::wait_and_drain_all props=C16,C09,C19
    requires old(storage).wf(), // @C09
    ensures final(storage).wf(), final(storage).inner.ok_after(&old(storage).inner), // @C09
        r is Ok ==> exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && a.items().len() == 0, // @C16
@fn SharedRamRing::pop props=C16,C09,C19
    requires old(storage).wf(), // @C09
    ensures final(storage).wf(), final(storage).inner.ok_after(&old(storage).inner), // @C09
        r is Ok ==> exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && a.items().len() == 0, // @C16
        r is Ok && r->Ok_0 is Some ==> exists|a: int, h: GH, d: Seq<u8>| (#[trigger] popped_here::<S>(final(storage).inner.flash.mem(), final(storage).inner.g(), a, h, d)) && d == r->Ok_0->0@, // @C16
@fn SharedRamRing::peek props=C16,C09,C19
    requires old(storage).wf(), // @C09
    ensures final(storage).wf(), final(storage).inner.ok_after(&old(storage).inner), // @C09
        r is Ok ==> exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && a.items().len() == 0, // @C16
        r is Ok && r->Ok_0 is Some ==> exists|a: int, h: GH, d: Seq<u8>| (#[trigger] item_here::<S>(final(storage).inner.flash.mem(), final(storage).inner.g(), a, h, d)) && d == r->Ok_0->0@, // @C16
@fn SharedRamRing::ram_capacity_bytes props=C16
    ensures r == N, // @C16
@fn SharedRamRing::ram_free_bytes props=C16,C19
    ensures exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && r == N - flat(a.items()).len(), // @C16
@fn SharedRamRing::ram_pending_count props=C16
    ensures exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && r == a.items().len(), // @C16
@fn SharedRamRing::oldest_ram_item_len props=C16,C19
    ensures exists|a: RamRing<N>| #[trigger] section(self.ring, a, a) && match r { Some(n) => a.items().len() > 0 && n == a.items()[0].len(), None => a.items().len() == 0 }, // @C16
