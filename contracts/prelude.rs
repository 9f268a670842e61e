// Trusted base: what the code under contract depends on but is not part of /repo/src.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, unused_assignments, non_snake_case, unused_labels)]
use vstd::prelude::*;
pub mod prelude {
use vstd::prelude::*;
use core::num::{NonZeroU32, NonZeroUsize};

use core::ops::{Deref, DerefMut, Range};
use core::marker::PhantomData;
verus! {

// ------------------------------------------------------------ alignment arithmetic
#[verifier::opaque]
pub open spec fn al(w: int, x: int) -> bool { x % w == 0 }
#[verifier::opaque]
pub open spec fn up(w: int, x: int) -> int { ((x + w - 1) / w) * w }
#[verifier::opaque]
pub open spec fn down(w: int, x: int) -> int { (x / w) * w }

pub broadcast proof fn up_props(w: int, x: int)
    requires w > 0
    ensures x <= #[trigger] up(w, x) < x + w, al(w, up(w, x)), al(w, x) ==> up(w, x) == x, x >= 0 ==> up(w, x) >= 0, x > 0 ==> up(w, x) >= w,
{
    reveal(up); reveal(al);
    let q = (x + w - 1) / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x + w - 1, w);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, w);
    assert(q * w == w * q) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w);
    if x % w == 0 {
        let k = x / w;
        assert(x == w * k);
        assert(w * k == k * w) by (nonlinear_arith);
        assert((w * k + (w - 1)) / w == k) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(w * k + (w - 1), w, k, w - 1); }
    }
    if x > 0 && q * w < w {
        assert(q < 1) by (nonlinear_arith) requires q * w < w, w > 0;
        assert(q * w <= 0) by (nonlinear_arith) requires q < 1, w > 0;
    }
    if x >= 0 { }
}
pub broadcast proof fn down_props(w: int, x: int)
    requires w > 0
    ensures x - w < #[trigger] down(w, x) <= x, al(w, down(w, x)), al(w, x) ==> down(w, x) == x, x >= 0 ==> down(w, x) >= 0
{
    reveal(down); reveal(al);
    let q = x / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, w);
    assert(q * w == w * q) by (nonlinear_arith);
    if x >= 0 { assert(q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, w); } assert(q * w >= 0) by (nonlinear_arith) requires q >= 0, w > 0; }
}
pub proof fn al_add(w: int, x: int, y: int)
    requires w > 0, al(w, x), al(w, y)
    ensures al(w, x + y), al(w, x - y)
{
    reveal(al);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, w);
    let a = x / w; let b = y / w;
    assert(x + y == (a + b) * w && x - y == (a - b) * w) by (nonlinear_arith) requires x == w * a, y == w * b;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a + b, w);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a - b, w);
}
pub proof fn al_mul(w: int, k: int)
    requires w > 0
    ensures al(w, w * k), al(w, k * w), al(w, 0), al(w, w)
{
    reveal(al);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, w);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(0, w);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(1, w);
    assert(k * w == w * k) by (nonlinear_arith);
}
/// alignment to a multiple is alignment
pub proof fn al_trans(r: int, w: int, x: int)
    requires r > 0, w > 0, al(r, w), al(w, x)
    ensures al(r, x)
{
    reveal(al);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(w, r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w);
    let a = w / r; let b = x / w;
    assert(x == (a * b) * r) by (nonlinear_arith) requires w == r * a, x == w * b;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a * b, r);
}
pub proof fn al_le(w: int, x: int)
    requires w > 0, x > 0
    ensures al(w, x) ==> w <= x
{
    reveal(al);
    if x < w { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, w as nat); }
}
/// between aligned numbers there is room for a whole unit
pub proof fn al_gap(w: int, x: int, y: int)
    requires w > 0, al(w, x), al(w, y), x < y
    ensures x + w <= y
{
    reveal(al);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, w);
    let a = x / w; let b = y / w;
    assert(a < b) by (nonlinear_arith) requires x == w * a, y == w * b, x < y, w > 0;
    assert(w * a + w <= w * b) by (nonlinear_arith) requires a < b, w > 0;
}

/// rounding up does not pass an aligned bound
pub proof fn up_le(w: int, x: int, y: int)
    requires w > 0, al(w, y), x <= y
    ensures up(w, x) <= y
{
    up_props(w, x);
    if up(w, x) > y { al_gap(w, y, up(w, x)); }
}
pub proof fn up_shift(w: int, o: int, x: int)
    requires w > 0, al(w, o)
    ensures up(w, o + x) == o + up(w, x)
{
    up_props(w, x); up_props(w, o + x);
    al_add(w, o, up(w, x));
    if o + up(w, x) < up(w, o + x) { al_gap(w, o + up(w, x), up(w, o + x)); }
    if o + up(w, x) > up(w, o + x) { al_gap(w, up(w, o + x), o + up(w, x)); }
}

// ------------------------------------------------------------ flash
pub open spec fn all_ff(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0xFFu8 }

/// what NOR programming does to a byte: it can only clear bits
pub open spec fn programmed(old: u8, new: u8) -> u8 { old & new }

/// The flash driver: the traits of the embedded-storage-async crate, plus a ghost view of the contents and
/// of the region that may be accessed. The constants obey the rules of that crate's documentation.
pub trait NorFlash: Sized {
    type Error;
    const READ_SIZE: usize;
    const WRITE_SIZE: usize;
    const ERASE_SIZE: usize;
    /// NorFlashExt::WORD_SIZE (the extracted const block is verified to compute this)
    const WORD_SIZE: usize;

    spec fn mem(&self) -> Seq<u8>;
    spec fn lo(&self) -> int;
    spec fn hi(&self) -> int;
    /// how many operations of the driver failed
    spec fn faults(&self) -> nat;

    proof fn laws()
        ensures
            Self::READ_SIZE >= 1,
            Self::WRITE_SIZE >= 1,
            Self::WORD_SIZE == if Self::WRITE_SIZE > Self::READ_SIZE { Self::WRITE_SIZE } else { Self::READ_SIZE },
            al(Self::READ_SIZE as int, Self::WRITE_SIZE as int) || al(Self::WRITE_SIZE as int, Self::READ_SIZE as int),
            al(Self::WORD_SIZE as int, Self::ERASE_SIZE as int),
            Self::READ_SIZE <= 0x1000_0000,
            Self::WRITE_SIZE <= 0x1000_0000,
            Self::ERASE_SIZE >= 1,
            Self::ERASE_SIZE <= u32::MAX;

    fn read(&mut self, offset: u32, bytes: &mut [u8]) -> (r: Result<(), Self::Error>)
        requires
            old(self).lo() <= offset, // @C09,C19
            offset + old(bytes)@.len() <= old(self).hi(), // @C09,C19
            al(Self::READ_SIZE as int, offset as int), // @C09
            al(Self::READ_SIZE as int, old(bytes)@.len() as int), // @C09
        ensures
            final(self).mem() == old(self).mem(), final(self).lo() == old(self).lo(), final(self).hi() == old(self).hi(),
            final(self).faults() == (if r is Ok { old(self).faults() } else { old(self).faults() + 1 }),
            final(bytes)@.len() == old(bytes)@.len(),
            r is Ok ==> final(bytes)@ == old(self).mem().subrange(offset as int, offset + old(bytes)@.len());

    fn write(&mut self, offset: u32, bytes: &[u8]) -> (r: Result<(), Self::Error>)
        requires
            old(self).lo() <= offset, // @C09
            offset + bytes@.len() <= old(self).hi(), // @C09
            al(Self::WRITE_SIZE as int, offset as int), // @C09
            al(Self::WRITE_SIZE as int, bytes@.len() as int), // @C09
        ensures
            final(self).lo() == old(self).lo(), final(self).hi() == old(self).hi(),
            final(self).faults() == (if r is Ok { old(self).faults() } else { old(self).faults() + 1 }),
            final(self).mem().len() == old(self).mem().len(),
            forall|i: int| #![trigger final(self).mem()[i]] 0 <= i < final(self).mem().len() && !(offset <= i < offset + bytes@.len()) ==> final(self).mem()[i] == old(self).mem()[i],
            r is Ok ==> forall|i: int| #![trigger final(self).mem()[i]] offset <= i < offset + bytes@.len() ==> final(self).mem()[i] == programmed(old(self).mem()[i], bytes@[i - offset]);

    fn erase(&mut self, from: u32, to: u32) -> (r: Result<(), Self::Error>)
        requires
            old(self).lo() <= from <= to <= old(self).hi(), // @C09
            al(Self::ERASE_SIZE as int, from as int), // @C09
            al(Self::ERASE_SIZE as int, to as int), // @C09
        ensures
            final(self).lo() == old(self).lo(), final(self).hi() == old(self).hi(),
            final(self).faults() == (if r is Ok { old(self).faults() } else { old(self).faults() + 1 }),
            final(self).mem().len() == old(self).mem().len(),
            forall|i: int| #![trigger final(self).mem()[i]] 0 <= i < final(self).mem().len() && !(from <= i < to) ==> final(self).mem()[i] == old(self).mem()[i],
            r is Ok ==> forall|i: int| #![trigger final(self).mem()[i]] from <= i < to ==> final(self).mem()[i] == 0xFFu8;
}
pub trait MultiwriteNorFlash: NorFlash {}

pub broadcast proof fn word_al<S: NorFlash>(x: int)
    requires #[trigger] al(S::WORD_SIZE as int, x)
    ensures al(S::READ_SIZE as int, x), al(S::WRITE_SIZE as int, x)
{
    S::laws();
    al_mul(S::READ_SIZE as int, 1); al_mul(S::WRITE_SIZE as int, 1);
    al_le(S::READ_SIZE as int, S::WRITE_SIZE as int); al_le(S::WRITE_SIZE as int, S::READ_SIZE as int);
    al_trans(S::READ_SIZE as int, S::WORD_SIZE as int, x);
    al_trans(S::WRITE_SIZE as int, S::WORD_SIZE as int, x);
}

// ------------------------------------------------------------ pieces of core/alloc without a specification in vstd
#[verifier::external_body]
pub broadcast proof fn nz_ext(x: NonZeroU32, y: NonZeroU32)
    requires #[trigger] x@ == #[trigger] y@
    ensures x == y
{}
#[verifier::external_body]
pub fn opt_nz_eq(x: Option<NonZeroU32>, y: Option<NonZeroU32>) -> (r: bool) ensures r == (x == y) { x == y }

pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });

pub assume_specification[ u32::next_multiple_of ](x: u32, w: u32) -> (r: u32)
    requires w > 0, up(w as int, x as int) <= u32::MAX, // @C19
    ensures r == up(w as int, x as int);
pub assume_specification[ usize::next_multiple_of ](x: usize, w: usize) -> (r: usize)
    requires w > 0, up(w as int, x as int) <= usize::MAX, // @C19
    ensures r == up(w as int, x as int);

pub assume_specification[ <u8 as From<bool>>::from ](b: bool) -> (r: u8) ensures r == if b { 1u8 } else { 0u8 };
pub assume_specification<T>[ <[T]>::rotate_right ](s: &mut [T], k: usize)
    requires k <= old(s)@.len(), // @C19
    ensures final(s)@ == old(s)@.subrange(old(s)@.len() - k, old(s)@.len() as int) + old(s)@.subrange(0, old(s)@.len() - k);
pub assume_specification<T>[ <[T]>::rotate_left ](s: &mut [T], k: usize)
    requires k <= old(s)@.len(), // @C19
    ensures final(s)@ == old(s)@.subrange(k as int, old(s)@.len() as int) + old(s)@.subrange(0, k as int);
pub open spec fn le16(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
pub open spec fn le32(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
pub open spec fn un16(s: Seq<u8>) -> u16 { ((s[0] as u16) | ((s[1] as u16) << 8)) as u16 }
pub open spec fn un32(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24) }
/// the little endian byte conversions of the number types: to_le_bytes and from_le_bytes are inverses (core)
pub trait LeBytes: Sized + Copy {
    type A;
    spec fn width() -> int;
    spec fn le_view(a: Self::A) -> Seq<u8>;
    spec fn le_spec(self) -> Seq<u8>;
    spec fn un_spec(s: Seq<u8>) -> Self;
    proof fn le_law_all() ensures 1 <= Self::width() <= 16, forall|x: Self| (#[trigger] x.le_spec()).len() == Self::width() && Self::un_spec(x.le_spec()) == x;
    proof fn le_law(self)
        ensures 1 <= Self::width() <= 16, self.le_spec().len() == Self::width(), Self::un_spec(self.le_spec()) == self;
    fn le_bytes(self) -> (r: Self::A) ensures Self::le_view(r) == self.le_spec();
    fn from_le(b: &[u8]) -> (r: Self) requires b@.len() == Self::width(), // @C19
        ensures r == Self::un_spec(b@);
    fn le_size_of() -> (r: usize) ensures r == Self::width();
}
pub fn le_size<T: LeBytes>() -> (r: usize) ensures r == T::width() { T::le_size_of() }
impl LeBytes for u8 {
    type A = [u8; 1];
    open spec fn width() -> int { 1 }
    open spec fn le_view(a: [u8; 1]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> u8;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: u8) { u8::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<u8>() }
}
impl LeBytes for u16 {
    type A = [u8; 2];
    open spec fn width() -> int { 2 }
    open spec fn le_view(a: [u8; 2]) -> Seq<u8> { a@ }
    open spec fn le_spec(self) -> Seq<u8> { le16(self) }
    open spec fn un_spec(s: Seq<u8>) -> u16 { un16(s) }
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: u16) { u16::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<u16>() }
}
impl LeBytes for u32 {
    type A = [u8; 4];
    open spec fn width() -> int { 4 }
    open spec fn le_view(a: [u8; 4]) -> Seq<u8> { a@ }
    open spec fn le_spec(self) -> Seq<u8> { le32(self) }
    open spec fn un_spec(s: Seq<u8>) -> u32 { un32(s) }
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: u32) { u32::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<u32>() }
}
impl LeBytes for u64 {
    type A = [u8; 8];
    open spec fn width() -> int { 8 }
    open spec fn le_view(a: [u8; 8]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> u64;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: u64) { u64::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<u64>() }
}
impl LeBytes for u128 {
    type A = [u8; 16];
    open spec fn width() -> int { 16 }
    open spec fn le_view(a: [u8; 16]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> u128;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: u128) { u128::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<u128>() }
}
impl LeBytes for i8 {
    type A = [u8; 1];
    open spec fn width() -> int { 1 }
    open spec fn le_view(a: [u8; 1]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> i8;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 1]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: i8) { i8::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<i8>() }
}
impl LeBytes for i16 {
    type A = [u8; 2];
    open spec fn width() -> int { 2 }
    open spec fn le_view(a: [u8; 2]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> i16;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: i16) { i16::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<i16>() }
}
impl LeBytes for i32 {
    type A = [u8; 4];
    open spec fn width() -> int { 4 }
    open spec fn le_view(a: [u8; 4]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> i32;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: i32) { i32::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<i32>() }
}
impl LeBytes for i64 {
    type A = [u8; 8];
    open spec fn width() -> int { 8 }
    open spec fn le_view(a: [u8; 8]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> i64;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: i64) { i64::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<i64>() }
}
impl LeBytes for i128 {
    type A = [u8; 16];
    open spec fn width() -> int { 16 }
    open spec fn le_view(a: [u8; 16]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> i128;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: i128) { i128::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<i128>() }
}
impl LeBytes for f32 {
    type A = [u8; 4];
    open spec fn width() -> int { 4 }
    open spec fn le_view(a: [u8; 4]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> f32;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: f32) { f32::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<f32>() }
}
impl LeBytes for f64 {
    type A = [u8; 8];
    open spec fn width() -> int { 8 }
    open spec fn le_view(a: [u8; 8]) -> Seq<u8> { a@ }
    uninterp spec fn le_spec(self) -> Seq<u8>;
    uninterp spec fn un_spec(s: Seq<u8>) -> f64;
    #[verifier::external_body] proof fn le_law(self) {}
    #[verifier::external_body] proof fn le_law_all() {}
    #[verifier::external_body] fn le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn from_le(b: &[u8]) -> (r: f64) { f64::from_le_bytes(b.try_into().unwrap()) }
    #[verifier::external_body] fn le_size_of() -> (r: usize) { core::mem::size_of::<f64>() }
}
#[verifier::external_body]
pub fn slice_to_array<const N: usize>(b: &[u8]) -> (r: [u8; N]) requires b@.len() == N, // @C19
    ensures r@ == b@, { b.try_into().unwrap() }
/// a type [T; N] exists only if its size does not exceed isize::MAX
#[verifier::external_body]
pub proof fn array_fits<T: LeBytes, const N: usize>() ensures N * T::width() <= usize::MAX / 2 {}
#[verifier::external_body]
pub fn u16_from_le_bytes(b: &[u8]) -> (r: u16) requires b@.len() == 2, ensures r == un16(b@), { u16::from_le_bytes(b.try_into().unwrap()) }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: &[u8]) -> (r: u32) requires b@.len() == 4, ensures r == un32(b@), { u32::from_le_bytes(b.try_into().unwrap()) }

pub open spec fn zero_bits(b: u8) -> int { (8 - ones(b)) as int }
pub open spec fn ones(b: u8) -> int {
    (if b & 1 != 0 { 1int } else { 0 }) + (if b & 2 != 0 { 1int } else { 0 }) + (if b & 4 != 0 { 1int } else { 0 }) + (if b & 8 != 0 { 1int } else { 0 })
    + (if b & 16 != 0 { 1int } else { 0 }) + (if b & 32 != 0 { 1int } else { 0 }) + (if b & 64 != 0 { 1int } else { 0 }) + (if b & 128 != 0 { 1int } else { 0 })
}
pub open spec fn zero_bits_of(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { zero_bits_of(s.drop_last()) + zero_bits(s.last()) } }
#[verifier::external_body]
pub fn count_zero_bits(s: &[u8]) -> (r: u32)
    requires s@.len() <= 0x1000_0000, // @C19
    ensures r == zero_bits_of(s@),
{ s.iter().map(|b| b.count_zeros()).sum::<u32>() }

#[verifier::external_body]
pub fn slice_take_all<F: Fn(&u8) -> bool>(s: &[u8], n: usize, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
    ensures
        r ==> forall|i: int| 0 <= i < s@.len() && i < n ==> f.ensures((&#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && i < n && f.ensures((&#[trigger] s@[i],), false),
{ s.iter().take(n).all(|b| f(b)) }

#[verifier::external_body]
pub fn range_clone(r: &Range<u32>) -> (q: Range<u32>) ensures q == *r { r.clone() }

/// assert!/debug_assert! of the code
pub fn rt_assert(c: bool) requires c, // @C19
{}
/// unreachable!/panic! of the code
#[verifier::external_body]
pub fn rt_unreachable() -> ! requires false, // @C19
{ unreachable!() }
} // verus!
} // mod prelude
