//@raw
// ---------------------------------------------------------------- prelude
use vstd::prelude::*;
use vstd::slice::*;
use vstd::string::*;
use core::slice::SliceIndex;
use core::mem;
use std::ops::{Index, IndexMut};

verus! {

global size_of usize == 8;

// A vector never holds more than isize::MAX bytes (alloc::vec::Vec, "Guarantees").
axiom fn axiom_vec_f32_len(v: &Vec<f32>) ensures v@.len() <= 0x1fff_ffff_ffff_ffff;
axiom fn axiom_slice_f32_len(v: &[f32]) ensures v@.len() <= 0x1fff_ffff_ffff_ffff;

// core::cmp::min, alloc::vec::Vec::shrink_to_fit
fn min(a: usize, b: usize) -> (r: usize) ensures r == vstd::math::min(a as int, b as int) { if a <= b { a } else { b } }
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T> [Vec::<T, A>::resize_with] (v: &mut Vec<T, A>, new_len: usize, f: F)
    ensures final(v)@.len() == new_len, forall|i: int| #![auto] 0 <= i < old(v)@.len() && i < new_len ==> final(v)@[i] == old(v)@[i];
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::capacity] (v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
// assert!(c, ..) panics when c is false
fn vx_assert(b: bool) requires b { }
// core::mem
pub assume_specification<T> [core::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T: Default> [core::mem::take] (dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(<T as Default>::default, (), *final(dest));

// ------------------------------------------------ rows of the motion matrix
spec fn num_rows<T>(s: Seq<T>, n: nat) -> nat { if n == 0 { 0 } else { s.len() / n } }
spec fn row<T>(s: Seq<T>, n: nat, k: int) -> Seq<T> { s.subrange(k * n, (k + 1) * n) }
// The frames of a motion: k-th frame = values k*n .. (k+1)*n - 1, and none when there are no channels.
spec fn rows<T>(s: Seq<T>, n: nat) -> Seq<Seq<T>> { Seq::new(num_rows(s, n), |k: int| row(s, n, k)) }

// ------------------------------------------------ core::slice::ChunksExactMut
// A verified reference implementation (the standard one is unsafe code): the part of the slice still to come.
struct ChunksExactMut<'a, T> { v: Option<&'a mut [T]>, n: usize }

impl<'a, T> ChunksExactMut<'a, T> {
    spec fn wf(self) -> bool { self.v is Some && self.n > 0 && self.cur().len() % (self.n as nat) == 0 }
    spec fn cur(self) -> Seq<T> { match self.v { Some(v) => v@, None => Seq::empty() } }
    #[verifier::prophetic]
    spec fn fin(self) -> Seq<T> { match self.v { Some(v) => final(v)@, None => Seq::empty() } }

    fn next(&mut self) -> (r: Option<&'a mut [T]>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).n == old(self).n,
            old(self).cur().len() == 0 ==> r is None && final(self).cur() == old(self).cur() && final(self).fin() == old(self).fin(),
            old(self).cur().len() > 0 ==> old(self).cur().len() >= old(self).n && r is Some && r->0@ == old(self).cur().take(old(self).n as int)
                && final(self).cur() == old(self).cur().skip(old(self).n as int)
                && old(self).fin() =~= final(r->0)@ + final(self).fin() && final(r->0)@.len() == old(self).n,
            final(self).fin().len() == final(self).cur().len(),
    {
        proof { lemma_mod_step(self.cur().len(), self.n as nat); }
        let s = self.v.take().unwrap();
        proof { mut_ref_slice_len_eq(&s); }
        if s.len() < self.n { self.v = Some(s); return None; }
        let (h, t) = s.split_at_mut(self.n);
        proof { mut_ref_slice_len_eq(&h); mut_ref_slice_len_eq(&t); }
        self.v = Some(t);
        Some(h)
    }

    fn next_back(&mut self) -> (r: Option<&'a mut [T]>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).n == old(self).n,
            old(self).cur().len() == 0 ==> r is None && final(self).cur() == old(self).cur() && final(self).fin() == old(self).fin(),
            old(self).cur().len() > 0 ==> old(self).cur().len() >= old(self).n && r is Some && r->0@ == old(self).cur().skip(old(self).cur().len() - old(self).n)
                && final(self).cur() == old(self).cur().take(old(self).cur().len() - old(self).n)
                && old(self).fin() =~= final(self).fin() + final(r->0)@ && final(r->0)@.len() == old(self).n,
            final(self).fin().len() == final(self).cur().len(),
    {
        proof { lemma_mod_step(self.cur().len(), self.n as nat); }
        let s = self.v.take().unwrap();
        proof { mut_ref_slice_len_eq(&s); }
        if s.len() < self.n { self.v = Some(s); return None; }
        let k = s.len() - self.n;
        let (h, t) = s.split_at_mut(k);
        proof { mut_ref_slice_len_eq(&h); mut_ref_slice_len_eq(&t); }
        self.v = Some(h);
        Some(t)
    }

    fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.cur().len() / (self.n as nat),
    { match &self.v { Some(s) => s.len() / self.n, None => 0 } }

    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.wf(),
        ensures r.0 == self.cur().len() / (self.n as nat), r.1 == Some(r.0),
    { let n = self.len(); (n, Some(n)) }
}

proof fn lemma_mod_step(len: nat, n: nat)
    requires n > 0, len % n == 0,
    ensures len >= n ==> ((len - n) as nat) % n == 0, len < n ==> len == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len as int, n as int);
    let q = (len / n) as int;
    assert(len == n * q);
    if len < n { vstd::arithmetic::div_mod::lemma_small_mod(len, n); }
    else {
        assert(q >= 1) by (nonlinear_arith) requires len == n * q, len >= n, n > 0;
        assert(len - n == (q - 1) * n) by (nonlinear_arith) requires len == n * q;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q - 1, n as int);
    }
}

proof fn lemma_div_mul(len: nat, n: nat)
    requires n > 0,
    ensures (len / n) * n <= len, len < (len / n + 1) * n, ((len / n) * n) % n == 0, ((len / n) * n) / n == len / n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len as int, n as int);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic((len / n) as int, n as int);
    vstd::arithmetic::div_mod::lemma_div_by_multiple((len / n) as int, n as int);
    assert((len / n) * n == n * (len / n)) by (nonlinear_arith);
    assert((len / n + 1) * n == n * (len / n) + n) by (nonlinear_arith);
}


trait VxSlice {
    fn vx_chunks_exact(&self, n: usize) -> (r: ChunksExact<'_, f32>)
        requires n > 0;
    fn vx_chunks_exact_mut(&mut self, n: usize) -> (r: ChunksExactMut<'_, f32>)
        requires n > 0;
}
// core::slice: chunks_exact(n) gives the whole chunks of n elements, in order, and panics when n is 0
impl VxSlice for [f32] {
    fn vx_chunks_exact(&self, n: usize) -> (r: ChunksExact<'_, f32>)
        ensures r.rem() == rows(self@, n as nat),
    { chunks_exact(self, n) }

    fn vx_chunks_exact_mut(&mut self, n: usize) -> (r: ChunksExactMut<'_, f32>)
        ensures
            r.wf(), r.n == n,
            r.cur() == old(self)@.take((old(self)@.len() / (n as nat)) * n),
            final(self)@ =~= r.fin() + old(self)@.skip((old(self)@.len() / (n as nat)) * n),
            r.fin().len() == r.cur().len(),
    {
        proof { lemma_div_mul(self@.len(), n as nat); }
        let k = self.len() / n;
        assert(k as nat * n <= self@.len());
        let (h, t) = self.split_at_mut(k * n);
        proof { mut_ref_slice_len_eq(&h); mut_ref_slice_len_eq(&t); }
        ChunksExactMut { v: Some(h), n }
    }
}

// ------------------------------------------------ core::iter
// A caller's iterator: it yields `items`, in order, and its size_hint may be anything.
trait VxIterator {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().skip(1);
    fn size_hint(&self) -> (usize, Option<usize>);
    fn into_iter(self) -> (r: Self) where Self: Sized ensures r.items() == self.items();
}
trait VxIntoIterator {
    type Item;
    type IntoIter: VxIterator<Item = Self::Item>;
    spec fn all(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter) where Self: Sized ensures r.items() == self.all();
}
