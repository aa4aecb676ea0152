//@raw
//@props C07 C08 C09 C10 C11 C14 C15 C16
// ================================================================ core::slice::ChunksExact, from its source
fn vx_from<T>(b: &[T], n: usize) -> (r: &[T]) requires n <= b@.len() ensures r@ == b@.skip(n as int) { let r = slice_subrange(b, n, b.len()); assert(r@ =~= b@.skip(n as int)); r }
// k chunks of n elements each
proof fn lemma_chunks(q: nat, n: nat)
    requires n > 0,
    ensures (q * n) / n == q, (q * n) % n == 0, q > 0 ==> q * n >= n && (q * n - n) == (q - 1) * n, q == 0 ==> q * n == 0, q * n >= 0,
{
    vstd::arithmetic::div_mod::lemma_div_by_multiple(q as int, n as int);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q as int, n as int);
    assert(q > 0 ==> q * n >= n && (q * n - n) == (q - 1) * n) by (nonlinear_arith);
    assert(q * n >= 0) by (nonlinear_arith);
    assert(q == 0 ==> q * n == 0) by (nonlinear_arith);
}
proof fn lemma_rows_cut<T>(s: Seq<T>, n: nat, q: nat, j: nat, k: nat)
    requires n > 0, s.len() == q * n, j <= k <= q,
    ensures 0 <= j * n <= k * n <= s.len(), (k * n - j * n) == (k - j) * n, rows(s, n).len() == q, s.subrange(j * n as int, k * n as int).len() % n == 0,
        rows(s.subrange(j * n as int, k * n as int), n) == rows(s, n).subrange(j as int, k as int),
{
    lemma_chunks(q, n); lemma_chunks((k - j) as nat, n);
    assert(j * n <= k * n <= q * n && (k * n - j * n) == (k - j) * n && j * n >= 0) by (nonlinear_arith) requires j <= k <= q;
    let t = s.subrange(j * n as int, k * n as int);
    assert forall|i: int| 0 <= i < k - j implies #[trigger] rows(t, n)[i] == rows(s, n).subrange(j as int, k as int)[i] by {
        assert(0 <= i * n <= (i + 1) * n <= (k - j) * n) by (nonlinear_arith) requires 0 <= i < k - j;
        assert((j + i) * n == j * n + i * n && (j + i + 1) * n == j * n + (i + 1) * n) by (nonlinear_arith);
        assert(row(t, n, i) =~= row(s, n, j + i));
    }
    assert(rows(t, n) =~= rows(s, n).subrange(j as int, k as int));
}
proof fn lemma_mul_div(len: nat, n: nat)
    requires n > 0,
    ensures len == (len / n) * n + len % n, len % n < n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len as int, n as int);
    assert((len / n) * n == n * (len / n)) by (nonlinear_arith);
}
impl<'a, T> ChunksExact<'a, T> {
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.chunk_size > 0 && self.v@.len() % (self.chunk_size as nat) == 0 }
    // the chunks still to come
    spec fn rem(&self) -> Seq<Seq<T>> { rows(self.v@, self.chunk_size as nat) }
    spec fn q(&self) -> nat { self.v@.len() / (self.chunk_size as nat) }
    proof fn lemma_inv(&self)
        requires self.chunk_size > 0, self.v@.len() % (self.chunk_size as nat) == 0
        ensures self.rem().len() == self.q(), self.v@.len() == self.q() * self.chunk_size, self.q() == 0 <==> self.v@.len() < self.chunk_size,
            self.q() > 0 ==> self.v@.len() - self.chunk_size == (self.q() - 1) as nat * self.chunk_size,
            self.rem() =~= self.rem().subrange(0, self.q() as int), self.v@ =~= self.v@.subrange(0, self.v@.len() as int)
    { lemma_mul_div(self.v@.len(), self.chunk_size as nat); lemma_chunks(self.q(), self.chunk_size as nat); }
}
//@item dep:std/core/src/slice/iter.rs | struct ChunksExact
struct ChunksExact<'a, T: 'a> {
    v: &'a [T],
    rem: &'a [T],
    chunk_size: usize,
}
//@item dep:std/core/src/slice/mod.rs | impl<T> [T] | fn split_at_checked
//@name std: slice::split_at_checked
//@props ?C07 C08 C09 C10 C14 C16
fn split_at_checked⟦ <T> ⟧(⟦~ &self ~> s: &[T] ⟧, mid: usize) -> ⟦~ Option<(&[T], &[T])> ~> (r: Option<(&[T], &[T])>)
    ensures mid <= s@.len() ==> r is Some && (r->0).0@ == s@.take(mid as int) && (r->0).1@ == s@.skip(mid as int), mid > s@.len() ==> r is None ⟧ {
    if mid <= ⟦~ self ~> s ⟧.len() {
        Some(unsafe { ⟦~ self.split_at_unchecked(mid) ~> s.split_at(mid) ⟧ })
    } else {
        None
    }
}
//@item dep:std/core/src/slice/mod.rs | impl<T> [T] | fn chunks_exact
//@name std: slice::chunks_exact
//@props ?C07 C08 C09 C10 C14 C16
fn chunks_exact⟦ <T> ⟧(⟦~ &self ~> s: &[T] ⟧, chunk_size: usize) -> ⟦~ ChunksExact<'_, T> ~> (r: ChunksExact<'_, T>)
    requires chunk_size > 0,
    ensures r.rem() == rows(s@, chunk_size as nat), ⟧ {
    vx_assert(chunk_size != 0);
    ChunksExact::new(⟦~ self ~> s ⟧, chunk_size)
}
//@item dep:std/core/src/slice/iter.rs | impl<'a, T> ChunksExact<'a, T> | fn new
//@name std: ChunksExact::new
//@props ?C07 C08 C09 C10 C14 C16
//@emit impl<'a, T> ChunksExact<'a, T>
fn new(slice: &'a [T], chunk_size: usize) -> ⟦~ Self ~> (r: Self)
    requires chunk_size > 0,
    ensures r.rem() == rows(slice@, chunk_size as nat), ⟧ {
    ⟦ proof { 
            let q = slice@.len() / (chunk_size as nat);
            lemma_mul_div(slice@.len(), chunk_size as nat); lemma_chunks(q, chunk_size as nat); 
            let t = slice@.take(q * chunk_size as int);
            assert forall|i: int| 0 <= i < q implies #[trigger] rows(t, chunk_size as nat)[i] == rows(slice@, chunk_size as nat)[i] by {
                assert(0 <= i * chunk_size <= (i + 1) * chunk_size <= q * chunk_size) by (nonlinear_arith) requires 0 <= i < q;
                assert(row(t, chunk_size as nat, i) =~= row(slice@, chunk_size as nat, i));
            }
            assert(rows(t, chunk_size as nat) =~= rows(slice@, chunk_size as nat));
        } ⟧
    let rem = slice.len() % chunk_size;
    let fst_len = slice.len() - rem;
    let (fst, snd) = unsafe { slice.⟦~ split_at_unchecked ~> split_at ⟧(fst_len) };
    Self { v: fst, rem: snd, chunk_size }
}
//@item dep:std/core/src/slice/iter.rs | impl<'a, T> Iterator for ChunksExact<'a, T> | fn next
//@name std: ChunksExact::next
//@props ?C07 C08 C09 C10 C14 C16
//@emit impl<'a, T> ChunksExact<'a, T>
fn next(&mut self) -> ⟦~ Option<&'a [T]> ~> (r: Option<&'a [T]>)
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r->0@ == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1), ⟧ {
    ⟦ proof { use_type_invariant(&*self); self.lemma_inv(); if self.q() > 0 { lemma_rows_cut(self.v@, self.chunk_size as nat, self.q(), 1, self.q()); } } ⟧
    ⟦~ self.v.split_at_checked(self.chunk_size).and_then(|(chunk, rest)| { ~> match split_at_checked(self.v, self.chunk_size) { Some((chunk, rest)) => { ⟧
        self.v = rest;
        Some(chunk)
    ⟦~ }) ~> } None => None } ⟧
}
//@item dep:std/core/src/slice/iter.rs | impl<'a, T> Iterator for ChunksExact<'a, T> | fn size_hint
//@name std: ChunksExact::size_hint
//@props ?C07 C08 C09 C10 C14 C16
//@emit impl<'a, T> ChunksExact<'a, T>
fn size_hint(&self) -> ⟦~ (usize, Option<usize>) ~> (r: (usize, Option<usize>)) ensures r.0 == self.rem().len(), r.1 == Some(r.0) ⟧ {
    ⟦ proof { use_type_invariant(self); } ⟧
    let n = self.v.len() / self.chunk_size;
    (n, Some(n))
}
//@item dep:std/core/src/iter/traits/exact_size.rs | trait ExactSizeIterator | fn len
//@name std: ExactSizeIterator::len (of ChunksExact)
//@props ?C07 C08 C09 C10 C14 C16
//@emit impl<'a, T> ChunksExact<'a, T>
fn len(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.rem().len() ⟧ {
    let (lower, upper) = self.size_hint();
    ⟦~ assert_eq!(upper, Some(lower)); ~> vx_assert(match upper { Some(u) => u == lower, None => false }); ⟧
    lower
}
//@item dep:std/core/src/slice/iter.rs | impl<'a, T> Iterator for ChunksExact<'a, T> | fn nth
//@name std: ChunksExact::nth
//@props ?C07 C08 C09 C10 C14 C16
//@emit impl<'a, T> ChunksExact<'a, T>
fn nth(&mut self, n: usize) -> ⟦~ Option<Self::Item> ~> (r: Option<&'a [T]>)
    ensures
        n >= old(self).rem().len() ==> r is None && final(self).rem().len() == 0,
        n < old(self).rem().len() ==> r is Some && r->0@ == old(self).rem()[n as int] && final(self).rem() == old(self).rem().skip(n + 1), ⟧ {
    ⟦ proof {
        use_type_invariant(&*self); self.lemma_inv(); if n < self.q() { lemma_rows_cut(self.v@, self.chunk_size as nat, self.q(), n as nat, self.q()); }
        assert(n < self.q() <==> n * self.chunk_size < self.v@.len()) by (nonlinear_arith) requires self.v@.len() == self.q() * self.chunk_size, self.chunk_size > 0;
        lemma_rows_cut(self.v@, self.chunk_size as nat, self.q(), 0, 0);
    }
    let vx_len = self.v.len(); ⟧
    ⟦~ if let Some(start) = n.checked_mul(self.chunk_size) && start < self.v.len() { ~> match n.checked_mul(self.chunk_size) { Some(start) if start < self.v.len() => { ⟧
        self.v = ⟦~ &self.v[start..] ~> vx_from(self.v, start) ⟧;
        self.next()
    } ⟦~ else ~> _ => ⟧ {
        self.v = ⟦~ &self.v[..0] ~> slice_subrange(self.v, 0, 0) ⟧;
        None
    } ⟦ } ⟧
}
//@item dep:std/core/src/slice/iter.rs | impl<'a, T> DoubleEndedIterator for ChunksExact<'a, T> | fn next_back
//@name std: ChunksExact::next_back
//@props ?C07 C08 C09 C10 C14 C16
//@emit impl<'a, T> ChunksExact<'a, T>
fn next_back(&mut self) -> ⟦~ Option<&'a [T]> ~> (r: Option<&'a [T]>)
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r->0@ == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last(), ⟧ {
    ⟦ proof {
        use_type_invariant(&*self); self.lemma_inv();
        if self.q() > 0 { lemma_rows_cut(self.v@, self.chunk_size as nat, self.q(), 0, (self.q() - 1) as nat); }
    } ⟧
    if self.v.len() < self.chunk_size {
        None
    } else {
        let (fst, snd) = self.v.split_at(self.v.len() - self.chunk_size);
        ⟦ assert(fst@ =~= old(self).v@.subrange(0, (self.q() - 1) as nat * self.chunk_size)); assert(snd@ =~= row(old(self).v@, self.chunk_size as nat, self.q() - 1));
        assert(old(self).rem().drop_last() =~= old(self).rem().subrange(0, self.q() - 1)); ⟧
        self.v = fst;
        Some(snd)
    }
}
