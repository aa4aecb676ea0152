//@raw
// ================================================================ src/frame_cursor.rs
// core::convert::AsRef, with its value as a spec function
trait AsRef<T: ?Sized> {
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
impl<T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &U {
    spec fn as_ref_spec(&self) -> &T { (**self).as_ref_spec() }
    fn as_ref(&self) -> (r: &T) { (**self).as_ref() }
}
impl<T> AsRef<[T]> for [T] {
    spec fn as_ref_spec(&self) -> &[T] { self }
    fn as_ref(&self) -> (r: &[T]) { self }
}
//@item src/frame_cursor.rs | struct FrameCursor
struct FrameCursor<'bvh> {
    bvh: &'bvh mut Bvh,
    index: usize,
}
//@item src/errors.rs | struct FrameRemoveError
struct FrameRemoveError {
    index: usize,
}
//@item src/errors.rs | impl FrameRemoveError | fn new
//@props C09
//@emit impl FrameRemoveError
fn new(index: usize) -> ⟦~ Self ~> (r: Self) ensures r.index == index ⟧ { Self { index } }
//@item src/errors.rs | struct FrameInsertError
struct FrameInsertError {
    kind: FrameInsertErrorKind,
}
//@item src/errors.rs | enum FrameInsertErrorKind
enum FrameInsertErrorKind {
    IncorrectFrameLength { expected: usize, actual: usize },
}
//@item src/errors.rs | impl FrameInsertError | fn incorrect_len
//@props C08
//@emit impl FrameInsertError
fn incorrect_len(expected: usize, actual: usize) -> ⟦~ Self ~> (r: Self) ensures r.kind == (FrameInsertErrorKind::IncorrectFrameLength { expected, actual }) ⟧ {
    Self {
        kind: FrameInsertErrorKind::IncorrectFrameLength { expected, actual },
    }
}
//@raw
spec fn same_but_motion(a: Bvh, b: Bvh) -> bool { a.joints == b.joints && a.num_channels == b.num_channels && a.frame_time == b.frame_time }
// insertion of a slice into a sequence
spec fn seq_insert<T>(s: Seq<T>, i: int, x: Seq<T>) -> Seq<T> { s.take(i) + x + s.skip(i) }
impl<'bvh> FrameCursor<'bvh> {
    spec fn n(&self) -> nat { self.bvh.num_channels as nat }
    spec fn values(&self) -> Seq<f32> { self.bvh.motion_values@ }
    spec fn frames(&self) -> Seq<Seq<f32>> { self.bvh.frame_seq() }
    // the motion consists of whole frames (every loaded, literal-built or edited motion does)
    spec fn whole(&self) -> bool { if self.n() == 0 { self.values().len() == 0 } else { self.values().len() % self.n() == 0 } }
    // everything but position and motion values; `fin` is what the motion will be when the cursor's borrow ends
    #[verifier::prophetic]
    spec fn same_bvh(&self, other: &Self) -> bool { same_but_motion(*self.bvh, *other.bvh) && *final(self.bvh) == *final(other.bvh) }
    spec fn wf(&self) -> bool { self.index <= self.frames().len() }
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn index
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn index(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.index ⟧  { self.index }
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn len
//@props C10 C07
//@emit impl<'bvh> FrameCursor<'bvh>
fn len(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.frames().len() ⟧  { self.bvh.frames().len() }
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn num_channels
//@props C08 C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn num_channels(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.n() ⟧  { self.bvh.num_channels }
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn move_next
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn move_next(&mut self) -> ⟦~ &mut Self ~> (r: &mut Self)
    requires old(self).wf(), ensures r.index == vstd::math::min(old(self).index + 1, old(self).frames().len() as int), r.values() == old(self).values(), r.same_bvh(old(self)), *final(self) == *final(r), old(self).wf() ==> r.wf() ⟧  {
    ⟦ proof { axiom_vec_f32_len(&self.bvh.motion_values); lemma_rows_len(self.bvh.motion_values@, self.bvh.num_channels as nat); } ⟧
    self.index = min(self.index + 1, self.bvh.frames().len());
    self
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn move_prev
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn move_prev(&mut self) -> ⟦~ &mut Self ~> (r: &mut Self)
    ensures r.index == vstd::math::max(old(self).index - 1, 0), r.values() == old(self).values(), r.same_bvh(old(self)), *final(self) == *final(r), old(self).wf() ==> r.wf() ⟧  {
    self.index = self.index.saturating_sub(1);
    self
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn move_first
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn move_first(&mut self) -> ⟦~ &mut Self ~> (r: &mut Self)
    ensures r.index == 0, r.values() == old(self).values(), r.same_bvh(old(self)), *final(self) == *final(r), old(self).wf() ==> r.wf() ⟧  {
    self.index = 0;
    self
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn move_last
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn move_last(&mut self) -> ⟦~ &mut Self ~> (r: &mut Self)
    ensures r.index == old(self).frames().len(), r.values() == old(self).values(), r.same_bvh(old(self)), *final(self) == *final(r), old(self).wf() ==> r.wf() ⟧  {
    self.index = self.len();
    self
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn peek_next
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn peek_next(&self) -> ⟦~ Option<Frame<'_>> ~> (r: Option<Frame<'_>>)
    ensures self.index < self.frames().len() ==> r is Some && r->Some_0.0@ == self.frames()[self.index as int], self.index >= self.frames().len() ==> r is None ⟧ {
    self.bvh.frames().nth(self.index)
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn peek_prev
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn peek_prev(&self) -> ⟦~ Option<Frame<'_>> ~> (r: Option<Frame<'_>>)
    requires self.wf(),
    ensures self.index > 0 ==> r is Some && r->Some_0.0@ == self.frames()[self.index - 1], self.index == 0 ==> r is None ⟧ {
    if self.index() > 0 {
        self.bvh.frames().nth(self.index - 1)
    } else {
        None
    }
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn peek_next_mut
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn peek_next_mut(&mut self) -> ⟦~ Option<FrameMut<'_>> ~> (r: Option<FrameMut<'_>>)
    ensures
        old(self).index < old(self).frames().len() ==> r is Some && r->Some_0.0@ =~= old(self).frames()[old(self).index as int]
            && final(self).values() =~= seq_replace_row(old(self).values(), old(self).n(), old(self).index as int, final(r->Some_0.0)@)
            && final(r->Some_0.0)@.len() == old(self).n(),
        old(self).index >= old(self).frames().len() ==> r is None && final(self).values() =~= old(self).values(),
        final(self).index == old(self).index, final(self).same_bvh(old(self)) ⟧ {
    ⟦ proof { lemma_rows_fit(self.values(), self.n()); if self.index < self.frames().len() { lemma_row_fit(self.values(), self.n(), self.index as int); } } ⟧
    self.bvh.frames_mut().nth(self.index)
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn peek_prev_mut
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn peek_prev_mut(&mut self) -> ⟦~ Option<FrameMut<'_>> ~> (r: Option<FrameMut<'_>>)
    requires old(self).wf(),
    ensures
        old(self).index > 0 ==> r is Some && r->Some_0.0@ =~= old(self).frames()[old(self).index - 1]
            && final(self).values() =~= seq_replace_row(old(self).values(), old(self).n(), old(self).index - 1, final(r->Some_0.0)@)
            && final(r->Some_0.0)@.len() == old(self).n(),
        old(self).index == 0 ==> r is None && final(self).values() =~= old(self).values(),
        final(self).index == old(self).index, final(self).same_bvh(old(self)) ⟧ {
    ⟦ proof { lemma_rows_fit(self.values(), self.n()); if self.index > 0 { lemma_row_fit(self.values(), self.n(), self.index - 1); } } ⟧
    if self.index() > 0 {
        self.bvh.frames_mut().nth(self.index - 1)
    } else {
        None
    }
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn surrounding_frames
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn surrounding_frames(&self) -> ⟦~ (Option<Frame<'_>>, Option<Frame<'_>>) ~> (r: (Option<Frame<'_>>, Option<Frame<'_>>))
    requires self.wf(),
    ensures
        self.index > 0 ==> r.0 is Some && r.0->Some_0.0@ == self.frames()[self.index - 1], self.index == 0 ==> r.0 is None,
        self.index < self.frames().len() ==> r.1 is Some && r.1->Some_0.0@ == self.frames()[self.index as int], self.index >= self.frames().len() ==> r.1 is None ⟧ {
    (self.peek_prev(), self.peek_next())
}
//@raw
spec fn seq_replace_row(s: Seq<f32>, n: nat, k: int, x: Seq<f32>) -> Seq<f32> { s.take(k * n) + x + s.skip((k + 1) * n) }
proof fn lemma_rows_len(s: Seq<f32>, n: nat)
    ensures num_rows(s, n) <= s.len()
{
    if n > 0 { lemma_div_mul(s.len(), n); assert(s.len() / n <= s.len()) by (nonlinear_arith) requires (s.len() / n) * n <= s.len(), n > 0; }
}
proof fn lemma_rows_fit(s: Seq<f32>, n: nat)
    ensures
        num_rows(s, n) * n <= s.len(),
        num_rows(s.take((num_rows(s, n) * n) as int), n) == num_rows(s, n),
        n > 0 ==> s.len() < (num_rows(s, n) + 1) * n,
{
    if n > 0 { lemma_div_mul(s.len(), n); }
}
// row k lies inside the motion values
proof fn lemma_row_fit(s: Seq<f32>, n: nat, k: int)
    requires 0 <= k < num_rows(s, n),
    ensures 0 <= k * n <= (k + 1) * n <= num_rows(s, n) * n <= s.len(), (k + 1) * n == k * n + n,
        row(s.take((num_rows(s, n) * n) as int), n, k) =~= row(s, n, k),
{
    lemma_rows_fit(s, n);
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    assert((k + 1) * n <= num_rows(s, n) * n) by (nonlinear_arith) requires k + 1 <= num_rows(s, n);
    assert(0 <= k * n) by (nonlinear_arith) requires k >= 0;
}
//@item src/frame_cursor.rs | impl<'bvh> From<&'bvh mut Bvh> for FrameCursor<'bvh> | fn from
//@props C08 C09 C10
//@emit impl<'bvh> FrameCursor<'bvh>
⟦~ fn from ~> fn from_bvh ⟧(bvh: &'bvh mut Bvh) -> ⟦~ Self ~> (r: Self) ensures *r.bvh == *old(bvh), *final(r.bvh) == *final(bvh), r.index == 0 ⟧ {
    Self { bvh, index: 0 }
}
//@item src/frame_cursor.rs | impl<'bvh> From<FrameCursor<'bvh>> for Frames<'bvh> | fn from
//@props C10
//@name From<FrameCursor> for Frames :: from
//@emit impl<'bvh> FrameCursor<'bvh>
⟦~ fn from ~> fn to_frames ⟧(cursor: FrameCursor<'bvh>) -> ⟦~ Self ~> (r: Frames<'bvh>) requires cursor.wf(), ensures r.rem() == cursor.frames().skip(cursor.index as int) ⟧ {
    cursor.into_frames()
}
//@item src/frame_cursor.rs | impl<'bvh> From<FrameCursor<'bvh>> for FramesMut<'bvh> | fn from
//@props C10
//@name From<FrameCursor> for FramesMut :: from
//@emit impl<'bvh> FrameCursor<'bvh>
⟦~ fn from ~> fn to_frames_mut ⟧(cursor: FrameCursor<'bvh>) -> ⟦~ Self ~> (r: FramesMut<'bvh>)
    requires cursor.wf(),
    ensures r.wf(), r.width() == cursor.n(), rows(r.cur(), r.width()) =~= cursor.frames().skip(cursor.index as int),
 ⟧ {
    cursor.into_frames_mut()
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn into_frames
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn into_frames(self) -> ⟦~ Frames<'bvh> ~> (r: Frames<'bvh>) requires self.wf(), ensures r.rem() =~= self.frames().skip(self.index as int) ⟧ {
    let mut frames = self.bvh.frames();
    ⟦~ for _ in 0.. ~> let mut _i: usize = 0; let ghost o = self.frames(); let ghost idx = self.index as int;
    while _i < ⟧ self.index
    ⟦   invariant idx == self.index, idx <= o.len(), _i <= idx, frames.rem() =~= o.skip(_i as int),
        ensures _i == idx,
        decreases idx - _i, ⟧
    { ⟦ _i += 1; ⟧
        if frames.next().is_none() {
            break;
        }
    }

    frames
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn into_frames_mut
//@props C10
//@emit impl<'bvh> FrameCursor<'bvh>
fn into_frames_mut(self) -> ⟦~ FramesMut<'bvh> ~> (r: FramesMut<'bvh>)
    requires self.wf(),
    ensures
        r.wf(), r.width() == self.n(), rows(r.cur(), r.width()) =~= self.frames().skip(self.index as int),
        // what is written through the iterator ends up in these rows and nowhere else
        final(self.bvh).motion_values@ =~= self.values().take(self.index * self.n()) + r.fin() + self.values().skip((num_rows(self.values(), self.n()) * self.n()) as int),
        r.fin().len() == r.cur().len(),
        same_but_motion(*final(self.bvh), *old(self.bvh)), ⟧ {
    ⟦ let ghost o = self.values(); let ghost n = self.n(); let ghost k = num_rows(o, n); let ghost idx = self.index as nat;
      proof { lemma_rows_fit(o, n); } ⟧
    let mut frames = self.bvh.frames_mut();
    ⟦ let ghost c0 = frames.cur(); let ghost f0 = frames.fin();
      proof { lemma_mod_self(k, n); lemma_rows_step(c0, n, 0); assert(0 * n == 0); assert(c0.skip(0) =~= c0); assert(f0 =~= c0.take(0) + frames.fin()); } ⟧
    ⟦~ for _ in 0.. ~> let mut _i: usize = 0;
    while _i < ⟧ self.index
    ⟦   invariant
            frames.wf(), frames.width() == n, idx == self.index, idx <= k, k == num_rows(c0, n), _i <= idx,
            n > 0 ==> c0.len() % n == 0, n == 0 ==> c0.len() == 0, 0 <= _i * n <= c0.len(),
            frames.cur() == c0.skip(_i * n), f0 == c0.take(_i * n) + frames.fin(), frames.fin().len() == frames.cur().len(),
        ensures _i == idx,
        decreases idx - _i, ⟧
    {
        ⟦ proof { lemma_rows_step(c0, n, _i as nat); } _i += 1; ⟧
        if frames.next().is_none() {
            break;
        }
        ⟦ proof { lemma_step_seq(c0, frames.fin(), n, (_i - 1) as nat); } ⟧
    }

    ⟦ proof { lemma_rows_step(c0, n, idx); lemma_rows_skip(c0, o, n, idx); } ⟧
    frames
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn remove_all_frames
//@props C09
//@emit impl<'bvh> FrameCursor<'bvh>
fn remove_all_frames(&mut self) -> ⟦~ &mut Self ~> (r: &mut Self)
    ensures r.index == 0, r.values().len() == 0, r.same_bvh(old(self)), *final(self) == *final(r), r.wf() ⟧ {
    self.bvh.motion_values.clear();
    self.index = 0;
    self
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn shrink_to_fit
//@props C08 C09
//@emit impl<'bvh> FrameCursor<'bvh>
fn shrink_to_fit(&mut self)
⟦   ensures final(self).index == old(self).index, final(self).values() == old(self).values(), final(self).same_bvh(old(self)), ⟧ {
    self.bvh.motion_values.shrink_to_fit();
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn remove_frame
//@props C09
//@emit impl<'bvh> FrameCursor<'bvh>
fn remove_frame(&mut self) -> ⟦~ Result<&mut Self, FrameRemoveError> ~> (r: Result<&mut Self, FrameRemoveError>)
    requires old(self).wf(),
    ensures
        old(self).index >= old(self).frames().len() ==> r is Err && r->Err_0.index == old(self).index && *final(self) == *old(self),
        old(self).index < old(self).frames().len() ==> r is Ok && *final(self) == *final(r->Ok_0) && r->Ok_0.same_bvh(old(self))
            && r->Ok_0.index == old(self).index && r->Ok_0.frames() =~= old(self).frames().remove(old(self).index as int)
            && r->Ok_0.values() =~= seq_replace_row(old(self).values(), old(self).n(), old(self).index as int, Seq::empty())
            && r->Ok_0.wf(), ⟧ {
    if self.index >= self.len() {
        return Err(FrameRemoveError::new(self.index));
    }

    ⟦ proof { axiom_vec_f32_len(&self.bvh.motion_values); lemma_rows_fit(self.values(), self.n()); lemma_row_fit(self.values(), self.n(), self.index as int); } ⟧
    let bnd = ⟦~ |idx| ~> |idx: usize| -> (o: usize) requires idx * self.n() <= usize::MAX, ensures o == idx * self.n() { ⟧ idx * self.num_channels() ⟦ } ⟧;
    let frame_bound = bnd(self.index)..bnd(self.index + 1);

    let mut i = 0;
    ⟦ // Vec::retain, inlined as std documents it: the closure is asked once per element, in order
    let ghost o = self.values(); let ghost n = self.n(); let ghost k = self.index as int;
    let vx_src: Vec<f32> = mem::take(&mut ⟧ self.bvh
        .motion_values
        ⟦~ .retain(|_| ~> );
    let mut vx_out: Vec<f32> = Vec::new();
    let mut vx_k: usize = 0;
    while vx_k < vx_src.len()
        invariant
            vx_k <= vx_src@.len(), vx_src@ == o, 0 <= k * n <= (k + 1) * n <= o.len(), i == vx_k,
            frame_bound.start == k * n, frame_bound.end == (k + 1) * n,
            vx_out@ =~= if vx_k <= k * n { o.take(vx_k as int) } else if vx_k <= (k + 1) * n { o.take(k * n) } else { o.take(k * n) + o.subrange((k + 1) * n, vx_k as int) },
        decreases vx_src.len() - vx_k
    {
        let vx_keep: bool = ⟧ (!frame_bound.contains(&i), i += 1).0 ⟦~ ) ~> ;
        if vx_keep { vx_out.push(vx_src[vx_k]); }
        vx_k += 1;
    }
    self.bvh.motion_values = vx_out ⟧;
    ⟦ proof { lemma_remove_row(o, n, k); } ⟧

    Ok(self)
}
//@raw
// what cutting out row k does to the rows
proof fn lemma_remove_row(s: Seq<f32>, n: nat, k: int)
    requires 0 <= k < num_rows(s, n),
    ensures rows(seq_replace_row(s, n, k, Seq::empty()), n) =~= rows(s, n).remove(k),
{
    lemma_rows_fit(s, n);
    lemma_row_fit(s, n, k);
    let t = seq_replace_row(s, n, k, Seq::empty());
    assert(t.len() == s.len() - n);
    lemma_num_rows_less(s, t, n);
    assert forall|j: int| 0 <= j < num_rows(t, n) implies rows(t, n)[j] =~= rows(s, n).remove(k)[j] by {
        lemma_row_fit(t, n, j);
        lemma_row_fit(s, n, j + 1);
        lemma_row_fit(s, n, j);
        lemma_mul_le(j + 1, k, n); lemma_mul_le(k + 1, j + 1, n);
    }
}
proof fn lemma_mul_le(a: int, b: int, n: nat) ensures a <= b ==> a * n <= b * n { assert(a <= b ==> a * n <= b * n) by (nonlinear_arith); }
// one row less: num_rows is one less
proof fn lemma_num_rows_less(s: Seq<f32>, t: Seq<f32>, n: nat)
    requires n > 0, t.len() + n == s.len(),
    ensures num_rows(t, n) + 1 == num_rows(s, n),
{
    vstd::arithmetic::div_mod::lemma_div_plus_one(t.len() as int, n as int);
}
proof fn lemma_mod_self(k: nat, n: nat) ensures n > 0 ==> (k * n) % n == 0 && (k * n) / n == k
{ if n > 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k as int, n as int); vstd::arithmetic::div_mod::lemma_div_by_multiple(k as int, n as int); } }
// the rows from row i on
proof fn lemma_rows_skip(c: Seq<f32>, o: Seq<f32>, n: nat, i: nat)
    requires c =~= o.take((num_rows(o, n) * n) as int), i <= num_rows(o, n),
    ensures rows(c.skip((i * n) as int), n) =~= rows(o, n).skip(i as int),
{
    let k = num_rows(o, n);
    if n > 0 {
        lemma_rows_fit(o, n);
        lemma_mod_self(k, n);
        lemma_rows_step(c, n, i);
        let t = c.skip((i * n) as int);
        assert(t.len() == (k - i) * n) by (nonlinear_arith) requires t.len() == k * n - i * n;
        lemma_mod_self((k - i) as nat, n);
        assert forall|j: int| 0 <= j < k - i implies rows(t, n)[j] =~= rows(o, n)[i + j] by {
            lemma_row_fit(t, n, j);
            lemma_row_fit(o, n, i + j);
            assert((i + j) * n == i * n + j * n) by (nonlinear_arith);
            assert((i + j + 1) * n == i * n + j * n + n) by (nonlinear_arith);
        }
    }
}
//@item src/frame_cursor.rs | fn vec_insert_slice
//@props C08
fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &[T])
⟦   requires index <= old(vec)@.len(), old(vec)@.len() + slice@.len() <= usize::MAX,
    ensures
        final(vec)@.len() == old(vec)@.len() + slice@.len(),
        forall|i: int| 0 <= i < index ==> #[trigger] final(vec)@[i] == old(vec)@[i],
        forall|i: int| 0 <= i < slice@.len() ==> cloned(#[trigger] slice@[i], final(vec)@[index + i]),
        forall|i: int| index + slice@.len() <= i < final(vec)@.len() ==> #[trigger] final(vec)@[i] == old(vec)@[i - slice@.len()],
⟧ {
    vx_assert(
        index <= vec.len()
    );

    let spare_capacity = vec.capacity().saturating_sub(vec.len());
    if slice.len() > spare_capacity {
        vec.reserve(slice.len() - spare_capacity);
    }

    let old_len = vec.len();
    let new_len = vec.len() + slice.len();
    vec.resize_with(new_len, T::default);

    ⟦~ for to_move in ( ~> let vx_lo: usize = ⟧ index ⟦~ .. ~> ; let mut vx_hi: usize = ⟧ old_len ⟦~ ).rev() ~> ;
    while vx_lo < vx_hi
        invariant
            vx_lo == index <= vx_hi <= old_len == old(vec)@.len(), vec@.len() == new_len == old_len + slice@.len(),
            forall|i: int| 0 <= i < vx_hi ==> #[trigger] vec@[i] == old(vec)@[i],
            forall|i: int| vx_hi + slice@.len() <= i < new_len ==> #[trigger] vec@[i] == old(vec)@[i - slice@.len()],
        decreases vx_hi ⟧
    { ⟦ vx_hi -= 1; let to_move = vx_hi; ⟧
        vec.swap(to_move, to_move + slice.len());
    }

    ⟦~ for (i, item) in slice.iter().enumerate() ~> let mut vx_i: usize = 0;
    while vx_i < slice.len()
        invariant
            vx_i <= slice@.len(), vec@.len() == new_len == old(vec)@.len() + slice@.len(), index <= old(vec)@.len(),
            forall|i: int| 0 <= i < index ==> #[trigger] vec@[i] == old(vec)@[i],
            forall|i: int| index + slice@.len() <= i < new_len ==> #[trigger] vec@[i] == old(vec)@[i - slice@.len()],
            forall|i: int| 0 <= i < vx_i ==> cloned(#[trigger] slice@[i], vec@[index + i]),
        decreases slice@.len() - vx_i ⟧
    { ⟦ let i = vx_i; let item = &slice[vx_i]; vx_i += 1; ⟧
        vec[i + index] = item.clone();
    }
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn try_insert_frame
//@props C08
//@emit impl<'bvh> FrameCursor<'bvh>
fn try_insert_frame<F>(&mut self, frame: &F) -> ⟦~ Result<&mut Self, FrameInsertError> ~> (r: Result<&mut Self, FrameInsertError>) ⟧
where
    F: AsRef<[f32]> + ?Sized,
⟦   requires old(self).wf(),
    ensures
        frame.as_ref_spec()@.len() != old(self).n() ==> r is Err && *final(self) == *old(self)
            && r->Err_0.kind == (FrameInsertErrorKind::IncorrectFrameLength { expected: old(self).bvh.num_channels, actual: frame.as_ref_spec()@.len() as usize }),
        frame.as_ref_spec()@.len() == old(self).n() ==> r is Ok && *final(self) == *final(r->Ok_0) && r->Ok_0.same_bvh(old(self)) && r->Ok_0.wf()
            && r->Ok_0.values() =~= seq_insert(old(self).values(), old(self).index * old(self).n(), frame.as_ref_spec()@)
            && (old(self).n() > 0 ==> r->Ok_0.index == old(self).index + 1 && r->Ok_0.frames() =~= old(self).frames().insert(old(self).index as int, frame.as_ref_spec()@)),
⟧
{
    let frame = frame.as_ref();
    if frame.len() != self.num_channels() {
        return Err(FrameInsertError::incorrect_len(
            self.num_channels(),
            frame.len(),
        ));
    }

    ⟦ let ghost o = self.values(); let ghost n = self.n(); let ghost k = self.index as int;
      proof { axiom_vec_f32_len(&self.bvh.motion_values); axiom_slice_f32_len(frame); lemma_rows_fit(o, n); lemma_mul_le(k, num_rows(o, n) as int, n); } ⟧
    let idx = self.index * self.num_channels();
    vec_insert_slice(&mut self.bvh.motion_values, idx, frame);
    ⟦ proof {
        assert(self.values() =~= seq_insert(o, k * n, frame@));
        lemma_insert_row(o, n, k, frame@);
    } ⟧

    Ok(self.move_next())
}
//@raw
proof fn lemma_insert_row(s: Seq<f32>, n: nat, k: int, x: Seq<f32>)
    requires 0 <= k <= num_rows(s, n), x.len() == n,
    ensures n > 0 ==> rows(seq_insert(s, k * n, x), n) =~= rows(s, n).insert(k, x),
{
    if n > 0 {
        lemma_rows_fit(s, n);
        lemma_mul_le(k, num_rows(s, n) as int, n); lemma_mul_le(0, k, n);
        let t = seq_insert(s, k * n, x);
        lemma_num_rows_less(t, s, n);
        assert((k + 1) * n == k * n + n) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < num_rows(t, n) implies #[trigger] rows(t, n)[j] =~= rows(s, n).insert(k, x)[j] by {
            lemma_row_fit(t, n, j);
            if j < k { lemma_row_fit(s, n, j); lemma_mul_le(j + 1, k, n); }
            if j > k { lemma_row_fit(s, n, j - 1); lemma_mul_le(k + 1, j, n); assert((j - 1) * n == j * n - n) by (nonlinear_arith); }
        }
    }
}
spec fn views<'f, F: ?Sized + AsRef<[f32]>>(s: Seq<&'f F>) -> Seq<Seq<f32>> { s.map_values(|f: &'f F| f.as_ref_spec()@) }
// inserting frames one by one, up to the first one which is refused: values, position, all accepted
spec fn insert_all(v: Seq<f32>, i: int, n: nat, items: Seq<Seq<f32>>) -> (Seq<f32>, int, bool)
    decreases items.len()
{
    if items.len() == 0 { (v, i, true) }
    else if items[0].len() != n { (v, i, false) }
    else { insert_all(seq_insert(v, i * n, items[0]), if n > 0 { i + 1 } else { 0 }, n, items.skip(1)) }
}
//@item src/frame_cursor.rs | impl<'bvh> FrameCursor<'bvh> | fn try_insert_frames
//@props C08
//@emit impl<'bvh> FrameCursor<'bvh>
fn try_insert_frames<'f, I, F>(&mut self, frames: I) -> ⟦~ Result<&mut Self, FrameInsertError> ~> (r: Result<&mut Self, FrameInsertError>) ⟧
where
    I: ⟦~ IntoIterator ~> VxIntoIterator ⟧<Item = &'f F>,
    F: 'f + AsRef<[f32]> + ?Sized,
⟦   requires old(self).wf(),
    ensures
        ({ let (v, i, ok) = insert_all(old(self).values(), old(self).index as int, old(self).n(), views(frames.all()));
           if ok { r is Ok && r->Ok_0.values() == v && r->Ok_0.index == i && *final(self) == *final(r->Ok_0) && r->Ok_0.same_bvh(old(self)) && r->Ok_0.wf() }
           else { r is Err && final(self).values() == v && final(self).index == i && final(self).same_bvh(old(self)) && final(self).wf() } }),
⟧
{
    let frames = frames.into_iter();
    let num_channels = self.num_channels();
    let (num_frames, _) = frames.size_hint();

    if let Some(num_values) = num_frames.checked_mul(num_channels) {
        let _ = self.bvh.motion_values.try_reserve(num_values);
    }

    ⟦ let ghost v0 = old(self).values(); let ghost i0 = old(self).index as int; let ghost n = old(self).n(); let ghost all = frames.items(); ⟧
    ⟦~ for frame in ~> let mut vx_it = ⟧ frames.into_iter() ⟦ ;
    #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    loop
        invariant
            self.wf(), self.same_bvh(old(self)), self.n() == n,
            insert_all(v0, i0, n, views(all)) == insert_all(self.values(), self.index as int, n, views(vx_it.items())),
        ensures vx_it.items().len() == 0,
        decreases vx_it.items().len() ⟧
    {
        ⟦ let ghost rest = vx_it.items();
        let frame = match vx_it.next() { Some(x) => x, None => break };
        proof { assert(views(rest).skip(1) =~= views(vx_it.items())); assert(views(rest)[0] == frame.as_ref_spec()@); } ⟧
        let frame = frame.as_ref();
        self.try_insert_frame(&frame)?;
    }

    Ok(self)
}
