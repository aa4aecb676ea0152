//@raw
// ================================================================ src/frame_iter.rs
//@item src/frame_iter.rs | struct Frames
struct Frames<'a> {
    chunks: Option<ChunksExact<'a, f32>>,
}
//@item src/frame_iter.rs | struct FramesMut
struct FramesMut<'a> {
    chunks: Option<ChunksExactMut<'a, f32>>,
}
//@item src/frame_iter.rs | struct Frame
struct Frame<'a>(&'a [f32]);
//@item src/frame_iter.rs | struct FrameMut
struct FrameMut<'a>(&'a mut [f32]);
//@raw
impl<'a> Frames<'a> {
    // The frames still to come.
    spec fn rem(&self) -> Seq<Seq<f32>> { match self.chunks { Some(c) => c.rem(), None => Seq::empty() } }

    // core::iter::Iterator::nth, as std defines it in terms of next (Frames does not override it).
    fn nth(&mut self, n: usize) -> (r: Option<Frame<'a>>)
        ensures
            n >= old(self).rem().len() ==> r is None && final(self).rem().len() == 0,
            n < old(self).rem().len() ==> r is Some && r->Some_0.0@ == old(self).rem()[n as int] && final(self).rem() =~= old(self).rem().skip(n + 1),
    {
        let mut i: usize = 0;
        while i < n
            invariant i <= n, i <= old(self).rem().len(), self.rem() =~= old(self).rem().skip(i as int)
            decreases n - i
        {
            if self.next().is_none() { return None; }
            i += 1;
        }
        self.next()
    }
}
impl<'a> FramesMut<'a> {
    spec fn wf(self) -> bool { self.chunks is Some ==> self.chunks->0.wf() }
    spec fn width(self) -> nat { match self.chunks { Some(c) => c.n as nat, None => 0 } }
    // The values still to come, and what they will be when all borrows have ended.
    spec fn cur(self) -> Seq<f32> { match self.chunks { Some(c) => c.cur(), None => Seq::empty() } }
    #[verifier::prophetic]
    spec fn fin(self) -> Seq<f32> { match self.chunks { Some(c) => c.fin(), None => Seq::empty() } }

    fn nth(&mut self, n: usize) -> (r: Option<FrameMut<'a>>)
        requires old(self).wf(), old(self).fin().len() == old(self).cur().len(),
        ensures
            final(self).wf(), final(self).width() == old(self).width(),
            n >= num_rows(old(self).cur(), old(self).width()) ==> r is None && old(self).fin() =~= old(self).cur(),
            n < num_rows(old(self).cur(), old(self).width()) ==> r is Some
                && r->Some_0.0@ =~= row(old(self).cur(), old(self).width(), n as int)
                && final(r->Some_0.0)@.len() == old(self).width()
                && old(self).fin() =~= old(self).cur().take(n * old(self).width()) + final(r->Some_0.0)@ + final(self).fin()
                && final(self).cur() =~= old(self).cur().skip((n + 1) * old(self).width()),
    {
        hide(num_rows);
        let mut i: usize = 0;
        let ghost w = self.width();
        let ghost c0 = self.cur();
        let ghost f0 = self.fin();
        proof { lemma_rows_whole(c0, w); lemma_rows_at(c0, w, 0); assert(self.cur() =~= c0.skip(0)); assert(f0 =~= c0.take(0) + self.fin()); }
        while i < n
            invariant
                self.wf(), self.width() == w, c0 == old(self).cur(), f0 == old(self).fin(), w == old(self).width(),
                i <= n, i <= num_rows(c0, w), i * w <= c0.len(),
                num_rows(c0, w) * w == c0.len(), w == 0 ==> c0.len() == 0,
                self.cur() == c0.skip(i * w),
                f0 == c0.take(i * w) + self.fin(), self.fin().len() == self.cur().len(),
            decreases n - i
        {
            proof { lemma_rows_at(c0, w, i as nat); }
            if self.next().is_none() {
                proof { assert(f0 =~= c0); }
                return None;
            }
            proof { lemma_step_seq(c0, self.fin(), w, i as nat); }
            i += 1;
        }
        proof { lemma_rows_at(c0, w, n as nat); if n < num_rows(c0, w) { lemma_step_seq(c0, self.fin(), w, n as nat); } }
        let r = self.next();
        assert(n >= num_rows(c0, w) ==> f0 =~= c0);
        assert(n < num_rows(c0, w) ==> (r->0).0@ == c0.skip(n * w).take(w as int) && c0.skip(n * w).take(w as int) =~= row(c0, w, n as int));
        assert(n < num_rows(c0, w) ==> f0 =~= c0.take(n * w) + final((r->0).0)@ + self.fin());
        r
    }
}
proof fn lemma_rows_whole(s: Seq<f32>, w: nat)
    requires w == 0 ==> s.len() == 0, w > 0 ==> s.len() % w == 0,
    ensures num_rows(s, w) * w == s.len(),
{
    let k = num_rows(s, w);
    if w > 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s.len() as int, w as int); }
    assert(k * w == s.len()) by (nonlinear_arith) requires w == 0 ==> s.len() == 0 && k == 0, w > 0 ==> s.len() == w * k;
}
proof fn lemma_step_seq(c0: Seq<f32>, fin: Seq<f32>, w: nat, i: nat)
    requires (i + 1) * w <= c0.len(), (i + 1) * w == i * w + w,
    ensures
        c0.skip((i * w) as int).skip(w as int) == c0.skip(((i + 1) * w) as int),
        c0.take((i * w) as int) + (c0.skip((i * w) as int).take(w as int) + fin) == c0.take(((i + 1) * w) as int) + fin,
{
    assert(0 <= i * w) by (nonlinear_arith);
    let k = (i * w) as int;
    assert(c0.skip(k).skip(w as int) =~= c0.skip(k + w));
    assert(c0.take(k) + (c0.skip(k).take(w as int) + fin) =~= c0.take(k + w) + fin);
}
// i rows are gone: what is left has num_rows - i rows, and is empty exactly if i is the number of rows
proof fn lemma_rows_at(s: Seq<f32>, w: nat, i: nat)
    requires num_rows(s, w) * w == s.len(), i <= num_rows(s, w),
    ensures
        0 <= i * w <= s.len(),
        w > 0 ==> (i < num_rows(s, w) <==> i * w < s.len()),
        i < num_rows(s, w) ==> (i + 1) * w <= s.len(),
        (i + 1) * w == i * w + w,
        w == 0 ==> num_rows(s, w) == 0,
{
    let k = num_rows(s, w);
    assert((i + 1) * w == i * w + w && i * w >= 0) by (nonlinear_arith);
    if i < k { assert((i + 1) * w <= k * w) by (nonlinear_arith) requires i < k; }
}
proof fn lemma_rows_step(s: Seq<f32>, w: nat, i: nat)
    requires w == 0 ==> s.len() == 0, w > 0 ==> s.len() % w == 0, i <= num_rows(s, w),
    ensures
        i * w <= s.len(),
        w > 0 ==> (i < num_rows(s, w) <==> i * w < s.len()),
        i < num_rows(s, w) ==> (i + 1) * w <= s.len(),
        (i + 1) * w == i * w + w,
        num_rows(s, w) * w == s.len(),
{ lemma_rows_whole(s, w); lemma_rows_at(s, w, i); }
//@item src/frame_iter.rs | impl<'a> Iterator for Frames<'a> | fn next
//@props C07 C10
//@emit impl<'a> Frames<'a>
fn next(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<Frame<'a>>)
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r->Some_0.0@ == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
⟧ {
    self.chunks.as_mut().and_then(⟦~ |c| ~> |c: &mut ChunksExact<'a, f32>| -> (q: Option<Frame<'a>>)
        ensures
            old(c).rem().len() == 0 ==> q is None && final(c).rem() == old(c).rem(),
            old(c).rem().len() > 0 ==> q is Some && q->Some_0.0@ == old(c).rem()[0] && final(c).rem() == old(c).rem().skip(1), { ⟧ c.next().map(⟦~ Frame ~> |x: &'a [f32]| -> (f: Frame<'a>) ensures f == Frame(x) { Frame(x) } ⟧)⟦ } ⟧)
}
//@item src/frame_iter.rs | impl<'a> Iterator for Frames<'a> | fn size_hint
//@props C07
//@emit impl<'a> Frames<'a>
fn size_hint(&self) -> ⟦~ (usize, Option<usize>) ~> (r: (usize, Option<usize>)) ensures r.0 == self.rem().len(), r.1 == Some(r.0) ⟧ {
    self.chunks
        .as_ref()
        .map(⟦~ |c| ~> |c: &ChunksExact<'a, f32>| -> (q: (usize, Option<usize>)) ensures q.0 == c.rem().len(), q.1 == Some(q.0) { ⟧ c.size_hint()⟦ } ⟧)
        .unwrap_or((0, Some(0)))
}
//@item src/frame_iter.rs | impl<'a> DoubleEndedIterator for Frames<'a> | fn next_back
//@props C07
//@emit impl<'a> Frames<'a>
fn next_back(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<Frame<'a>>)
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r->Some_0.0@ == old(self).rem().last() && final(self).rem() == old(self).rem().drop_last(),
⟧ {
    self.chunks.as_mut().and_then(⟦~ |c| ~> |c: &mut ChunksExact<'a, f32>| -> (q: Option<Frame<'a>>)
        ensures
            old(c).rem().len() == 0 ==> q is None && final(c).rem() == old(c).rem(),
            old(c).rem().len() > 0 ==> q is Some && q->Some_0.0@ == old(c).rem().last() && final(c).rem() == old(c).rem().drop_last(), { ⟧ c.next_back().map(⟦~ Frame ~> |x: &'a [f32]| -> (f: Frame<'a>) ensures f == Frame(x) { Frame(x) } ⟧)⟦ } ⟧)
}
//@item src/frame_iter.rs | impl<'a> ExactSizeIterator for Frames<'a> | fn len
//@props C07 C10
//@emit impl<'a> Frames<'a>
fn len(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.rem().len() ⟧ {
    self.chunks.as_ref().map(⟦~ |c| ~> |c: &ChunksExact<'a, f32>| -> (n: usize) ensures n == c.rem().len() { ⟧ c.len()⟦ } ⟧).unwrap_or(0)
}
//@item src/frame_iter.rs | impl<'a> Iterator for FramesMut<'a> | fn next
//@props C07 C10
//@emit impl<'a> FramesMut<'a>
fn next(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<FrameMut<'a>>)
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).width() == old(self).width(),
        old(self).cur().len() == 0 ==> r is None && final(self).cur() == old(self).cur() && final(self).fin() == old(self).fin(),
        old(self).cur().len() > 0 ==> old(self).cur().len() >= old(self).width() && r is Some
            && r->Some_0.0@ == old(self).cur().take(old(self).width() as int)
            && final(self).cur() == old(self).cur().skip(old(self).width() as int)
            && old(self).fin() =~= final(r->Some_0.0)@ + final(self).fin() && final(r->Some_0.0)@.len() == old(self).width(),
        final(self).fin().len() == final(self).cur().len(),
⟧ {
    self.chunks.as_mut().and_then(⟦~ |c| ~> |c: &mut ChunksExactMut<'a, f32>| -> (q: Option<FrameMut<'a>>)
        requires old(c).wf(),
        ensures
            final(c).wf(), final(c).n == old(c).n,
            old(c).cur().len() == 0 ==> q is None && final(c).cur() == old(c).cur() && final(c).fin() == old(c).fin(),
            old(c).cur().len() > 0 ==> old(c).cur().len() >= old(c).n && q is Some && q->Some_0.0@ == old(c).cur().take(old(c).n as int)
                && final(c).cur() == old(c).cur().skip(old(c).n as int)
                && old(c).fin() =~= final(q->Some_0.0)@ + final(c).fin() && final(q->Some_0.0)@.len() == old(c).n,
            final(c).fin().len() == final(c).cur().len(), { ⟧ c.next().map(⟦~ FrameMut ~> |x: &'a mut [f32]| -> (f: FrameMut<'a>) ensures f.0@ == old(x)@, final(f.0)@ == final(x)@ { FrameMut(x) } ⟧)⟦ } ⟧)
}
//@item src/frame_iter.rs | impl<'a> Iterator for FramesMut<'a> | fn size_hint
//@props C07
//@emit impl<'a> FramesMut<'a>
fn size_hint(&self) -> ⟦~ (usize, Option<usize>) ~> (r: (usize, Option<usize>)) requires self.wf(), ensures r.0 == num_rows(self.cur(), self.width()), r.1 == Some(r.0) ⟧ {
    self.chunks
        .as_ref()
        .map(⟦~ |c| ~> |c: &ChunksExactMut<'a, f32>| -> (q: (usize, Option<usize>)) requires c.wf(), ensures q.0 == c.cur().len() / (c.n as nat), q.1 == Some(q.0) { ⟧ c.size_hint()⟦ } ⟧)
        .unwrap_or((0, Some(0)))
}
//@item src/frame_iter.rs | impl<'a> DoubleEndedIterator for FramesMut<'a> | fn next_back
//@props C07
//@emit impl<'a> FramesMut<'a>
fn next_back(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<FrameMut<'a>>)
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).width() == old(self).width(),
        old(self).cur().len() == 0 ==> r is None && final(self).cur() == old(self).cur() && final(self).fin() == old(self).fin(),
        old(self).cur().len() > 0 ==> old(self).cur().len() >= old(self).width() && r is Some
            && r->Some_0.0@ == old(self).cur().skip(old(self).cur().len() - old(self).width())
            && final(self).cur() == old(self).cur().take(old(self).cur().len() - old(self).width())
            && old(self).fin() =~= final(self).fin() + final(r->Some_0.0)@ && final(r->Some_0.0)@.len() == old(self).width(),
        final(self).fin().len() == final(self).cur().len(),
⟧ {
    self.chunks
        .as_mut()
        .and_then(⟦~ |c| ~> |c: &mut ChunksExactMut<'a, f32>| -> (q: Option<FrameMut<'a>>)
        requires old(c).wf(),
        ensures
            final(c).wf(), final(c).n == old(c).n,
            old(c).cur().len() == 0 ==> q is None && final(c).cur() == old(c).cur() && final(c).fin() == old(c).fin(),
            old(c).cur().len() > 0 ==> old(c).cur().len() >= old(c).n && q is Some && q->Some_0.0@ == old(c).cur().skip(old(c).cur().len() - old(c).n)
                && final(c).cur() == old(c).cur().take(old(c).cur().len() - old(c).n)
                && old(c).fin() =~= final(c).fin() + final(q->Some_0.0)@ && final(q->Some_0.0)@.len() == old(c).n,
            final(c).fin().len() == final(c).cur().len(), { ⟧ c.next_back().map(⟦~ FrameMut ~> |x: &'a mut [f32]| -> (f: FrameMut<'a>) ensures f.0@ == old(x)@, final(f.0)@ == final(x)@ { FrameMut(x) } ⟧)⟦ } ⟧)
}
//@item src/frame_iter.rs | impl<'a> ExactSizeIterator for FramesMut<'a> | fn len
//@props C07
//@emit impl<'a> FramesMut<'a>
fn len(&self) -> ⟦~ usize ~> (r: usize) requires self.wf(), ensures r == num_rows(self.cur(), self.width()) ⟧ {
    self.chunks.as_ref().map(⟦~ |c| ~> |c: &ChunksExactMut<'a, f32>| -> (n: usize) requires c.wf(), ensures n == c.cur().len() / (c.n as nat) { ⟧ c.len()⟦ } ⟧).unwrap_or(0)
}
