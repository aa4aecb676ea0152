//@raw
//@props C19
// ================================================================ each option changes only its own aspect (C19)
// indentation and line terminator: the same lines, rendered otherwise (C14: the text is render(indent, terminator, doc))
proof fn lemma_layout_only(o: &WriteOptions, q: &WriteOptions, b: &Bvh)
    requires o.po() == q.po(), o.pt() == q.pt(), o.pm() == q.pm(),
    ensures o.doc(b) == q.doc(b),
{}
// a line and what stands there with other options: the same, or both begin with these words
spec fn begins(t: Seq<u8>, w: Seq<u8>) -> bool { t.len() >= w.len() && t.take(w.len() as int) == w }
spec fn alike(a: Line, b: Line, w: Seq<u8>) -> bool { a.depth == b.depth && (a == b || (begins(a.text, w) && begins(b.text, w))) }
spec fn alike_at(x: Seq<Line>, y: Seq<Line>, w: Seq<u8>, i: int) -> bool { alike(x[i], y[i], w) }
spec fn all_alike(x: Seq<Line>, y: Seq<Line>, w: Seq<u8>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] alike_at(x, y, w, i) }
proof fn lemma_alike_add(a: Seq<Line>, b: Seq<Line>, c: Seq<Line>, d: Seq<Line>, w: Seq<u8>)
    requires all_alike(a, c, w), all_alike(b, d, w),
    ensures all_alike(a + b, c + d, w),
{
    assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] alike_at(a + b, c + d, w, i) by {
        if i < a.len() { assert(alike_at(a, c, w, i)); } else { assert(alike_at(b, d, w, i - a.len())); }
    }
}
proof fn lemma_alike_same(a: Seq<Line>, w: Seq<u8>)
    ensures all_alike(a, a, w),
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] alike_at(a, a, w, i) by {} }
proof fn lemma_alike_offsets(p: Option<usize>, q: Option<usize>, o: Offset)
    ensures begins(vec3_text(p, o), bs"OFFSET "), begins(vec3_text(q, o), bs"OFFSET "),
{
    assert(vec3_text(p, o).take(7) =~= bs"OFFSET ");
    assert(vec3_text(q, o).take(7) =~= bs"OFFSET ");
}
proof fn lemma_offsets_only(p: Option<usize>, q: Option<usize>, js: Seq<JointData>, i: int)
    requires 0 <= i,
    ensures all_alike(joints_lines(p, js, i), joints_lines(q, js, i), bs"OFFSET "),
    decreases js.len() - i,
{
    let w = bs"OFFSET ";
    lemma_joints_lines(p, js, i); lemma_joints_lines(q, js, i);
    if i < js.len() {
        let j = js[i];
        lemma_offsets_only(p, q, js, i + 1);
        lemma_alike_offsets(p, q, j.s_offset());
        if j.s_end() is Some { lemma_alike_offsets(p, q, j.s_end()->0); }
        let c = closes(j.s_depth() as int, next_depth(js, i));
        lemma_alike_same(c, w); lemma_alike_same(name_lines(j), w); lemma_alike_same(channel_lines(j), w);
        assert(all_alike(offset_lines(p, j), offset_lines(q, j), w));
        assert(all_alike(end_lines(p, j), end_lines(q, j), w));
        lemma_alike_add(end_lines(p, j), c, end_lines(q, j), c, w);
        let (r1, r2) = (tail_lines(p, js, i) + joints_lines(p, js, i + 1), tail_lines(q, js, i) + joints_lines(q, js, i + 1));
        lemma_alike_add(tail_lines(p, js, i), joints_lines(p, js, i + 1), tail_lines(q, js, i), joints_lines(q, js, i + 1), w);
        lemma_alike_add(channel_lines(j), r1, channel_lines(j), r2, w);
        lemma_alike_add(offset_lines(p, j), channel_lines(j) + r1, offset_lines(q, j), channel_lines(j) + r2, w);
        lemma_alike_add(name_lines(j), offset_lines(p, j) + (channel_lines(j) + r1), name_lines(j), offset_lines(q, j) + (channel_lines(j) + r2), w);
    }
}
// the precision of offsets: only lines which begin with OFFSET differ
proof fn lemma_offset_option(o: &WriteOptions, q: &WriteOptions, b: &Bvh)
    requires o.pt() == q.pt(), o.pm() == q.pm(),
    ensures all_alike(o.doc(b), q.doc(b), bs"OFFSET "),
{
    let w = bs"OFFSET ";
    lemma_offsets_only(o.po(), q.po(), b.joints@, 0);
    lemma_alike_same(o.motion_on(b), w);
    lemma_alike_same(seq![ln(0, bs"HIERARCHY")], w);
    lemma_alike_add(joints_lines(o.po(), b.joints@, 0), o.motion_on(b), joints_lines(q.po(), b.joints@, 0), q.motion_on(b), w);
    lemma_alike_add(seq![ln(0, bs"HIERARCHY")], o.joints_on(b, 0), seq![ln(0, bs"HIERARCHY")], q.joints_on(b, 0), w);
}
// the precision of the frame time: only the line of the frame time differs
proof fn lemma_time_option(o: &WriteOptions, q: &WriteOptions, b: &Bvh)
    requires o.po() == q.po(), o.pm() == q.pm(),
    ensures all_alike(o.doc(b), q.doc(b), bs"Frame Time: "),
{
    let w = bs"Frame Time: ";
    let (t1, t2) = (time_lines(o.pt(), b.frame_time), time_lines(q.pt(), b.frame_time));
    assert(t1[0].text.take(12) =~= w);
    assert(t2[0].text.take(12) =~= w);
    assert(all_alike(t1, t2, w));
    lemma_alike_same(o.frames_lines(b), w);
    lemma_alike_add(t1, o.frames_lines(b), t2, q.frames_lines(b), w);
    lemma_alike_same(count_lines(b.frame_seq().len()), w);
    lemma_alike_add(count_lines(b.frame_seq().len()), o.time_on(b), count_lines(b.frame_seq().len()), q.time_on(b), w);
    lemma_alike_same(seq![ln(0, bs"MOTION")], w);
    lemma_alike_add(seq![ln(0, bs"MOTION")], o.count_on(b), seq![ln(0, bs"MOTION")], q.count_on(b), w);
    lemma_alike_same(joints_lines(o.po(), b.joints@, 0), w);
    lemma_alike_add(joints_lines(o.po(), b.joints@, 0), o.motion_on(b), joints_lines(q.po(), b.joints@, 0), q.motion_on(b), w);
    lemma_alike_same(seq![ln(0, bs"HIERARCHY")], w);
    lemma_alike_add(seq![ln(0, bs"HIERARCHY")], o.joints_on(b, 0), seq![ln(0, bs"HIERARCHY")], q.joints_on(b, 0), w);
}
// the precision of the motion values: only the lines of the frames differ, and there are as many
proof fn lemma_motion_option(o: &WriteOptions, q: &WriteOptions, b: &Bvh)
    requires o.po() == q.po(), o.pt() == q.pt(),
    ensures
        o.doc(b).len() == q.doc(b).len(), o.doc(b).len() >= b.frame_seq().len(),
        o.doc(b).take(o.doc(b).len() - b.frame_seq().len()) =~= q.doc(b).take(o.doc(b).len() - b.frame_seq().len()),
{
    let head = seq![ln(0, bs"HIERARCHY")] + (joints_lines(o.po(), b.joints@, 0) + (seq![ln(0, bs"MOTION")] + (count_lines(b.frame_seq().len()) + time_lines(o.pt(), b.frame_time))));
    assert(o.doc(b) =~= head + o.frames_lines(b));
    assert(q.doc(b) =~= head + q.frames_lines(b));
    assert((head + o.frames_lines(b)).take(head.len() as int) =~= head);
    assert((head + q.frames_lines(b)).take(head.len() as int) =~= head);
}
