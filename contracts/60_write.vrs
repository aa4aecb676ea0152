//@raw
//@props C14 C15 C16 C19
// ================================================================ src/write.rs: writing (C14, C15, C16, C19)
// The text of a number is the standard formatter's: an uninterpreted function of the number and the precision.
uninterp spec fn f32_text(p: Option<usize>, x: f32) -> Seq<u8>;
uninterp spec fn f64_text(p: Option<usize>, x: f64) -> Seq<u8>;
uninterp spec fn usize_text(x: usize) -> Seq<u8>;
pub uninterp spec fn secs_f64(d: core::time::Duration) -> f64;
pub assume_specification [core::time::Duration::as_secs_f64] (d: &core::time::Duration) -> (r: f64) ensures r == secs_f64(*d);
// the largest precision which the standard formatter takes
spec fn max_precision() -> int { 65535 }

// std::fmt: what {} and {:.*} write
trait VxShow { spec fn shown(&self, p: Option<usize>) -> Seq<u8>; fn vx_show(&self, p: Option<usize>, to: &mut Vec<u8>) ensures final(to)@ == old(to)@ + self.shown(p); }
impl VxShow for f32 {
    spec fn shown(&self, p: Option<usize>) -> Seq<u8> { f32_text(p, *self) }
    #[verifier::external_body]
    fn vx_show(&self, p: Option<usize>, to: &mut Vec<u8>) { unimplemented!() }
}
impl VxShow for f64 {
    spec fn shown(&self, p: Option<usize>) -> Seq<u8> { f64_text(p, *self) }
    #[verifier::external_body]
    fn vx_show(&self, p: Option<usize>, to: &mut Vec<u8>) { unimplemented!() }
}
impl VxShow for usize {
    spec fn shown(&self, p: Option<usize>) -> Seq<u8> { usize_text(*self) }
    #[verifier::external_body]
    fn vx_show(&self, p: Option<usize>, to: &mut Vec<u8>) { unimplemented!() }
}
impl<T: VxShow + ?Sized> VxShow for &T {
    spec fn shown(&self, p: Option<usize>) -> Seq<u8> { (**self).shown(p) }
    fn vx_show(&self, p: Option<usize>, to: &mut Vec<u8>) { (**self).vx_show(p, to) }
}
impl VxShow for VxText {
    spec fn shown(&self, p: Option<usize>) -> Seq<u8> { if p is None { self.v@ } else { text_cut(self.v@, p->0) } }
    #[verifier::external_body]
    fn vx_show(&self, p: Option<usize>, to: &mut Vec<u8>) { unimplemented!() }
}
uninterp spec fn text_cut(s: Seq<u8>, n: usize) -> Seq<u8>;
// String
struct VxText { v: Vec<u8> }
impl VxText {
    fn new() -> (r: VxText) ensures r.v@ == Seq::<u8>::empty() { VxText { v: Vec::new() } }
    fn lit(&mut self, b: &[u8]) ensures final(self).v@ == old(self).v@ + b@ { vx_append(&mut self.v, b) }
    fn put<T: VxShow + ?Sized>(&mut self, x: &T) ensures final(self).v@ == old(self).v@ + x.shown(None) { x.vx_show(None, &mut self.v) }
    fn put_prec<T: VxShow + ?Sized>(&mut self, p: usize, x: &T) requires p <= max_precision(), ensures final(self).v@ == old(self).v@ + x.shown(Some(p)) { x.vx_show(Some(p), &mut self.v) }
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
    fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.v@ { self.v }
}
fn vx_append(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ {
    let mut i: usize = 0;
    while i < b.len()
        invariant i <= b.len(), v@ =~= old(v)@ + b@.take(i as int)
        decreases b.len() - i
    {
        v.push(b[i]);
        i = i + 1;
        proof { assert(b@.take(i as int) =~= b@.take(i - 1).push(b@[i - 1])); }
    }
    proof { assert(b@.take(i as int) =~= b@); }
}
// Vec<u8>: extend_from_slice, extend; [u8]: to_vec
fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { let mut v = Vec::new(); vx_append(&mut v, b); proof { assert(v@ =~= b@); } v }
fn vx_extend(v: &mut Vec<u8>, r: VxRepeat) ensures final(v)@ == old(v)@ + r.bytes() {
    let mut i: usize = 0;
    while i < r.n
        invariant i <= r.n, v@ =~= old(v)@ + Seq::new(i as nat, |k: int| r.b)
        decreases r.n - i
    {
        v.push(r.b);
        i = i + 1;
    }
}
// iter::repeat(b).take(n)
struct VxRepeat { b: u8, n: usize }
impl VxRepeat { spec fn bytes(&self) -> Seq<u8> { Seq::new(self.n as nat, |k: int| self.b) } }
struct VxForever { b: u8 }
fn vx_repeat(b: u8) -> (r: VxForever) ensures r.b == b { VxForever { b } }
impl VxForever { fn take(self, n: usize) -> (r: VxRepeat) ensures r.b == self.b, r.n == n { VxRepeat { b: self.b, n } } }
// .iter().map(f).collect().join(sep)
#[verifier::opaque]
spec fn joined(ts: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { ts[0] } else { joined(ts.drop_last(), sep) + sep + ts.last() }
}
trait VxPiece { spec fn piece(&self) -> Seq<u8>; fn vx_piece(&self) -> (r: &[u8]) ensures r@ == self.piece(); }
impl VxPiece for VxText { spec fn piece(&self) -> Seq<u8> { self.v@ } fn vx_piece(&self) -> (r: &[u8]) { self.v.as_slice() } }
impl VxPiece for &str { spec fn piece(&self) -> Seq<u8> { (*self).spec_bytes() } fn vx_piece(&self) -> (r: &[u8]) { self.as_bytes() } }
fn vx_map_join<T, S: VxPiece, F: Fn(&T) -> S>(s: &[T], f: F, sep: &str) -> (r: VxText)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures exists|ts: Seq<S>| #[trigger] ts.len() == s@.len() && (forall|i: int| 0 <= i < ts.len() ==> f.ensures((&s@[i],), #[trigger] ts[i]))
        && r.v@ == joined(Seq::new(ts.len(), |i: int| ts[i].piece()), sep.spec_bytes()),
{
    let mut r = VxText::new();
    let mut i: usize = 0;
    let ghost mut ts: Seq<S> = Seq::empty();
    proof { reveal(joined); }
    while i < s.len()
        invariant
            i <= s@.len(), ts.len() == i, forall|x: &T| #[trigger] f.requires((x,)),
            forall|k: int| 0 <= k < i ==> f.ensures((&s@[k],), #[trigger] ts[k]),
            r.v@ == joined(Seq::new(ts.len(), |k: int| ts[k].piece()), sep.spec_bytes()),
        decreases s.len() - i
    {
        let t = f(&s[i]);
        if i > 0 { r.lit(sep.as_bytes()); }
        r.lit(t.vx_piece());
        proof {
            let before = Seq::new(ts.len(), |k: int| ts[k].piece());
            ts = ts.push(t);
            let after = Seq::new(ts.len(), |k: int| ts[k].piece());
            assert(after.drop_last() =~= before);
            assert(after.last() == t.piece());
            reveal(joined);
            assert(r.v@ =~= joined(after, sep.spec_bytes()));
        }
        i = i + 1;
    }
    r
}
// [x, y, z]
fn vx_xyz(a: &[f32; 3]) -> (r: (&f32, &f32, &f32)) ensures *r.0 == a@[0], *r.1 == a@[1], *r.2 == a@[2] { (&a[0], &a[1], &a[2]) }
fn vx_opt_xyz(a: Option<&[f32; 3]>) -> (r: Option<(&f32, &f32, &f32)>)
    ensures r is Some <==> a is Some, r is Some ==> *(r->Some_0.0) == a->0@[0] && *(r->Some_0.1) == a->0@[1] && *(r->Some_0.2) == a->0@[2]
{ match a { Some(a) => Some(vx_xyz(a)), None => None } }
spec fn took_part(before: Seq<u8>, b: Seq<u8>, after: Seq<u8>) -> bool { exists|k: int| 0 <= k <= b.len() && after == before + #[trigger] b.take(k) }
// std::io::Write: the bytes which a sink has taken so far, the failure it has had to report, and whether it has flushed all.
// A sink which takes none of some bytes has failed: that is what WriteZero reports.
uninterp spec fn write_zero() -> IoErr;
#[verifier::external_body]
fn vx_write_zero() -> (r: IoErr) ensures r == write_zero() { unimplemented!() }
trait Sink {
    spec fn taken(&self) -> Seq<u8>;
    spec fn flushed(&self) -> bool;
    spec fn failure(&self) -> Option<IoErr>;
    // takes some of the bytes; or is interrupted, and has taken none; or fails
    fn write(&mut self, b: &[u8]) -> (r: Result<usize, IoErr>)
        ensures
            r is Ok ==> r->Ok_0 <= b@.len() && final(self).taken() == old(self).taken() + b@.take(r->Ok_0 as int),
            r is Ok && (r->Ok_0 > 0 || b@.len() == 0) ==> final(self).failure() == old(self).failure(),
            r is Ok && r->Ok_0 == 0 && b@.len() > 0 ==> final(self).failure() == Some(write_zero()),
            r is Err ==> final(self).taken() == old(self).taken(),
            r is Err ==> final(self).failure() == (if r->Err_0.interrupted() { old(self).failure() } else { Some(r->Err_0) });
    fn flush(&mut self) -> (r: Result<(), IoErr>)
        ensures
            final(self).taken() == old(self).taken(),
            r is Ok ==> final(self).flushed() && final(self).failure() == old(self).failure(),
            r is Err ==> final(self).failure() == Some(r->Err_0);
}
trait Write: Sink {
    // std's own loop over write, see default_write_all; a sink with a write_all of its own meets the same contract
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoErr>)
        ensures
            r is Ok ==> final(self).taken() == old(self).taken() + b@ && final(self).failure() == old(self).failure(),
            r is Err ==> final(self).failure() == Some(r->Err_0) && took_part(old(self).taken(), b@, final(self).taken())
    { default_write_all(self, b) }
}
proof fn lemma_short_write(start: Seq<u8>, all: Seq<u8>, k: int, n: int)
    requires 0 <= k, 0 <= n, k + n <= all.len(),
    ensures (start + all.take(k)) + all.skip(k).take(n) == start + all.take(k + n), all.skip(k).skip(n) == all.skip(k + n), start + all.take(all.len() as int) == start + all,
{
    assert((start + all.take(k)) + all.skip(k).take(n) =~= start + all.take(k + n));
    assert(all.skip(k).skip(n) =~= all.skip(k + n));
    assert(all.take(all.len() as int) =~= all);
}

// ---------------------------------------------------------------- what the text is
// A line: how deep it is, and what it says.
ghost struct Line { depth: nat, text: Seq<u8> }
spec fn ln(depth: nat, text: Seq<u8>) -> Line { Line { depth, text } }
spec fn vec3_text(p: Option<usize>, o: Offset) -> Seq<u8> {
    bs"OFFSET " + f32_text(p, o@[0]) + bs" " + f32_text(p, o@[1]) + bs" " + f32_text(p, o@[2])
}
spec fn channel_names(cs: Seq<Channel>) -> Seq<Seq<u8>> { Seq::new(cs.len(), |i: int| channel_name(cs[i].channel_type)) }
spec fn channels_text(cs: Seq<Channel>) -> Seq<u8> { bs"CHANNELS " + usize_text(cs.len() as usize) + bs" " + joined(channel_names(cs), bs" ") }
spec fn name_lines(j: JointData) -> Seq<Line> {
    seq![ln(j.s_depth(), (if j.s_private() is None { bs"ROOT " } else { bs"JOINT " }) + j.s_name()), ln(j.s_depth(), bs"{")]
}
spec fn offset_lines(p: Option<usize>, j: JointData) -> Seq<Line> { seq![ln(j.s_depth() + 1, vec3_text(p, j.s_offset()))] }
spec fn channel_lines(j: JointData) -> Seq<Line> { seq![ln(j.s_depth() + 1, channels_text(j.s_channels()))] }
spec fn end_lines(p: Option<usize>, j: JointData) -> Seq<Line> {
    if j.s_end() is Some {
        seq![ln(j.s_depth() + 1, bs"End Site"), ln(j.s_depth() + 1, bs"{"), ln(j.s_depth() + 2, vec3_text(p, j.s_end()->0)), ln(j.s_depth() + 1, bs"}")]
    } else { Seq::empty() }
}
// closing braces at the depths from .. to, the deepest first
#[verifier::opaque]
spec fn closes(from: int, to: int) -> Seq<Line> decreases from - to + 1 {
    if from < to || from < 0 { Seq::empty() } else { seq![ln(from as nat, bs"}")] + closes(from - 1, to) }
}
// the joints which end before the next one begins: its siblings' and their ancestors' braces are closed
spec fn next_depth(js: Seq<JointData>, i: int) -> int { if i + 1 < js.len() { js[i + 1].s_depth() as int } else { 0 } }
spec fn tail_lines(p: Option<usize>, js: Seq<JointData>, i: int) -> Seq<Line> { end_lines(p, js[i]) + closes(js[i].s_depth() as int, next_depth(js, i)) }
#[verifier::opaque]
spec fn joints_lines(p: Option<usize>, js: Seq<JointData>, i: int) -> Seq<Line> decreases js.len() - i {
    if i < 0 || i >= js.len() { Seq::empty() }
    else { name_lines(js[i]) + (offset_lines(p, js[i]) + (channel_lines(js[i]) + (tail_lines(p, js, i) + joints_lines(p, js, i + 1)))) }
}
spec fn row_text(p: Option<usize>, r: Seq<f32>) -> Seq<u8> { joined(Seq::new(r.len(), |i: int| f32_text(p, r[i])), bs" ") }
spec fn row_lines(p: Option<usize>, rs: Seq<Seq<f32>>) -> Seq<Line> { Seq::new(rs.len(), |i: int| ln(0, row_text(p, rs[i]))) }
spec fn time_lines(p: Option<usize>, t: Duration) -> Seq<Line> { seq![ln(0, bs"Frame Time: " + f64_text(p, secs_f64(t)))] }
spec fn count_lines(n: nat) -> Seq<Line> { seq![ln(0, bs"Frames: " + usize_text(n as usize))] }
impl WriteOptions {
    spec fn po(&self) -> Option<usize> { self.offset_significant_figures }
    spec fn pt(&self) -> Option<usize> { self.frame_time_significant_figures }
    spec fn pm(&self) -> Option<usize> { self.motion_values_significant_figures }
    spec fn ok_precision(p: Option<usize>) -> bool { p is None || p->0 <= max_precision() }
    // what is taken for granted: the formatter takes the precisions, and the indentation fits into memory
    spec fn ok(&self, b: &Bvh) -> bool {
        &&& Self::ok_precision(self.po()) && Self::ok_precision(self.pt()) && Self::ok_precision(self.pm())
        &&& forall|i: int| 0 <= i < b.joints@.len() ==> #[trigger] b.joints@[i].s_depth() <= b.joints@.len()
        &&& self.indent is Spaces ==> self.indent->Spaces_0.v * (b.joints@.len() + 2) <= usize::MAX
    }
    spec fn frames_lines(&self, b: &Bvh) -> Seq<Line> { row_lines(self.pm(), b.frame_seq()) }
    spec fn time_on(&self, b: &Bvh) -> Seq<Line> { time_lines(self.pt(), b.frame_time) + self.frames_lines(b) }
    spec fn count_on(&self, b: &Bvh) -> Seq<Line> { count_lines(b.frame_seq().len()) + self.time_on(b) }
    spec fn motion_on(&self, b: &Bvh) -> Seq<Line> { seq![ln(0, bs"MOTION")] + self.count_on(b) }
    spec fn joints_on(&self, b: &Bvh, i: int) -> Seq<Line> { joints_lines(self.po(), b.joints@, i) + self.motion_on(b) }
    // C14: the lines of the file
    spec fn doc(&self, b: &Bvh) -> Seq<Line> { seq![ln(0, bs"HIERARCHY")] + self.joints_on(b, 0) }
    // C14: the text
    spec fn text(&self, b: &Bvh) -> Seq<u8> { render(self.indent, self.line_terminator, self.doc(b)) }
}
spec fn indentation(s: IndentStyle, depth: nat) -> Seq<u8> {
    match s {
        IndentStyle::NoIndentation => Seq::empty(),
        IndentStyle::Tabs => Seq::new(depth, |k: int| 9u8),
        IndentStyle::Spaces(n) => Seq::new((n.v * depth) as nat, |k: int| 32u8),
    }
}
spec fn line_end(t: LineTerminator) -> Seq<u8> { match t { LineTerminator::Unix => seq![10u8], LineTerminator::Windows => seq![13u8, 10u8] } }
spec fn line_text(s: IndentStyle, t: LineTerminator, l: Line) -> Seq<u8> { indentation(s, l.depth) + l.text + line_end(t) }
#[verifier::opaque]
spec fn render(s: IndentStyle, t: LineTerminator, ls: Seq<Line>) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { render(s, t, ls.drop_last()) + line_text(s, t, ls.last()) }
}
proof fn lemma_render_empty(s: IndentStyle, t: LineTerminator)
    ensures render(s, t, Seq::<Line>::empty()) == Seq::<u8>::empty(),
{ reveal(render); }
proof fn lemma_render_push(s: IndentStyle, t: LineTerminator, a: Seq<Line>, l: Line)
    ensures render(s, t, a.push(l)) == render(s, t, a) + line_text(s, t, l), render(s, t, a + seq![l]) == render(s, t, a) + line_text(s, t, l),
{ reveal(render); assert(a.push(l).drop_last() =~= a); assert(a + seq![l] =~= a.push(l)); }
proof fn lemma_render_add(s: IndentStyle, t: LineTerminator, a: Seq<Line>, b: Seq<Line>)
    ensures render(s, t, a + b) == render(s, t, a) + render(s, t, b),
    decreases b.len(),
{
    reveal(render);
    if b.len() == 0 { assert(a + b =~= a); assert(render(s, t, a) + render(s, t, b) =~= render(s, t, a)); }
    else {
        lemma_render_add(s, t, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(render(s, t, a + b) =~= render(s, t, a) + render(s, t, b));
    }
}
proof fn lemma_render_one(s: IndentStyle, t: LineTerminator, l: Line)
    ensures render(s, t, seq![l]) == line_text(s, t, l),
{
    let e = Seq::<Line>::empty();
    lemma_render_push(s, t, e, l);
    assert(e.push(l) =~= seq![l]);
    lemma_render_empty(s, t);
    assert(Seq::<u8>::empty() + line_text(s, t, l) =~= line_text(s, t, l));
}
proof fn lemma_render_two(s: IndentStyle, t: LineTerminator, a: Line, b: Line)
    ensures render(s, t, seq![a, b]) == line_text(s, t, a) + line_text(s, t, b),
{ lemma_render_one(s, t, a); lemma_render_push(s, t, seq![a], b); assert(seq![a, b] =~= seq![a].push(b)); }
proof fn lemma_render_four(s: IndentStyle, t: LineTerminator, a: Line, b: Line, c: Line, d: Line)
    ensures render(s, t, seq![a, b, c, d]) == line_text(s, t, a) + line_text(s, t, b) + line_text(s, t, c) + line_text(s, t, d),
{
    lemma_render_two(s, t, a, b); lemma_render_push(s, t, seq![a, b], c); lemma_render_push(s, t, seq![a, b, c], d);
    assert(seq![a, b, c] =~= seq![a, b].push(c)); assert(seq![a, b, c, d] =~= seq![a, b, c].push(d));
}
proof fn lemma_piece(s: IndentStyle, t: LineTerminator, a: Seq<Line>, x: Seq<Line>, m: Seq<Line>)
    ensures render(s, t, (a + x) + m) == render(s, t, a) + render(s, t, x + m),
{
    assert((a + x) + m =~= a + (x + m));
    lemma_render_add(s, t, a, x + m);
}
// indentation fits into memory
proof fn lemma_indent(o: &WriteOptions, b: &Bvh, d: nat)
    requires o.ok(b), d <= b.joints@.len() + 2,
    ensures o.indent is Spaces ==> o.indent->Spaces_0.v * d <= usize::MAX,
{
    if o.indent is Spaces {
        let n = o.indent->Spaces_0.v as int;
        assert(n * d <= n * (b.joints@.len() + 2)) by (nonlinear_arith) requires 0 <= n, 0 <= d <= b.joints@.len() + 2;
    }
}
proof fn lit_space() ensures " ".spec_bytes() == bs" " { reveal_strlit(" "); is_ascii_spec_bytes(" "); assert(" ".spec_bytes() =~= bs" "); }
proof fn lemma_closes(from: int, to: int)
    ensures from >= to && from >= 0 ==> closes(from, to) == seq![ln(from as nat, bs"}")] + closes(from - 1, to), from < to || from < 0 ==> closes(from, to) == Seq::<Line>::empty(),
{ reveal(closes); }
proof fn lemma_joints_lines(p: Option<usize>, js: Seq<JointData>, i: int)
    ensures
        0 <= i < js.len() ==> joints_lines(p, js, i) == name_lines(js[i]) + (offset_lines(p, js[i]) + (channel_lines(js[i]) + (tail_lines(p, js, i) + joints_lines(p, js, i + 1)))),
        i >= js.len() ==> joints_lines(p, js, i) == Seq::<Line>::empty(),
{ reveal(joints_lines); }
// ---------------------------------------------------------------- where a writer stands
impl<'b> WriteOptionsIterState<'b> {
    spec fn wf(&self, b: &Bvh) -> bool {
        match *self {
            WriteOptionsIterState::WriteJoints { joints, current_joint, wrote_name, wrote_offset, wrote_channels } => {
                &&& joints.wf() && joints.joints@ == b.joints@ && joints.from_child is None
                &&& current_joint is Some ==> current_joint->0.joints@ == b.joints@ && current_joint->0.index < b.joints@.len() && joints.current_joint == current_joint->0.index + 1
                &&& wrote_offset ==> wrote_name
                &&& wrote_channels ==> wrote_offset
            },
            WriteOptionsIterState::WriteFrames { frames } => true,
            _ => true,
        }
    }
    // the lines which are still to be written
    spec fn left(&self, o: &WriteOptions, b: &Bvh) -> Seq<Line> {
        match *self {
            WriteOptionsIterState::WriteHierarchy { written } => if written { o.joints_on(b, 0) } else { o.doc(b) },
            WriteOptionsIterState::WriteJoints { joints, current_joint, wrote_name, wrote_offset, wrote_channels } => match current_joint {
                None => o.motion_on(b),
                Some(j) => {
                    let d = b.joints@[j.index as int];
                    let rest = tail_lines(o.po(), b.joints@, j.index as int) + joints_lines(o.po(), b.joints@, j.index + 1);
                    (if wrote_channels { rest }
                    else if wrote_offset { channel_lines(d) + rest }
                    else if wrote_name { offset_lines(o.po(), d) + (channel_lines(d) + rest) }
                    else { name_lines(d) + (offset_lines(o.po(), d) + (channel_lines(d) + rest)) }) + o.motion_on(b)
                },
            },
            WriteOptionsIterState::WriteMotion { written } => if written { o.count_on(b) } else { o.motion_on(b) },
            WriteOptionsIterState::WriteNumFrames { written } => if written { o.time_on(b) } else { o.count_on(b) },
            WriteOptionsIterState::WriteFrameTime { written } => if written { o.frames_lines(b) } else { o.time_on(b) },
            WriteOptionsIterState::WriteFrames { frames } => row_lines(o.pm(), frames.rem()),
        }
    }
    // how many steps there can still be
    spec fn measure(&self, b: &Bvh) -> nat {
        let nf = b.frame_seq().len();
        let nj = b.joints@.len();
        match *self {
            WriteOptionsIterState::WriteHierarchy { written } => nf + 4 * nj + (if written { 8nat } else { 9nat }),
            WriteOptionsIterState::WriteJoints { joints, current_joint, wrote_name, wrote_offset, wrote_channels } => match current_joint {
                None => nf + 7,
                Some(j) => (nf + 7 + 4 * (nj - j.index) - (if wrote_channels { 3int } else if wrote_offset { 2int } else if wrote_name { 1int } else { 0int })) as nat,
            },
            WriteOptionsIterState::WriteMotion { written } => nf + (if written { 5nat } else { 6nat }),
            WriteOptionsIterState::WriteNumFrames { written } => nf + (if written { 3nat } else { 4nat }),
            WriteOptionsIterState::WriteFrameTime { written } => nf + (if written { 1nat } else { 2nat }),
            WriteOptionsIterState::WriteFrames { frames } => frames.rem().len(),
        }
    }
}
//@item dep:std/core/src/io/write.rs | trait Write | fn write_all
//@name std: Write::write_all
//@props C16
//@pre #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
fn ⟦~ write_all(&mut self, ~> default_write_all<W: Sink + ?Sized>(vx_self: &mut W, ⟧ mut buf: &[u8]) -> ⟦~ Result<()> ~> (r: Result<(), IoErr>)
    ensures
        r is Ok ==> final(vx_self).taken() == old(vx_self).taken() + buf@ && final(vx_self).failure() == old(vx_self).failure(),
        r is Err ==> final(vx_self).failure() == Some(r->Err_0) && took_part(old(vx_self).taken(), buf@, final(vx_self).taken()), ⟧ {
    ⟦ let ghost all = buf@; let ghost start = vx_self.taken(); let ghost mut k = 0int; proof { lemma_short_write(start, all, 0, 0); assert(all.skip(0) =~= all); assert(start + all.take(0) =~= start); } ⟧
    while !buf.is_empty()
    ⟦   invariant 0 <= k <= all.len(), buf@ == all.skip(k), start == old(vx_self).taken(), vx_self.taken() == start + all.take(k), vx_self.failure() == old(vx_self).failure(),
    ⟧ {
        match ⟦~ self ~> vx_self ⟧.write(buf) {
            Ok(0) => {
                ⟦ proof { lemma_short_write(start, all, k, 0); assert(vx_self.taken() == start + all.take(k)); assert(took_part(start, all, vx_self.taken())); } ⟧
                return Err(⟦~ Error::WRITE_ALL_EOF ~> vx_write_zero() ⟧);
            }
            Ok(n) => ⟦ { proof { lemma_short_write(start, all, k, n as int); k = k + n; } ⟧ buf = ⟦~ &buf[n..] ~> vx_from(buf, n); } ⟧,
            Err(ref e) if e.is_interrupted() => {}
            Err(e) => ⟦ { proof { assert(vx_self.taken() == start + all.take(k)); assert(took_part(start, all, vx_self.taken())); } ⟧ return Err(e)⟦ ; } ⟧,
        }
    }
    ⟦ proof { lemma_short_write(start, all, k, 0); } ⟧
    Ok(())
}
//@item src/write.rs | struct WriteOptions
struct WriteOptions {
    indent: IndentStyle,
    line_terminator: LineTerminator,
    offset_significant_figures: Option<usize>,
    frame_time_significant_figures: Option<usize>,
    motion_values_significant_figures: Option<usize>,
    _nonexhaustive: (),
}
//@item src/write.rs | enum IndentStyle
enum IndentStyle {
    NoIndentation,
    Tabs,
    Spaces(NonZeroUsize),
}
//@item src/write.rs | enum LineTerminator
enum LineTerminator {
    Unix,
    Windows,
}
//@item src/write.rs | enum WriteOptionsIterState
enum WriteOptionsIterState<'a> {
    WriteHierarchy {
        written: bool,
    },
    WriteJoints {
        joints: Joints<'a>,
        current_joint: Option<Joint<'a>>,
        wrote_name: bool,
        wrote_offset: bool,
        wrote_channels: bool,
    },
    WriteMotion {
        written: bool,
    },
    WriteNumFrames {
        written: bool,
    },
    WriteFrameTime {
        written: bool,
    },
    WriteFrames {
        frames: Frames<'a>,
    },
}
//@item src/write.rs | impl WriteOptionsIterState<'_> | fn new
//@name WriteOptionsIterState :: new
//@props C14
//@emit impl<'b> WriteOptionsIterState<'b>
fn new() -> ⟦~ Self ~> (r: Self) ensures r == (WriteOptionsIterState::<'b>::WriteHierarchy { written: false }) ⟧ {
    WriteOptionsIterState::WriteHierarchy { written: false }
}
//@item src/write.rs | impl Default for WriteOptionsIterState<'_> | fn default
//@name Default for WriteOptionsIterState :: default
//@props C14
//@emit impl<'b> WriteOptionsIterState<'b>
fn default() -> ⟦~ Self ~> (r: Self) ensures r == (WriteOptionsIterState::<'b>::WriteHierarchy { written: false }) ⟧ {
    Self::new()
}
//@item src/write.rs | impl IndentStyle | fn with_spaces
//@name IndentStyle :: with_spaces
//@props C19
//@emit impl IndentStyle
fn with_spaces(n: usize) -> ⟦~ Self ~> (r: Self) ensures n == 0 ==> r is NoIndentation, n > 0 ==> r is Spaces && r->Spaces_0.v == n ⟧ {
    NonZeroUsize::new(n)
        .map(⟦~ IndentStyle::Spaces ~> |vx_n: NonZeroUsize| -> (q: IndentStyle) ensures q == IndentStyle::Spaces(vx_n) { IndentStyle::Spaces(vx_n) } ⟧)
        .unwrap_or(IndentStyle::NoIndentation)
}
//@item src/write.rs | impl IndentStyle | fn prefix_chars
//@name IndentStyle :: prefix_chars
//@props C14 C19
//@emit impl IndentStyle
fn prefix_chars(&self, depth: usize) -> ⟦~ impl Iterator<Item = u8> ~> (r: VxRepeat)
    requires self is Spaces ==> self->Spaces_0.v * depth <= usize::MAX,
    ensures r.bytes() == indentation(*self, depth as nat), ⟧ {
    ⟦ let vx_r = ⟧ match *self {
        IndentStyle::NoIndentation => ⟦~ iter::repeat ~> vx_repeat ⟧(b'\0').take(0),
        IndentStyle::Tabs => ⟦~ iter::repeat ~> vx_repeat ⟧(b'\t').take(depth),
        IndentStyle::Spaces(n) => ⟦~ iter::repeat ~> vx_repeat ⟧(b' ').take(n.get() * depth),
    }⟦ ; proof { assert(vx_r.bytes() =~= indentation(*self, depth as nat)); } vx_r ⟧
}
//@item src/write.rs | impl Default for IndentStyle | fn default
//@name Default for IndentStyle :: default
//@props C19
//@emit impl IndentStyle
fn default() -> ⟦~ Self ~> (r: Self) ensures r is Tabs ⟧ {
    IndentStyle::Tabs
}
//@item src/write.rs | impl LineTerminator | fn native
//@name LineTerminator :: native
//@props C19
//@emit impl LineTerminator
fn native() -> ⟦~ Self ~> (r: Self) ensures r == native_end() ⟧ {
    if ⟦~ cfg!(windows) ~> VX_WINDOWS ⟧ {
        LineTerminator::Windows
    } else {
        LineTerminator::Unix
    }
}
//@raw
//@props C19
// cfg!(windows), for the target of this build
exec const VX_WINDOWS: bool ensures VX_WINDOWS == false { false }
spec fn native_end() -> LineTerminator { LineTerminator::Unix }
//@item src/write.rs | impl LineTerminator | fn as_str
//@name LineTerminator :: as_str
//@props C14 C19
//@emit impl LineTerminator
fn as_str(&self) -> ⟦~ &str ~> (r: &str) ensures r.spec_bytes() == line_end(*self) ⟧ {
    ⟦ proof { reveal_strlit("\n"); reveal_strlit("\r\n"); is_ascii_spec_bytes("\n"); is_ascii_spec_bytes("\r\n"); assert("\n".spec_bytes() =~= seq![10u8]); assert("\r\n".spec_bytes() =~= seq![13u8, 10u8]); } ⟧
    match *self {
        LineTerminator::Unix => "\n",
        LineTerminator::Windows => "\r\n",
    }
}
//@item src/write.rs | impl LineTerminator | fn as_escaped_str
//@name LineTerminator :: as_escaped_str
//@props C19
//@emit impl LineTerminator
fn as_escaped_str(&self) -> ⟦~ &str ~> (r: &str) ensures r.spec_bytes() == (match *self { LineTerminator::Unix => bs"\\n", LineTerminator::Windows => bs"\\r\\n" }) ⟧ {
    ⟦ proof { reveal_strlit(r"\n"); reveal_strlit(r"\r\n"); is_ascii_spec_bytes(r"\n"); is_ascii_spec_bytes(r"\r\n"); assert(r"\n".spec_bytes() =~= bs"\\n"); assert(r"\r\n".spec_bytes() =~= bs"\\r\\n"); } ⟧
    match *self {
        LineTerminator::Unix => r"\n",
        LineTerminator::Windows => r"\r\n",
    }
}
//@item src/write.rs | impl LineTerminator | fn as_bytes
//@name LineTerminator :: as_bytes
//@props C14 C19
//@emit impl LineTerminator
fn as_bytes(&self) -> ⟦~ &[u8] ~> (r: &[u8]) ensures r@ == line_end(*self) ⟧ {
    self.as_str().as_bytes()
}
//@item src/write.rs | impl LineTerminator | fn as_escaped_bytes
//@name LineTerminator :: as_escaped_bytes
//@props C19
//@emit impl LineTerminator
fn as_escaped_bytes(&self) -> ⟦~ &[u8] ~> (r: &[u8]) ensures r@ == (match *self { LineTerminator::Unix => bs"\\n", LineTerminator::Windows => bs"\\r\\n" }) ⟧ {
    self.as_escaped_str().as_bytes()
}
//@item src/write.rs | impl Default for LineTerminator | fn default
//@name Default for LineTerminator :: default
//@props C19
//@emit impl LineTerminator
fn default() -> ⟦~ Self ~> (r: Self) ensures r == native_end() ⟧ {
    LineTerminator::native()
}
//@item src/write.rs | impl WriteOptions | fn new
//@name WriteOptions :: new
//@props C14 C19
//@emit impl WriteOptions
fn new() -> ⟦~ Self ~> (r: Self) ensures r.is_default() ⟧ {
    WriteOptions {
        indent: IndentStyle::Tabs,
        line_terminator: LineTerminator::native(),
        offset_significant_figures: None,
        frame_time_significant_figures: None,
        motion_values_significant_figures: None,
        _nonexhaustive: (),
    }
}
//@raw
//@props C19
impl WriteOptions {
    spec fn is_default(&self) -> bool { self.indent is Tabs && self.line_terminator == native_end() && self.po() is None && self.pt() is None && self.pm() is None }
}
// the identity conversion, and a value as an optional one
impl Into<Option<usize>> for Option<usize> {
    open spec fn into_ok(self, r: Option<usize>) -> bool { r == self }
    fn vx_into(self) -> (r: Option<usize>) { self }
}
impl Into<Option<usize>> for usize {
    open spec fn into_ok(self, r: Option<usize>) -> bool { r == Some(self) }
    fn vx_into(self) -> (r: Option<usize>) { Some(self) }
}
//@item src/write.rs | impl Default for WriteOptions | fn default
//@name Default for WriteOptions :: default
//@props C19 C14
//@emit impl WriteOptions
fn default() -> ⟦~ Self ~> (r: Self) ensures r.is_default() ⟧ {
    Self::new()
}
//@item src/write.rs | impl WriteOptions | fn with_indent
//@name WriteOptions :: with_indent
//@props C19
//@emit impl WriteOptions
fn with_indent(self, indent: IndentStyle) -> ⟦~ Self ~> (r: Self)
    ensures r.indent == indent, r.line_terminator == self.line_terminator, r.po() == self.po(), r.pt() == self.pt(), r.pm() == self.pm() ⟧ {
    Self { indent, ..self }
}
//@item src/write.rs | impl WriteOptions | fn with_line_terminator
//@name WriteOptions :: with_line_terminator
//@props C19
//@emit impl WriteOptions
fn with_line_terminator(self, line_terminator: LineTerminator) -> ⟦~ Self ~> (r: Self)
    ensures r.line_terminator == line_terminator, r.indent == self.indent, r.po() == self.po(), r.pt() == self.pt(), r.pm() == self.pm() ⟧ {
    Self {
        line_terminator,
        ..self
    }
}
//@item src/write.rs | impl WriteOptions | fn with_offset_significant_figures
//@name WriteOptions :: with_offset_significant_figures
//@props C19
//@emit impl WriteOptions
fn with_offset_significant_figures<N>(self, offset_significant_figures: N) -> ⟦~ Self where N: Into<Option<usize>>, ~> (r: Self) where N: Into<Option<usize>>
    ensures offset_significant_figures.into_ok(r.po()), r.indent == self.indent, r.line_terminator == self.line_terminator, r.pt() == self.pt(), r.pm() == self.pm() ⟧ {
    Self {
        offset_significant_figures: offset_significant_figures.⟦~ into ~> vx_into ⟧(),
        ..self
    }
}
//@item src/write.rs | impl WriteOptions | fn with_frame_time_significant_figures
//@name WriteOptions :: with_frame_time_significant_figures
//@props C19
//@emit impl WriteOptions
fn with_frame_time_significant_figures<N>(self, frame_time_significant_figures: N) -> ⟦~ Self where N: Into<Option<usize>>, ~> (r: Self) where N: Into<Option<usize>>
    ensures frame_time_significant_figures.into_ok(r.pt()), r.indent == self.indent, r.line_terminator == self.line_terminator, r.po() == self.po(), r.pm() == self.pm() ⟧ {
    Self {
        frame_time_significant_figures: frame_time_significant_figures.⟦~ into ~> vx_into ⟧(),
        ..self
    }
}
//@item src/write.rs | impl WriteOptions | fn with_motion_values_significant_figures
//@name WriteOptions :: with_motion_values_significant_figures
//@props C19
//@emit impl WriteOptions
fn with_motion_values_significant_figures<N>(self, motion_values_significant_figures: N,) -> ⟦~ Self where N: Into<Option<usize>>, ~> (r: Self) where N: Into<Option<usize>>
    ensures motion_values_significant_figures.into_ok(r.pm()), r.indent == self.indent, r.line_terminator == self.line_terminator, r.po() == self.po(), r.pt() == self.pt() ⟧ {
    Self {
        motion_values_significant_figures: motion_values_significant_figures.⟦~ into ~> vx_into ⟧(),
        ..self
    }
}
//@item src/write.rs | impl WriteOptions | fn next_chunk
//@name WriteOptions :: next_chunk
//@props C14 ?C15 ?C16 ?C19
//@fmt
//@pre #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@emit impl WriteOptions
fn next_chunk<'a, 'b: 'a>(
    &self,
    bvh: &'b Bvh,
    chunk: &mut Vec<u8>,
    iter_state: &'a mut WriteOptionsIterState<'b>,
) -> ⟦~ bool ~> (r: bool)
    requires self.ok(bvh), old(iter_state).wf(bvh),
    ensures
        final(iter_state).wf(bvh),
        // the lines of the piece and the lines still to come are the lines which were to come
        render(self.indent, self.line_terminator, old(iter_state).left(self, bvh)) == final(chunk)@ + render(self.indent, self.line_terminator, final(iter_state).left(self, bvh)),
        r ==> final(iter_state).measure(bvh) < old(iter_state).measure(bvh),
        !r ==> render(self.indent, self.line_terminator, old(iter_state).left(self, bvh)) == Seq::<u8>::empty() && final(chunk)@.len() == 0,
⟧ {
    ⟦ let ghost (s, t) = (self.indent, self.line_terminator);
      let ghost js = bvh.joints@;
      let ghost was = *iter_state;
      proof { axiom_joints_vec_len(&bvh.joints); } ⟧
    chunk.clear();
    let terminator = self.line_terminator.as_bytes();
    match *iter_state {
        WriteOptionsIterState::WriteHierarchy { ref mut written } => {
            if !*written {
                *chunk = ⟦ vx_to_vec( ⟧ b"HIERARCHY"⟦~ .to_vec() ~> ) ⟧;
                ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ self.line_terminator.as_bytes());
                *written = true;
                ⟦ proof { lemma_render_one(s, t, ln(0, bs"HIERARCHY")); lemma_render_add(s, t, seq![ln(0, bs"HIERARCHY")], self.joints_on(bvh, 0)); assert(chunk@ =~= line_text(s, t, ln(0, bs"HIERARCHY"))); } ⟧
            } else {
                let mut joints = bvh.joints();
                ⟦ proof { lemma_sel_all(js, 0); if js.len() > 0 { assert(joints.rem()[0] == 0); } lemma_joints_lines(self.po(), js, 0); assert(Seq::<Line>::empty() + self.motion_on(bvh) =~= self.motion_on(bvh)); } ⟧
                *iter_state = WriteOptionsIterState::WriteJoints {
                    current_joint: joints.next(),
                    joints,
                    wrote_name: false,
                    wrote_offset: false,
                    wrote_channels: false,
                };
                ⟦ proof {
                    assert(chunk@ =~= Seq::empty());
                    lemma_sel_all(js, iter_state->joints.current_joint as int);
                } ⟧
            }
        }
        WriteOptionsIterState::WriteJoints {
            current_joint: None,
            ..
        } => {
            *iter_state = WriteOptionsIterState::WriteMotion { written: false };
        }
        WriteOptionsIterState::WriteJoints {
            ref mut joints,
            ref mut current_joint,
            ref mut wrote_name,
            ref mut wrote_offset,
            ref mut wrote_channels,
        } => {
            if let Some(⟦~ ref joint ~> joint ⟧) = current_joint {
                let joint_data = joint.data();
                ⟦ let ghost ix = joint.index as int; let ghost dj = js[ix];
                  let ghost rest = tail_lines(self.po(), js, ix) + joints_lines(self.po(), js, ix + 1);
                  let ghost mo = self.motion_on(bvh);
                  proof {
                    assert(chunk@ =~= Seq::empty());
                    assert(*joint_data == dj); assert(dj.s_depth() <= js.len());
                    lemma_indent(self, bvh, dj.s_depth()); lemma_indent(self, bvh, dj.s_depth() + 1); lemma_indent(self, bvh, dj.s_depth() + 2);
                  } ⟧
                let mut depth = joint_data.depth();
                if *wrote_name {
                    depth += 1
                }
                match (⟦~ &mut *wrote_name, &mut *wrote_offset, &mut *wrote_channels ~> *wrote_name, *wrote_offset, *wrote_channels ⟧) {
                    (⟦~ &mut ~> ⟧ false, _, _) => {
                        ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                        if joint_data.is_root() {
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ b"ROOT ");
                        } else {
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ b"JOINT ");
                        }
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ joint_data.name()⟦~ .as_ref() ~> ⟧);
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                        ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                        chunk.push(b'{');
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                        *wrote_name = true;
                        ⟦ proof {
                            let (a, b) = (name_lines(dj)[0], name_lines(dj)[1]);
                            assert(chunk@ =~= line_text(s, t, a) + line_text(s, t, b));
                            lemma_render_two(s, t, a, b);
                            lemma_piece(s, t, name_lines(dj), offset_lines(self.po(), dj) + (channel_lines(dj) + rest), mo);
                        } ⟧
                    }
                    (⟦~ &mut ~> ⟧ true, ⟦~ &mut ~> ⟧ false, _) => {
                        ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                        let ⟦~ [ ~> ( ⟧ x, y, z ⟦~ ] ~> ) ⟧ = ⟦ vx_xyz( ⟧ joint_data.offset()⟦ ) ⟧;
                        let offset_str = match self.offset_significant_figures {
                            Some(sf) => { ({ let mut vx_s = VxText::new(); vx_s.lit(b"OFFSET "); vx_s.put_prec(sf, &(x)); vx_s.lit(b" "); vx_s.put_prec(sf, &(y)); vx_s.lit(b" "); vx_s.put_prec(sf, &(z)); vx_s }) }
                            None => ({ let mut vx_s = VxText::new(); vx_s.lit(b"OFFSET "); vx_s.put(&(x)); vx_s.lit(b" "); vx_s.put(&(y)); vx_s.lit(b" "); vx_s.put(&(z)); vx_s }),
                        };
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ offset_str.as_bytes());
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                        *wrote_offset = true;
                        ⟦ proof {
                            let a = offset_lines(self.po(), dj)[0];
                            assert(offset_str.v@ =~= vec3_text(self.po(), dj.s_offset()));
                            assert(chunk@ =~= line_text(s, t, a));
                            lemma_render_one(s, t, a);
                            lemma_piece(s, t, offset_lines(self.po(), dj), channel_lines(dj) + rest, mo);
                        } ⟧
                    }
                    (⟦~ &mut ~> ⟧ true, ⟦~ &mut ~> ⟧ true, ⟦~ &mut ~> ⟧ false) => {
                        ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                        let channels = joint_data.channels();
                        let channels_str = ⟦~ channels.iter().map(|ch| ~> vx_map_join(channels, |ch: &Channel| -> (q: &'static str) ensures q.spec_bytes() == channel_name(ch.channel_type) { ⟧ ch.channel_type().as_str()
                            ⟦~ ).collect::<SmallVec<[_; 6]>>().join( ~> }, ⟧ " ");
                        ⟦ proof {
                            lit_space();
                            let ts = choose|ts: Seq<&'static str>| #[trigger] ts.len() == channels@.len() && (forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).spec_bytes() == channel_name(channels@[i].channel_type))
                                && channels_str.v@ == joined(Seq::new(ts.len(), |i: int| ts[i].piece()), " ".spec_bytes());
                            assert(Seq::new(ts.len(), |i: int| ts[i].piece()) =~= channel_names(channels@));
                        } ⟧
                        let channels_str = ({ let mut vx_s = VxText::new(); vx_s.lit(b"CHANNELS "); vx_s.put(&(channels.len())); vx_s.lit(b" "); vx_s.put(&(channels_str)); vx_s });
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ channels_str.as_bytes());
                        ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                        *wrote_channels = true;
                        ⟦ proof {
                            let a = channel_lines(dj)[0];
                            assert(channels_str.v@ =~= channels_text(dj.s_channels()));
                            assert(chunk@ =~= line_text(s, t, a));
                            lemma_render_one(s, t, a);
                            lemma_piece(s, t, channel_lines(dj), rest, mo);
                        } ⟧
                    }
                    (⟦~ &mut ~> ⟧ true, ⟦~ &mut ~> ⟧ true, ⟦~ &mut ~> ⟧ true) => {
                        if let Some(⟦~ [ ~> ( ⟧ x, y, z ⟦~ ] ~> ) ⟧) = ⟦ vx_opt_xyz( ⟧ joint_data.end_site()⟦ ) ⟧ {
                            ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ b"End Site");
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);

                            ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                            chunk.push(b'{');
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);

                            ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth + 1));
                            let offset_str = match self.offset_significant_figures {
                                Some(sf) => { ({ let mut vx_s = VxText::new(); vx_s.lit(b"OFFSET "); vx_s.put_prec(sf, &(x)); vx_s.lit(b" "); vx_s.put_prec(sf, &(y)); vx_s.lit(b" "); vx_s.put_prec(sf, &(z)); vx_s }) }
                                None => ({ let mut vx_s = VxText::new(); vx_s.lit(b"OFFSET "); vx_s.put(&(x)); vx_s.lit(b" "); vx_s.put(&(y)); vx_s.lit(b" "); vx_s.put(&(z)); vx_s }),
                            };
                            ⟦ proof { assert(offset_str.v@ =~= vec3_text(self.po(), dj.s_end()->0)); } ⟧
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ offset_str.as_bytes());
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);

                            ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(depth));
                            chunk.push(b'}');
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                        }

                        ⟦ proof {
                            let e = end_lines(self.po(), dj);
                            if dj.s_end() is Some {
                                lemma_render_four(s, t, e[0], e[1], e[2], e[3]);
                                assert(chunk@ =~= line_text(s, t, e[0]) + line_text(s, t, e[1]) + line_text(s, t, e[2]) + line_text(s, t, e[3]));
                            } else { lemma_render_empty(s, t); assert(chunk@ =~= Seq::empty()); }
                            assert(chunk@ == render(s, t, e));
                            lemma_sel_all(js, ix + 1);
                        } ⟧
                        let next_joint = joints.next();
                        ⟦ proof { lemma_sel_all(js, joints.current_joint as int); } ⟧
                        let prev_joint = mem::replace(current_joint, next_joint).unwrap();

                        let (curr_depth, mut depth_difference) =
                            if let Some(⟦~ ref curr_j ~> curr_j ⟧) = ⟦~ *current_joint ~> current_joint ⟧ {
                                let curr_depth = curr_j.data().depth();
                                (curr_depth, prev_joint.data().depth().checked_sub(curr_depth))
                            } else {
                                (0, Some(prev_joint.data().depth()))
                            };

                        ⟦ let ghost base = chunk@; let ghost to = curr_depth as int;
                          let ghost all = closes(dj.s_depth() as int, to);
                          proof {
                            lemma_closes(dj.s_depth() as int, to); lemma_render_empty(s, t);
                            assert(base + Seq::<u8>::empty() =~= base);
                          } ⟧
                        ⟦~ while let Some(d) = depth_difference { ~> loop
                            invariant
                                self.ok(bvh), (s, t) == (self.indent, self.line_terminator), terminator@ == line_end(t), to == curr_depth, dj.s_depth() <= bvh.joints@.len(),
                                depth_difference is Some ==> to + depth_difference->0 <= dj.s_depth(),
                                chunk@ + render(s, t, if depth_difference is Some { closes(to + depth_difference->0, to) } else { Seq::empty() }) == base + render(s, t, all),
                            ensures
                                chunk@ == base + render(s, t, all),
                            decreases (if depth_difference is Some { depth_difference->0 + 1 } else { 0int }),
                        {
                            let ghost now = chunk@;
                            proof { lemma_render_empty(s, t); assert(now + Seq::<u8>::empty() =~= now); }
                            let d = match depth_difference { Some(d) => d, None => break };
                            proof { lemma_indent(self, bvh, (curr_depth + d) as nat); lemma_closes(to + d, to); } ⟧
                            ⟦~ chunk.extend( ~> vx_extend(chunk, ⟧ self.indent.prefix_chars(curr_depth + d));
                            chunk.push(b'}');
                            ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                            depth_difference = depth_difference.and_then(⟦~ |d| ~> |d: usize| -> (q: Option<usize>) ensures q == (if d > 0 { Some((d - 1) as usize) } else { None }) { ⟧ d.checked_sub(1)⟦ } ⟧);
                            ⟦ proof {
                                let l = ln((to + d) as nat, bs"}");
                                assert(chunk@ =~= now + line_text(s, t, l));
                                let more = if depth_difference is Some { closes(to + depth_difference->0, to) } else { Seq::empty() };
                                if d == 0 { lemma_closes(to - 1, to); }
                                assert(more == closes(to + d - 1, to));
                                lemma_render_one(s, t, l);
                                lemma_render_add(s, t, seq![l], more);
                                assert(chunk@ + render(s, t, more) =~= base + render(s, t, all));
                            } ⟧
                        }
                        ⟦ proof {
                            assert(all == closes(dj.s_depth() as int, next_depth(js, ix)));
                            lemma_render_add(s, t, end_lines(self.po(), dj), all);
                            assert(chunk@ =~= render(s, t, tail_lines(self.po(), js, ix)));
                            lemma_piece(s, t, tail_lines(self.po(), js, ix), joints_lines(self.po(), js, ix + 1), self.motion_on(bvh));
                            lemma_joints_lines(self.po(), js, ix + 1);
                            assert(Seq::<Line>::empty() + self.motion_on(bvh) =~= self.motion_on(bvh));
                        } ⟧

                        *wrote_name = false;
                        *wrote_offset = false;
                        *wrote_channels = false;
                    }
                }
            }
        }
        WriteOptionsIterState::WriteMotion { ref mut written } => {
            if !*written {
                *chunk = ⟦ vx_to_vec( ⟧ b"MOTION"⟦~ .to_vec() ~> ) ⟧;
                ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                *written = true;
                ⟦ proof { let a = ln(0, bs"MOTION"); assert(chunk@ =~= line_text(s, t, a)); lemma_render_one(s, t, a); lemma_render_add(s, t, seq![a], self.count_on(bvh)); } ⟧
            } else {
                *iter_state = WriteOptionsIterState::WriteNumFrames { written: false };
            }
        }
        WriteOptionsIterState::WriteNumFrames { ref mut written } => {
            if !*written {
                *chunk = ({ let mut vx_s = VxText::new(); vx_s.lit(b"Frames: "); vx_s.put(&(bvh.frames().len())); vx_s }).into_bytes();
                ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                *written = true;
                ⟦ proof { let a = count_lines(bvh.frame_seq().len())[0]; assert(chunk@ =~= line_text(s, t, a)); lemma_render_one(s, t, a); lemma_render_add(s, t, count_lines(bvh.frame_seq().len()), self.time_on(bvh)); } ⟧
            } else {
                *iter_state = WriteOptionsIterState::WriteFrameTime { written: false };
            }
        }
        WriteOptionsIterState::WriteFrameTime { ref mut written } => {
            if !*written {
                *chunk = match self.frame_time_significant_figures {
                    Some(sf) => {
                        ({ let mut vx_s = VxText::new(); vx_s.lit(b"Frame Time: "); vx_s.put_prec(sf, &(bvh.frame_time().as_secs_f64())); vx_s }).into_bytes()
                    }
                    None => {
                        ({ let mut vx_s = VxText::new(); vx_s.lit(b"Frame Time: "); vx_s.put(&(bvh.frame_time().as_secs_f64())); vx_s }).into_bytes()
                    }
                };
                ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                *written = true;
                ⟦ proof { let a = time_lines(self.pt(), bvh.frame_time)[0]; assert(chunk@ =~= line_text(s, t, a)); lemma_render_one(s, t, a); lemma_render_add(s, t, time_lines(self.pt(), bvh.frame_time), self.frames_lines(bvh)); } ⟧
            } else {
                let frames = bvh.frames();
                *iter_state = WriteOptionsIterState::WriteFrames { frames };
            }
        }
        WriteOptionsIterState::WriteFrames { ref mut frames } => {
            ⟦ let ghost rs = frames.rem(); proof { lemma_render_empty(s, t); if rs.len() == 0 { assert(row_lines(self.pm(), rs) =~= Seq::empty()); } } ⟧
            return ⟦~ frames.next().map(|frame| { ~> match frames.next() { None => false, Some(frame) => { ⟧
                let motion_values = ⟦~ frame.as_slice().iter().map(|motion| ~> vx_map_join(frame.as_slice(), |motion: &f32| -> (q: VxText) ensures q.v@ == f32_text(self.pm(), *motion) { ⟧
                        match self.motion_values_significant_figures {
                            Some(sf) => ({ let mut vx_s = VxText::new(); vx_s.put_prec(sf, &(motion)); vx_s }),
                            None => ({ let mut vx_s = VxText::new(); vx_s.put(&(motion)); vx_s }),
                        } ⟦~ ).collect::<Vec<_>>().join( ~> }, ⟧ " ");
                ⟦ proof {
                    lit_space();
                    let ts = choose|ts: Seq<VxText>| #[trigger] ts.len() == frame.0@.len() && (forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).v@ == f32_text(self.pm(), frame.0@[i]))
                        && motion_values.v@ == joined(Seq::new(ts.len(), |i: int| ts[i].piece()), " ".spec_bytes());
                    assert(Seq::new(ts.len(), |i: int| ts[i].piece()) =~= Seq::new(frame.0@.len(), |i: int| f32_text(self.pm(), frame.0@[i])));
                } ⟧
                *chunk = motion_values.into_bytes();
                ⟦~ chunk.extend_from_slice( ~> vx_append(chunk, ⟧ terminator);
                ⟦ proof {
                    let a = row_lines(self.pm(), rs)[0];
                    assert(chunk@ =~= line_text(s, t, a));
                    lemma_render_one(s, t, a);
                    lemma_render_add(s, t, seq![a], row_lines(self.pm(), rs.skip(1)));
                    assert(row_lines(self.pm(), rs) =~= seq![a] + row_lines(self.pm(), rs.skip(1)));
                } ⟧
                true
            ⟦~ }).unwrap_or_default() ~> } } ⟧;
        }
    }
    ⟦ proof { if chunk@.len() == 0 { assert(chunk@ =~= Seq::empty()); assert(forall|x: Seq<u8>| #[trigger] (chunk@ + x) =~= x); } } ⟧

    true
}
//@raw
//@props C16
proof fn lemma_part(o: Seq<u8>, t: Seq<u8>, w: Seq<u8>, b: Seq<u8>, k: int, r: Seq<u8>)
    requires o + t == w + (b + r), w.len() >= o.len(), 0 <= k <= b.len(),
    ensures took_part(o, t, w + b.take(k)),
{
    let m = w.len() - o.len() + k;
    let whole = o + t;
    assert(whole.len() == w.len() + b.len() + r.len());
    assert(w + b.take(k) =~= whole.take(o.len() + m)) by {
        assert forall|i: int| 0 <= i < w.len() + k implies (w + b.take(k))[i] == whole[i] by { if i >= w.len() { assert(whole[i] == (b + r)[i - w.len()]); } }
    }
    assert(o + t.take(m) =~= whole.take(o.len() + m));
}
//@item src/write.rs | impl WriteOptions | fn write_to_string
//@name WriteOptions :: write_to_string
//@props C14 C16 ?C15 ?C19
//@emit impl WriteOptions
fn write_to_string(&self, bvh: &Bvh) -> ⟦~ Vec<u8> ~> (r: Vec<u8>)
    requires self.ok(bvh),
    ensures r@ == self.text(bvh), ⟧ {
    let mut curr_chunk = vec![];
    let mut out_string = vec![];
    let mut iter_state = WriteOptionsIterState::new();

    while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false
    ⟦   invariant
            self.ok(bvh), iter_state.wf(bvh),
            out_string@ + render(self.indent, self.line_terminator, iter_state.left(self, bvh)) == self.text(bvh),
        ensures out_string@ == self.text(bvh),
        decreases iter_state.measure(bvh),
    ⟧ {
        ⟦~ out_string.extend(curr_chunk.drain(..)) ~> vx_append(&mut out_string, curr_chunk.as_slice()); curr_chunk.clear() ⟧;
    }

    out_string
}
//@item src/write.rs | impl WriteOptions | fn write
//@name WriteOptions :: write
//@props C16
//@emit impl WriteOptions
fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> ⟦~ io::Result<()> ~> (r: Result<(), IoErr>)
    requires self.ok(bvh),
    ensures
        r is Ok ==> final(writer).taken() == old(writer).taken() + self.text(bvh) && final(writer).flushed() && final(writer).failure() == old(writer).failure(),
        r is Err ==> final(writer).failure() == Some(r->Err_0) && took_part(old(writer).taken(), self.text(bvh), final(writer).taken()), ⟧ {
    let mut curr_chunk = vec![];
    let mut iter_state = WriteOptionsIterState::new();

    while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false
    ⟦   invariant
            self.ok(bvh), iter_state.wf(bvh), writer.failure() == old(writer).failure(),
            writer.taken().len() >= old(writer).taken().len(),
            writer.taken() + render(self.indent, self.line_terminator, iter_state.left(self, bvh)) == old(writer).taken() + self.text(bvh),
        ensures writer.taken() == old(writer).taken() + self.text(bvh), writer.failure() == old(writer).failure(),
        decreases iter_state.measure(bvh),
    ⟧ {
        let bytes: &[u8] = curr_chunk.⟦~ as_ref ~> as_slice ⟧();
        ⟦ let ghost before = writer.taken(); let ghost left = render(self.indent, self.line_terminator, iter_state.left(self, bvh)); let vx_w = ⟧ writer.write_all(bytes)⟦ ;
        proof {
            if vx_w is Err {
                let k = choose|k: int| 0 <= k <= bytes@.len() && writer.taken() == before + #[trigger] bytes@.take(k);
                lemma_part(old(writer).taken(), self.text(bvh), before, bytes@, k, left);
            } else { assert(before + (bytes@ + left) =~= (before + bytes@) + left); }
        } vx_w ⟧?;
    }
    ⟦ proof { assert(self.text(bvh).take(self.text(bvh).len() as int) =~= self.text(bvh)); } ⟧
    writer.flush()
}
//@item src/lib.rs | impl Bvh | fn write_to
//@name Bvh :: write_to
//@props C16
//@emit impl Bvh
fn write_to<W: Write>(&self, writer: &mut W) -> ⟦~ io::Result<()> ~> (r: Result<(), IoErr>)
    requires forall|o: WriteOptions| o.is_default() ==> #[trigger] o.ok(self),
    ensures exists|o: WriteOptions| #[trigger] o.is_default() && (r is Ok ==> final(writer).taken() == old(writer).taken() + o.text(self) && final(writer).flushed() && final(writer).failure() == old(writer).failure())
        && (r is Err ==> final(writer).failure() == Some(r->Err_0) && took_part(old(writer).taken(), o.text(self), final(writer).taken())), ⟧ {
    ⟦~ write::WriteOptions ~> WriteOptions ⟧::default().write(self, writer)
}
//@item src/lib.rs | impl Bvh | fn to_string
//@name Bvh :: to_string
//@props C14 C16 ?C15
//@emit impl Bvh
fn to_string(&self) -> ⟦~ Vec<u8> ~> (r: Vec<u8>)
    requires forall|o: WriteOptions| o.is_default() ==> #[trigger] o.ok(self),
    ensures exists|o: WriteOptions| #[trigger] o.is_default() && r@ == o.text(self), ⟧ {
    ⟦~ write::WriteOptions ~> WriteOptions ⟧::default().write_to_string(self)
}
