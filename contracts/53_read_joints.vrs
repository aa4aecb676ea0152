//@raw
//@props C02 C03 C04 C06
// ================================================================ src/parse.rs: read_joints (C01, C02, C03, C04, C06)
impl<A: Array> SmallVec<A> {
    // C01: what is reserved is bounded by something that is in memory already
    #[verifier::external_body]
    fn reserve(&mut self, n: usize, Ghost(bound): Ghost<nat>) requires n <= bound ensures final(self)@ == old(self)@ { self.v.reserve(n) }
}
spec fn sum_channels(js: Seq<JointData>) -> nat decreases js.len() { if js.len() == 0 { 0 } else { sum_channels(js.drop_last()) + js.last().s_channels().len() } }
// These channels are in memory at the same time, 16 bytes each.
axiom fn axiom_channels_in_memory(js: &Vec<JointData>, c: &SmallVec<[Channel; 6]>) ensures sum_channels(js@) + c@.len() <= 0x0fff_ffff_ffff_ffff;

// the joint in memory and the joint in the file
spec fn same_channels(c: Seq<Channel>, s: Seq<(ChannelType, nat)>) -> bool {
    c.len() == s.len() && forall|i: int| #![trigger c[i]] #![trigger s[i]] 0 <= i < c.len() ==> c[i].channel_type == s[i].0 && c[i].motion_index == s[i].1
}
spec fn same_joint(j: JointData, s: SJoint) -> bool {
    j.s_name() == s.name && j.s_offset()@ == s.offset && same_channels(j.s_channels(), s.channels)
        && match (j.s_end(), s.end) { (Some(a), Some(b)) => a@ == b, (None, None) => true, _ => false }
}
spec fn placed(j: JointData, s: SJoint, i: int) -> bool {
    if i == 0 { j.s_private() is None }
    else { s.parent is Some && j.s_private() is Some && j.s_private()->0.self_index == i && j.s_private()->0.parent_index == s.parent->0 && j.s_private()->0.depth == s.depth }
}
spec fn stored(js: Seq<JointData>, ss: Seq<SJoint>, i: int) -> bool { same_joint(js[i], ss[i]) && placed(js[i], ss[i], i) }
spec fn joints_ok(js: Seq<JointData>, ss: Seq<SJoint>) -> bool { js.len() == ss.len() && forall|i: int| 0 <= i < js.len() ==> #[trigger] stored(js, ss, i) }
spec fn fresh(j: JointData) -> bool { j.s_name() == Seq::<u8>::empty() && j.s_offset()@ == zero3() && j.s_channels() == Seq::<Channel>::empty() && j.s_end() is None }

// the reader's variables, for a state h of the file
spec fn mode_of(h: HState) -> ParseMode { match h.phase { Phase::Start => ParseMode::NotStarted, Phase::Done => ParseMode::Finished, _ => ParseMode::InHeirarchy } }
spec fn nel_of(h: HState) -> NextExpectedLine {
    match h.phase { Phase::Start => NextExpectedLine::Hierarchy, Phase::NeedRoot => NextExpectedLine::RootName, _ => if h.open { NextExpectedLine::OpeningBrace } else { NextExpectedLine::ClosingBrace } }
}
spec fn depth_of(h: HState) -> int { h.stack.len() + (if h.in_end && !h.open { 1int } else { 0int }) - (if h.open && !h.in_end { 1int } else { 0int }) }
spec fn joints_rel(h: HState, js: Seq<JointData>, j: JointData) -> bool {
    &&& forall|i: int| 0 <= i < js.len() ==> #[trigger] stored(js, h.joints, i)
    &&& h.phase is Start || h.phase is NeedRoot ==> js.len() == 0 && j.s_private() is None && fresh(j)
    &&& h.phase is Body && !h.sealed ==> js.len() == h.joints.len() - 1 && same_joint(j, h.joints.last()) && (j.s_private() is None <==> h.joints.len() == 1)
    &&& h.phase is Body && h.sealed ==> js.len() == h.joints.len() && js.len() > 0 && fresh(j) && j.s_private() is Some
    &&& h.phase is Done ==> js.len() == h.joints.len()
}
// the innermost earlier joint one level up
spec fn parent_found(js: Seq<JointData>, d: nat, r: usize) -> bool {
    (exists|k: int| 0 <= k < js.len() && #[trigger] js[k].s_depth() == d && r == js[k].s_index() && forall|i: int| k < i < js.len() ==> #[trigger] js[i].s_depth() != d)
        || (r == 0 && forall|i: int| 0 <= i < js.len() ==> #[trigger] js[i].s_depth() != d)
}
spec fn parent_depth(d: usize) -> nat { if d < 2 { 0 } else { (d - 2) as nat } }
// core::iter: rev().find()
fn vx_rfind<'a, F: Fn(&JointData) -> bool>(js: &'a [JointData], f: F) -> (r: Option<&'a JointData>)
    requires forall|j: &JointData| f.requires((j,)),
    ensures
        r is None ==> forall|i: int| 0 <= i < js@.len() ==> f.ensures((&#[trigger] js@[i],), false),
        r is Some ==> exists|k: int| 0 <= k < js@.len() && *r->0 == #[trigger] js@[k] && f.ensures((&js@[k],), true) && forall|i: int| k < i < js@.len() ==> f.ensures((&#[trigger] js@[i],), false),
{
    let mut n = js.len();
    while n > 0
        invariant n <= js@.len(), forall|j: &JointData| f.requires((j,)), forall|i: int| n <= i < js@.len() ==> f.ensures((&#[trigger] js@[i],), false)
        decreases n
    {
        n -= 1;
        if f(&js[n]) { return Some(&js[n]); }
    }
    None
}
proof fn lemma_sum(h: HState, js: Seq<JointData>)
    requires js.len() <= h.joints.len(), forall|i: int| 0 <= i < js.len() ==> #[trigger] stored(js, h.joints, i),
    ensures sum_channels(js) == total_channels(h.joints.take(js.len() as int)),
    decreases js.len(),
{
    if js.len() > 0 {
        let n = js.len() - 1;
        assert forall|i: int| 0 <= i < js.drop_last().len() implies #[trigger] stored(js.drop_last(), h.joints, i) by { assert(stored(js, h.joints, i)); }
        lemma_sum(h, js.drop_last());
        assert(stored(js, h.joints, n));
        assert(h.joints.take(n + 1).drop_last() =~= h.joints.take(n));
    }
}
// The joint that is being read goes where the tree says.
proof fn lemma_place(h: HState, js: Seq<JointData>, d: usize, p: usize)
    requires hinv(h), h.phase is Body, !h.sealed, js.len() == h.joints.len() - 1, forall|i: int| 0 <= i < js.len() ==> #[trigger] stored(js, h.joints, i),
        d == h.stack.len(), h.joints.len() > 1 ==> parent_found(js, parent_depth(d), p),
    ensures h.joints.len() > 1 ==> h.joints.last().parent == Some(p as nat) && h.joints.last().depth == d - 1, h.stack.len() > 0,
        h.joints.len() == 1 ==> h.joints.last().parent is None && h.joints.last().depth == 0,
{
    let (ss, st) = (h.joints, h.stack);
    let m = st.len() - 1;
    assert(open_ok(ss, st, m));
    assert(open_ok(ss, st, 0));
    if ss.len() > 1 {
        assert(m > 0);
        assert(open_ok(ss, st, m - 1));
        let q = st[m - 1];
        assert(stored(js, ss, q));
        assert(js[q].s_depth() == m - 1) by { assert(open_ok(ss, st, 0)); if q == 0 { if m - 1 > 0 { assert(open_ok(ss, st, m - 2)); } } }
        assert forall|i: int| q < i < js.len() implies #[trigger] js[i].s_depth() != m - 1 by { assert(below_ok(ss, st, m - 1, i)); assert(stored(js, ss, i)); }
    }
}
//@item src/parse.rs | impl Bvh | fn read_joints | enum ParseMode
//@pre #[derive(PartialEq, Eq, Structural)]
enum ParseMode {
NotStarted,
InHeirarchy,
Finished,
}
//@item src/parse.rs | impl Bvh | fn read_joints | enum NextExpectedLine
//@pre #[derive(PartialEq, Eq, Structural)]
enum NextExpectedLine {
Hierarchy,
Channels,
Offset,
OpeningBrace,
ClosingBrace,
JointName,
RootName,
}
//@item src/parse.rs | impl Bvh | fn read_joints | const HEIRARCHY_KEYWORD
//@props C03 C06
⟦exec⟧ const HEIRARCHY_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures HEIRARCHY_KEYWORD@ == bs"HIERARCHY" { let r: &'static [u8] = ⟧ b"HIERARCHY"; ⟦ assert(r@ =~= bs"HIERARCHY"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const ROOT_KEYWORD
//@props C03 C06
⟦exec⟧ const ROOT_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures ROOT_KEYWORD@ == bs"ROOT" { let r: &'static [u8] = ⟧ b"ROOT"; ⟦ assert(r@ =~= bs"ROOT"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const JOINT_KEYWORD
//@props C03 C06
⟦exec⟧ const JOINT_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures JOINT_KEYWORD@ == bs"JOINT" { let r: &'static [u8] = ⟧ b"JOINT"; ⟦ assert(r@ =~= bs"JOINT"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const ENDSITE_KEYWORDS
//@props C03 C06
⟦exec⟧ const ENDSITE_KEYWORDS: ⟦~ &[&[u8]] = ~> &'static [&'static [u8]] ensures ENDSITE_KEYWORDS@.len() == 2, ENDSITE_KEYWORDS@[0]@ == bs"End", ENDSITE_KEYWORDS@[1]@ == bs"Site" { let r: &'static [&'static [u8]] = ⟧ &[b"End", b"Site"]; ⟦ assert(r@[0]@ =~= bs"End"); assert(r@[1]@ =~= bs"Site"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const OPEN_BRACE
//@props C03 C06
⟦exec⟧ const OPEN_BRACE: ⟦~ &[u8] = ~> &'static [u8] ensures OPEN_BRACE@ == bs"{" { let r: &'static [u8] = ⟧ b"{"; ⟦ assert(r@ =~= bs"{"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const CLOSE_BRACE
//@props C03 C06
⟦exec⟧ const CLOSE_BRACE: ⟦~ &[u8] = ~> &'static [u8] ensures CLOSE_BRACE@ == bs"}" { let r: &'static [u8] = ⟧ b"}"; ⟦ assert(r@ =~= bs"}"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const OFFSET_KEYWORD
//@props C03 C06
⟦exec⟧ const OFFSET_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures OFFSET_KEYWORD@ == bs"OFFSET" { let r: &'static [u8] = ⟧ b"OFFSET"; ⟦ assert(r@ =~= bs"OFFSET"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | const CHANNELS_KEYWORD
//@props C03 C06
⟦exec⟧ const CHANNELS_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures CHANNELS_KEYWORD@ == bs"CHANNELS" { let r: &'static [u8] = ⟧ b"CHANNELS"; ⟦ assert(r@ =~= bs"CHANNELS"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_joints | fn get_parent_index
//@props C02
fn get_parent_index(joints: &[JointData], for_depth: usize) -> ⟦~ usize ~> (r: usize) ensures parent_found(joints@, parent_depth(for_depth), r) ⟧ {
⟦~ joints
.iter()
.rev()
.find(|jd| ~> vx_rfind(joints, |jd: &JointData| -> (b: bool) ensures b == (jd.s_depth() == parent_depth(for_depth)) { ⟧ jd.depth() == for_depth.saturating_sub(2)⟦ } ⟧)
.and_then(⟦~ |jd| ~> |jd: &JointData| -> (q: Option<usize>) ensures q == (match jd.s_private() { Some(p) => Some(p.self_index), None => None }) { ⟧ jd.private_data().map(⟦~ |p| ~> |p: &JointPrivateData| -> (i: usize) ensures i == p.self_index { ⟧ p.self_index⟦ } ⟧)⟦ } ⟧)
.unwrap_or(0)
}
//@item src/parse.rs | impl Bvh | fn read_joints
//@props C01 C02 C03 C04 C06
//@litmatch
//@expand parse_axis
//@cut enum ParseMode
//@cut enum NextExpectedLine
//@cut fn get_parent_index
//@cut const HEIRARCHY_KEYWORD
//@cut const ROOT_KEYWORD
//@cut const JOINT_KEYWORD
//@cut const ENDSITE_KEYWORDS
//@cut const OPEN_BRACE
//@cut const CLOSE_BRACE
//@cut const OFFSET_KEYWORD
//@cut const CHANNELS_KEYWORD
//@pre #[verifier::spinoff_prover]
//@emit impl Bvh
fn read_joints(
&mut self,
lines: &mut EnumeratedLines<'_>,
) -> ⟦~ Result<(), LoadJointsError> ~> (r: Result<(), LoadJointsError>)
    requires old(lines).wf(),
    ensures
        final(lines).wf(), /*C06*/
        // what is left for the motion section
        final(lines).rem() == run(old(lines).rem(), old(lines).count(), h_start()).rest, /*C05*/
        final(lines).count() == run(old(lines).rem(), old(lines).count(), h_start()).at, /*C06*/
        r is Ok == run(old(lines).rem(), old(lines).count(), h_start()).res is Ok, /*C02 C03 C06*/
        r is Ok ==> joints_ok(final(self).joints@, run(old(lines).rem(), old(lines).count(), h_start()).res->Ok_0.joints), /*C02 C03 C04*/
        r is Ok ==> final(self).num_channels == run(old(lines).rem(), old(lines).count(), h_start()).res->Ok_0.nch, /*C04*/
        r is Err ==> run(old(lines).rem(), old(lines).count(), h_start()).res is Err && jerr_is(r->Err_0, run(old(lines).rem(), old(lines).count(), h_start()).res->Err_0), /*C06*/
        // C01: the reader's error is the result
        run(old(lines).rem(), old(lines).count(), h_start()).res is Err && run(old(lines).rem(), old(lines).count(), h_start()).res->Err_0 is Io
            ==> r == Err::<(), LoadJointsError>(LoadJointsError::Io(run(old(lines).rem(), old(lines).count(), h_start()).res->Err_0->Io_0)), /*C01*/
        r is Err ==> *final(self) == *old(self),
        final(self).motion_values == old(self).motion_values, final(self).frame_time == old(self).frame_time, /*C05*/
⟧ {
let mut joints⟦ : Vec<JointData> ⟧ = vec![];
let mut curr_mode = ParseMode::NotStarted;
let mut curr_channel = 0usize;
let (mut curr_index, mut curr_depth) = (0usize, 0usize);
let mut next_expected_line = NextExpectedLine::Hierarchy;
let mut curr_joint = JointData::empty_root();
let mut in_end_site = false;
let mut pushed_end_site_joint = false;
⟦ let ghost mut h = h_start();
   let ghost (r0, n0) = (lines.rem(), lines.count());
   proof { assert(curr_joint.s_offset()@ =~= zero3()); } ⟧
⟦~ for (line_num, line) in lines ~> loop
    invariant_except_break
        !(h.phase is Done),
    invariant
        lines.wf(), hinv(h),
        run(lines.rem(), lines.count(), h) == run(r0, n0, h_start()),
        r0 == old(lines).rem(), n0 == old(lines).count(), *self == *old(self),
        curr_mode == mode_of(h), next_expected_line == nel_of(h), curr_channel == h.nch, curr_index == joints@.len(), curr_depth == depth_of(h),
        curr_depth <= lines.count(), curr_index <= lines.count(),
        in_end_site == h.in_end, pushed_end_site_joint == h.sealed,
        joints_rel(h, joints@, curr_joint),
    ensures
        h.phase is Done || lines.rem().len() == 0,
    decreases lines.rem().len(),
⟧ {
⟦ let ghost (pr, pn) = (lines.rem(), lines.count());
  let (line_num, line) = match lines.next() { Some(x) => x, None => break }; ⟧
let line = ⟦~ line? ~> match line { Ok(l) => l, Err(e) => return Err(LoadJointsError::from(e)) } ⟧;
⟦ let ghost ts = words(line@); let ghost st = step(h, ts, pn); let ghost h0 = h; let ghost js0 = joints@;
   proof {
       assert(is_line(Ok(line), pr[0]));
       assert(run(pr, pn, h) == (match st { Err(e) => HRun { res: Err(e), rest: pr.skip(1), at: pn + 1 }, Ok(h2) => run(pr.skip(1), pn + 1, h2) }));
       if st is Ok { lemma_step_inv(h, ts, pn); }
       if h.phase is Body { assert(open_ok(h.joints, h.stack, h.stack.len() - 1)); }
   } ⟧
let mut tokens = line.fields_with(⟦~ |c: char| ~> |c: char| -> (q: bool) ensures q == ((c as u32) < 128 && is_sep((c as u32) as u8)) { ⟧ c.is_ascii_whitespace() || c == ':'⟦ } ⟧);
let first_token = match tokens.next() {
Some(tok) => tok,
None => continue,
}; { let vx_m =
⟦~ first_token.as_bytes() ~> first_token ⟧; if vx_eq(vx_m,
HEIRARCHY_KEYWORD ) {
if curr_mode != ParseMode::NotStarted {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
curr_mode = ParseMode::InHeirarchy;
next_expected_line = NextExpectedLine::RootName;
} else if vx_eq(vx_m,
ROOT_KEYWORD ) {
if curr_mode != ParseMode::InHeirarchy
|| next_expected_line != NextExpectedLine::RootName {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
if let Some(name) = tokens.next() {
curr_joint.set_name(name);
} else {
return Err(LoadJointsError::MissingJointName { line: line_num });
}
next_expected_line = NextExpectedLine::OpeningBrace;
} else if vx_eq(vx_m,
OPEN_BRACE ) {
if next_expected_line != NextExpectedLine::OpeningBrace {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
curr_depth += 1;
next_expected_line = NextExpectedLine::ClosingBrace;
} else if vx_eq(vx_m,
CLOSE_BRACE ) {
if next_expected_line != NextExpectedLine::ClosingBrace {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
curr_depth -= 1;
if curr_depth == 0 {
curr_mode = ParseMode::Finished;
}
if in_end_site || !pushed_end_site_joint {
let joint_depth = if in_end_site {
curr_depth - 1
} else {
curr_depth
};
if let JointData::Child {
ref mut private, ..
} = curr_joint {
private.self_index = curr_index;
private.parent_index = get_parent_index(&joints, joint_depth + 1);
private.depth = joint_depth;
}
⟦ proof {
    lemma_place(h, joints@, h.stack.len() as usize, (if h.joints.len() > 1 { curr_joint.s_private()->Some_0.parent_index } else { 0 }));
    assert(same_joint(curr_joint, h.joints.last()));
    assert(placed(curr_joint, h.joints.last(), joints@.len() as int));
} ⟧
let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
joints.push(new_joint);
curr_index += 1;
in_end_site = false;
pushed_end_site_joint = true;
}
} else if { let
kw = vx_m;
⟦~ kw == ENDSITE_KEYWORDS[0] ~> vx_eq(kw, ENDSITE_KEYWORDS[0]) ⟧ } { let
kw = vx_m; {
if next_expected_line != NextExpectedLine::ClosingBrace
|| in_end_site
|| pushed_end_site_joint {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
if ⟦~ tokens.next() == Some(ENDSITE_KEYWORDS[1]) ~> vx_opt_eq(tokens.next(), Some(ENDSITE_KEYWORDS[1])) ⟧ {
in_end_site = true;
} else {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
next_expected_line = NextExpectedLine::OpeningBrace;
} } else if vx_eq(vx_m,
JOINT_KEYWORD ) {
if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
}
if !pushed_end_site_joint {
if let JointData::Child {
ref mut private, ..
} = curr_joint {
private.self_index = curr_index;
private.parent_index = get_parent_index(&joints, curr_depth);
private.depth = curr_depth - 1;
}
⟦ proof {
    lemma_place(h, joints@, h.stack.len() as usize, (if h.joints.len() > 1 { curr_joint.s_private()->Some_0.parent_index } else { 0 }));
    assert(same_joint(curr_joint, h.joints.last()));
    assert(placed(curr_joint, h.joints.last(), joints@.len() as int));
} ⟧
let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
joints.push(new_joint);
curr_index += 1;
} else {
pushed_end_site_joint = false;
}
if let Some(mut name) = tokens.next() {
curr_joint.set_name(name);
} else {
return Err(LoadJointsError::MissingJointName { line: line_num });
}
next_expected_line = NextExpectedLine::OpeningBrace;
} else if vx_eq(vx_m,
OFFSET_KEYWORD ) {
if next_expected_line != NextExpectedLine::ClosingBrace
|| pushed_end_site_joint {
return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
}
let mut offset = [0.0, 0.0, 0.0];
⟦ proof { reveal_with_fuel(axes, 5); assert(tokens.rem() == ts.skip(1)); if ts.len() >= 2 { assert(ts.skip(1).skip(1) =~= ts.skip(2)); } if ts.len() >= 3 { assert(ts.skip(2).skip(1) =~= ts.skip(3)); } } ⟧
if let Some(tok) = tokens.next() {
offset[
0 ] =
parse(tok).map_err(⟦~ |e| ~> |e: LexErr| -> (q: LoadJointsError) ensures q == (LoadJointsError::ParseOffsetError { parse_float_error: e, axis: Axis::X, line: line_num }) { ⟧ LoadJointsError::ParseOffsetError {
parse_float_error: e,
axis: Axis::
X ,
line: line_num,
}⟦ } ⟧)?;
} else {
return Err(LoadJointsError::MissingOffsetAxis {
axis: Axis::
X ,
line: line_num,
});
}
; if let Some(tok) = tokens.next() {
offset[
1 ] =
parse(tok).map_err(⟦~ |e| ~> |e: LexErr| -> (q: LoadJointsError) ensures q == (LoadJointsError::ParseOffsetError { parse_float_error: e, axis: Axis::Y, line: line_num }) { ⟧ LoadJointsError::ParseOffsetError {
parse_float_error: e,
axis: Axis::
Y ,
line: line_num,
}⟦ } ⟧)?;
} else {
return Err(LoadJointsError::MissingOffsetAxis {
axis: Axis::
Y ,
line: line_num,
});
}
; if let Some(tok) = tokens.next() {
offset[
2 ] =
parse(tok).map_err(⟦~ |e| ~> |e: LexErr| -> (q: LoadJointsError) ensures q == (LoadJointsError::ParseOffsetError { parse_float_error: e, axis: Axis::Z, line: line_num }) { ⟧ LoadJointsError::ParseOffsetError {
parse_float_error: e,
axis: Axis::
Z ,
line: line_num,
}⟦ } ⟧)?;
} else {
return Err(LoadJointsError::MissingOffsetAxis {
axis: Axis::
Z ,
line: line_num,
});
}
;
curr_joint.set_offset(offset, in_end_site);
⟦ assert(offset@ =~= axes(ts, 0, pn)->Ok_0); ⟧
} else if vx_eq(vx_m,
CHANNELS_KEYWORD ) {
if next_expected_line != NextExpectedLine::ClosingBrace
|| in_end_site
|| pushed_end_site_joint
|| !curr_joint.channels().is_empty() {
return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
}
let num_channels: usize = tokens
.next()
.ok_or(LoadJointsError::ParseNumChannelsError {
error: None,
line: line_num,
})
.and_then(⟦~ |tok| ~> |tok: &[u8]| -> (q: Result<usize, LoadJointsError>) ensures q == (match lex_usize(tok@) { Ok(c) => Ok::<usize, LoadJointsError>(c), Err(e) => Err::<usize, LoadJointsError>(LoadJointsError::ParseNumChannelsError { error: Some(e), line: line_num }) }) { ⟧ match parse(tok) {
Ok(c) => Ok(c),
Err(e) => Err(LoadJointsError::ParseNumChannelsError {
error: Some(e),
line: line_num,
}),
}⟦ } ⟧)?;
let mut channels: SmallVec<[Channel; 6]> = Default::default();
channels.reserve(⟦~ num_channels.min(line.len()) ~> min(num_channels, line.len()), Ghost(line@.len()) ⟧);
⟦ let ghost cs = ts.skip(2); let ghost jsx = joints@; proof { assert(tokens.rem() =~= cs); lemma_sum(h, joints@); } ⟧
⟦~ while let Some(tok) = tokens.next() ~> #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop
    invariant
        curr_channel == h.nch + channels@.len(), sum_channels(joints@) == h.nch, line_num == pn, tokens.wf(),
        ({
            let tail = channels_of(tokens.rem(), curr_channel as nat);
            let whole = channels_of(cs, h.nch);
            match tail {
                Err(b) => whole == Err::<Seq<(ChannelType, nat)>, Seq<u8>>(b),
                Ok(t) => whole is Ok && whole->Ok_0.len() == channels@.len() + t.len() && same_channels(channels@, whole->Ok_0.take(channels@.len() as int)) && t == whole->Ok_0.skip(channels@.len() as int),
            }
        }),
    ensures
        tokens.rem().len() == 0,
    decreases tokens.rem().len(),
⟧ {
⟦ let ghost (ptoks, pch) = (tokens.rem(), channels@); proof { axiom_channels_in_memory(&joints, &channels); }
  let tok = match tokens.next() { Some(t) => t, None => break }; ⟧
let channel_ty = ChannelType::try_from(tok).map_err(⟦~ |e| ~> |e: ParseChannelError| -> (q: LoadJointsError) ensures q == (LoadJointsError::ParseChannelError { error: e, line: line_num }) ⟧ {
LoadJointsError::ParseChannelError {
error: e,
line: line_num,
}
})?;
let channel = Channel::new(channel_ty, curr_channel);
curr_channel += 1;
channels.push(channel);
⟦ proof {
    let whole = channels_of(cs, h.nch);
    let tail = channels_of(ptoks, (curr_channel - 1) as nat);
    assert(is_channel_name(ptoks[0])) by { assert(channel_name(channel_ty) == ptoks[0]); }
    lemma_channel_names_distinct(channel_ty, channel_of(ptoks[0]));
    if channels_of(tokens.rem(), curr_channel as nat) is Ok {
        let t = channels_of(tokens.rem(), curr_channel as nat)->Ok_0;
        let t0 = tail->Ok_0;
        assert(t0 =~= seq![(channel_ty, (curr_channel - 1) as nat)] + t);
        assert(t0[0] == whole->Ok_0[pch.len() as int]);
        assert(whole->Ok_0.skip(channels@.len() as int) =~= t0.skip(1));
        assert(t0.skip(1) =~= t);
        assert(same_channels(channels@, whole->Ok_0.take(channels@.len() as int))) by {
            let w = whole->Ok_0.take(channels@.len() as int);
            assert(same_channels(pch, whole->Ok_0.take(pch.len() as int)));
            assert forall|i: int| 0 <= i < channels@.len() implies channels@[i].channel_type == w[i].0 && channels@[i].motion_index == w[i].1 by {
                if i < pch.len() { assert(pch[i].channel_type == whole->Ok_0.take(pch.len() as int)[i].0); }
            }
        }
    }
} ⟧
}
curr_joint.set_channels(channels);
} else {} }
⟦ proof {
    h = st->Ok_0;
    assert forall|i: int| 0 <= i < joints@.len() implies #[trigger] stored(joints@, h.joints, i) by {
        if i < js0.len() { assert(stored(js0, h0.joints, i)); assert(joints@[i] == js0[i]); assert(h.joints[i] == h0.joints[i]); }
        else { assert(joints@ == js0.push(joints@[i])); }
    }
} ⟧
if curr_mode == ParseMode::Finished {
break;
}
}
if curr_mode != ParseMode::Finished {
return Err(LoadJointsError::MissingRoot);
}
self.joints = joints;
self.num_channels = curr_channel;
Ok(())
}
