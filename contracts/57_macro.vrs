//@raw
//@props C04 C17
// ================================================================ src/macros.rs: the bvh! literal (C04, C17)
// A macro_rules! definition becomes one function (vx/mac.py): a call's tokens are a ghost sequence, the compiler's choice
// of an arm is `vx_when`, and running the function does what the expansion of the call does.
// A literal, with its minus sign if any, is one token.
ghost enum Tok { Id(Seq<u8>), Lit(Seq<u8>), Punct(Seq<u8>), Group(Seq<Tok>), Other }
impl Tok {
    spec fn text(self) -> Seq<u8> { match self { Tok::Id(s) => s, Tok::Lit(s) => s, Tok::Punct(s) => s, _ => Seq::empty() } }
}
spec fn kw_HIERARCHY() -> Tok { Tok::Id(bs"HIERARCHY") }
spec fn kw_ROOT() -> Tok { Tok::Id(bs"ROOT") }
spec fn kw_JOINT() -> Tok { Tok::Id(bs"JOINT") }
spec fn kw_OFFSET() -> Tok { Tok::Id(bs"OFFSET") }
spec fn kw_CHANNELS() -> Tok { Tok::Id(bs"CHANNELS") }
spec fn kw_End() -> Tok { Tok::Id(bs"End") }
spec fn kw_Site() -> Tok { Tok::Id(bs"Site") }
spec fn kw_MOTION() -> Tok { Tok::Id(bs"MOTION") }
spec fn kw_Frames() -> Tok { Tok::Id(bs"Frames") }
spec fn kw_Frame() -> Tok { Tok::Id(bs"Frame") }
spec fn kw_Time() -> Tok { Tok::Id(bs"Time") }
spec fn kw_Xposition() -> Tok { Tok::Id(bs"Xposition") }
spec fn kw_Yposition() -> Tok { Tok::Id(bs"Yposition") }
spec fn kw_Zposition() -> Tok { Tok::Id(bs"Zposition") }
spec fn kw_Xrotation() -> Tok { Tok::Id(bs"Xrotation") }
spec fn kw_Yrotation() -> Tok { Tok::Id(bs"Yrotation") }
spec fn kw_Zrotation() -> Tok { Tok::Id(bs"Zrotation") }
spec fn n_0() -> Tok { Tok::Lit(seq![48u8]) }
spec fn n_1() -> Tok { Tok::Lit(seq![49u8]) }
spec fn n_2() -> Tok { Tok::Lit(seq![50u8]) }
spec fn n_3() -> Tok { Tok::Lit(seq![51u8]) }
spec fn n_4() -> Tok { Tok::Lit(seq![52u8]) }
spec fn n_5() -> Tok { Tok::Lit(seq![53u8]) }
spec fn n_6() -> Tok { Tok::Lit(seq![54u8]) }
spec fn n_7() -> Tok { Tok::Lit(seq![55u8]) }
spec fn n_8() -> Tok { Tok::Lit(seq![56u8]) }
spec fn n_9() -> Tok { Tok::Lit(seq![57u8]) }
spec fn p_colon() -> Tok { Tok::Punct(bs":") }
spec fn all_ident(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Id }
spec fn all_literal(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Lit }
spec fn at_rep(t: Seq<Tok>, m: int, i: int) -> Seq<Tok> { t.subrange(m * i, m * i + m) }
spec fn all_reps(t: Seq<Tok>, m: int, f: spec_fn(Seq<Tok>) -> bool) -> bool { t.len() % (m as nat) == 0 && forall|i: int| 0 <= i < t.len() / (m as nat) ==> f(#[trigger] at_rep(t, m, i)) }
spec fn texts(t: Seq<Tok>) -> Seq<Seq<u8>> { t.map_values(|x: Tok| x.text()) }
// the compiler's decisions
#[verifier::external_body]
fn vx_when(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }
// compile_error!, and a call which no arm matches: the literal is not a program
fn vx_compile_error() requires false { }
fn vx_no_arm<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
// stringify!, and the value of a literal in f32::from(..), f64::from(..), .. as usize: the number the text denotes, which
// is what lexical reads, if it can read it
#[verifier::external_body]
fn vx_stringify(t: Ghost<Tok>) -> (r: &'static str) ensures r.spec_bytes() == t@.text() { unimplemented!() }
#[verifier::external_body]
fn vx_f32(t: Ghost<Tok>) -> (r: f32) ensures lex_f32(t@.text()) is Ok ==> r == lex_f32(t@.text())->Ok_0 { unimplemented!() }
#[verifier::external_body]
fn vx_f64(t: Ghost<Tok>) -> (r: f64) ensures lex_f64(t@.text()) is Ok ==> r == lex_f64(t@.text())->Ok_0 { unimplemented!() }
#[verifier::external_body]
fn vx_usize(t: Ghost<Tok>) -> (r: usize) ensures lex_usize(t@.text()) is Ok ==> r == lex_usize(t@.text())->Ok_0 { unimplemented!() }
axiom fn axiom_lex_zero() ensures lex_usize(n_0().text()) == Ok::<usize, LexErr>(0);
// an array of literals
spec fn row_of(t: Seq<Seq<u8>>) -> Option<Seq<f32>> { match row_values(t, 0, 0) { Ok(v) => Some(v), Err(_) => None } }
struct VxArr { v: Vec<f32> }
#[verifier::external_body]
fn vx_all_f32(t: Ghost<Seq<Tok>>) -> (r: VxArr) ensures row_of(texts(t@)) is Some ==> r.v@ == row_of(texts(t@))->Some_0 { unimplemented!() }
// core::slice::chunks: pieces of n elements, the last one shorter if need be; panics when n is 0
spec fn chunk_seq(v: Seq<f32>, n: nat) -> Seq<Seq<f32>> decreases v.len() { if v.len() == 0 || n == 0 { Seq::empty() } else if v.len() <= n { seq![v] } else { seq![v.take(n as int)] + chunk_seq(v.skip(n as int), n) } }
#[verifier::external_body]
struct VxChunks<'a> { v: core::slice::Chunks<'a, f32> }
impl<'a> VxIterator for VxChunks<'a> {
    type Item = &'a [f32];
    uninterp spec fn items(&self) -> Seq<&'a [f32]>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a [f32]>) { self.v.next() }
    #[verifier::external_body]
    fn size_hint(&self) -> (usize, Option<usize>) { self.v.size_hint() }
    fn into_iter(self) -> (r: Self) { self }
}
impl<'a> VxIntoIterator for VxChunks<'a> {
    type Item = &'a [f32];
    type IntoIter = VxChunks<'a>;
    open spec fn all(&self) -> Seq<&'a [f32]> { self.items() }
    fn into_iter(self) -> (r: VxChunks<'a>) { self }
}
impl VxArr {
    #[verifier::external_body]
    fn chunks(&self, n: usize) -> (r: VxChunks<'_>) requires n > 0, ensures views(r.items()) == chunk_seq(self.v@, n as nat) { VxChunks { v: self.v.chunks(n) } }
}
// Result::expect panics on an error
fn vx_expect<T, E>(r: Result<T, E>) -> (v: T) requires r is Ok, ensures v == r->Ok_0 { match r { Ok(v) => v, Err(_) => vstd::pervasive::unreached() } }
pub assume_specification [core::time::Duration::from_secs_f64] (s: f64) -> (r: core::time::Duration)
    requires nearest_duration(s) is Some,
    ensures r == nearest_duration(s)->0;
impl BvhLiteralBuilder {
    // #[derive(Default)]
    fn default() -> (r: Self) ensures r.bvh.joints@.len() == 0, r.bvh.motion_values@.len() == 0, r.bvh.num_channels == 0, r.current_channel_index == 0, r.current_depth == 0, r.current_index == 0 {
        BvhLiteralBuilder { bvh: Bvh::default(), current_channel_index: 0, current_depth: 0, current_index: 0 }
    }
}

// ---------------------------------------------------------------- the lines a literal stands for, each as its words
// the digit 0 .. 9 a token is, or something else
spec fn digit(t: Tok) -> int { if t is Lit && t.text().len() == 1 { t.text()[0] - 48 } else { -1 } }
spec fn joint_head(t: Seq<Tok>) -> bool { t.len() >= 3 && t[0] == kw_JOINT() && t[1] is Id && t[2] is Group }
spec fn offset_head(t: Seq<Tok>) -> bool {
    t.len() >= 6 && t[0] == kw_OFFSET() && t[1] is Lit && t[2] is Lit && t[3] is Lit && t[4] == kw_CHANNELS() && t[5] is Lit
        && 0 <= digit(t[5]) <= 9 && t.len() >= 6 + digit(t[5]) && all_ident(t.subrange(6, 6 + digit(t[5])))
}
spec fn end_head(t: Seq<Tok>) -> bool {
    t.len() == 3 && t[0] == kw_End() && t[1] == kw_Site() && t[2] is Group && t[2]->Group_0.len() == 4 && t[2]->Group_0[0] == kw_OFFSET()
        && t[2]->Group_0[1] is Lit && t[2]->Group_0[2] is Lit && t[2]->Group_0[3] is Lit
}
spec fn offset_line(x: Tok, y: Tok, z: Tok) -> Seq<Seq<u8>> { seq![bs"OFFSET", x.text(), y.text(), z.text()] }
spec fn channels_line(n: Tok, ids: Seq<Tok>) -> Seq<Seq<u8>> { seq![bs"CHANNELS", n.text()] + texts(ids) }
spec fn open_line() -> Seq<Seq<u8>> { seq![bs"{"] }
spec fn close_line() -> Seq<Seq<u8>> { seq![bs"}"] }
type Lines = Seq<Seq<Seq<u8>>>;
spec fn body_lines(t: Seq<Tok>) -> Lines decreases t {
    if joint_head(t) { (seq![seq![bs"JOINT", t[1].text()], open_line()] + body_lines(t[2]->Group_0) + seq![close_line()]) + body_lines(t.skip(3)) }
    else if offset_head(t) { seq![offset_line(t[1], t[2], t[3]), channels_line(t[5], t.subrange(6, 6 + digit(t[5])))] + body_lines(t.skip(6 + digit(t[5]))) }
    else if end_head(t) { let e = t[2]->Group_0; seq![seq![bs"End", bs"Site"], open_line(), offset_line(e[1], e[2], e[3]), close_line()] }
    else { Seq::empty() }
}
// what may stand between the braces of a joint
spec fn body_ok(t: Seq<Tok>) -> bool decreases t {
    if joint_head(t) { body_ok(t[2]->Group_0) && (t.len() == 3 || t[3] == kw_JOINT()) && body_ok(t.skip(3)) }
    else if offset_head(t) { body_ok(t.skip(6 + digit(t[5]))) }
    else { t.len() == 0 || end_head(t) }
}

// ---------------------------------------------------------------- reading these lines (step: 52_hier)
ghost enum WRun { Ok(HState), Err, Early }
spec fn st(h: HState, w: Seq<Seq<u8>>) -> Option<HState> { match step(h, w, 0) { Ok(g) => Some(g), Err(_) => None } }
spec fn wrun(h: HState, ls: Lines) -> WRun decreases ls.len() {
    if ls.len() == 0 { WRun::Ok(h) }
    else if h.phase is Done { WRun::Early }
    else { match st(h, ls[0]) { None => WRun::Err, Some(g) => wrun(g, ls.skip(1)) } }
}
// whether a line can be read, and what it does, does not depend on its number
proof fn lemma_axes_n(w: Seq<Seq<u8>>, k: int, n: nat, m: nat)
    ensures axes(w, k, n) is Ok == axes(w, k, m) is Ok, axes(w, k, n) is Ok ==> axes(w, k, n) == axes(w, k, m),
    decreases 3 - k,
{ if k < 3 { lemma_axes_n(w, k + 1, n, m); } }
proof fn lemma_step_n(h: HState, w: Seq<Seq<u8>>, n: nat)
    ensures step(h, w, n) is Ok == st(h, w) is Some, step(h, w, n) is Ok ==> step(h, w, n)->Ok_0 == st(h, w)->Some_0,
{ lemma_axes_n(w, 0, n, 0); }
proof fn lemma_wrun_add(h: HState, a: Lines, b: Lines)
    ensures wrun(h, a + b) == (match wrun(h, a) { WRun::Ok(g) => wrun(g, b), e => e }),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        if !(h.phase is Done) && st(h, a[0]) is Some { lemma_wrun_add(st(h, a[0])->Some_0, a.skip(1), b); }
    }
}
proof fn lemma_wrun_one(h: HState, w: Seq<Seq<u8>>)
    requires !(h.phase is Done),
    ensures wrun(h, seq![w]) == (match st(h, w) { None => WRun::Err, Some(g) => WRun::Ok(g) }),
{ reveal_with_fuel(wrun, 2); if st(h, w) is Some { assert(seq![w].skip(1) =~= Seq::empty()); } }
proof fn lemma_wrun_two(h: HState, w: Seq<Seq<u8>>, x: Seq<Seq<u8>>)
    requires !(h.phase is Done), st(h, w) is Some ==> !(st(h, w)->Some_0.phase is Done),
    ensures wrun(h, seq![w, x]) == (match st(h, w) { None => WRun::Err, Some(g) => match st(g, x) { None => WRun::Err, Some(k) => WRun::Ok(k) } }),
{
    assert(seq![w, x] =~= seq![w] + seq![x]);
    lemma_wrun_add(h, seq![w], seq![x]);
    lemma_wrun_one(h, w);
    if st(h, w) is Some { lemma_wrun_one(st(h, w)->Some_0, x); }
}
proof fn lemma_firsts()
    ensures
        bs"HIERARCHY"[0] == 72u8, bs"ROOT"[0] == 82u8, bs"{"[0] == 123u8, bs"}"[0] == 125u8, bs"End"[0] == 69u8, bs"JOINT"[0] == 74u8, bs"OFFSET"[0] == 79u8, bs"CHANNELS"[0] == 67u8,
{}
spec fn in_body(h: HState) -> bool { h.phase is Body && !h.open && !h.in_end }
// JOINT name {
spec fn entered(h: HState, name: Seq<u8>) -> HState { HState { open: false, ..declare(HState { open: false, ..h }, name) } }
proof fn lemma_st_joint(h: HState, name: Seq<u8>)
    requires hinv(h), in_body(h),
    ensures
        wrun(h, seq![seq![bs"JOINT", name], open_line()]) == WRun::Ok(entered(h, name)),
        hinv(entered(h, name)), in_body(entered(h, name)), entered(h, name).stack == h.stack.push(h.joints.len() as int), hinv(declare(h, name)),
        at_joint(entered(h, name)), top(entered(h, name)).channels.len() == 0,
{
    lemma_firsts();
    let w = seq![bs"JOINT", name];
    assert(w[0] == bs"JOINT" && w[1] == name);
    assert(HState { open: false, ..h } == h);
    let g = declare(h, name);
    lemma_declare(h, name);
    assert(st(h, w) == Some(g));
    assert(open_line()[0] == bs"{");
    assert(st(g, open_line()) == Some(entered(h, name)));
    lemma_step_inv(g, open_line(), 0);
    lemma_wrun_two(h, w, open_line());
}
// }
spec fn left(h: HState) -> HState { HState { stack: h.stack.drop_last(), sealed: true, phase: if h.stack.len() == 1 { Phase::Done } else { h.phase }, ..h } }
proof fn lemma_st_close(h: HState)
    requires hinv(h), in_body(h),
    ensures wrun(h, seq![close_line()]) == WRun::Ok(left(h)), hinv(left(h)), st(h, close_line()) == Some(left(h)),
{
    lemma_firsts();
    assert(close_line()[0] == bs"}");
    assert(st(h, close_line()) == Some(left(h)));
    lemma_step_inv(h, close_line(), 0);
    lemma_wrun_one(h, close_line());
}
// OFFSET x y z
spec fn vals3(x: Tok, y: Tok, z: Tok) -> Option<Seq<f32>> {
    match (lex_f32(x.text()), lex_f32(y.text()), lex_f32(z.text())) { (Ok(a), Ok(b), Ok(c)) => Some(seq![a, b, c]), _ => None }
}
proof fn lemma_st_offset(h: HState, x: Tok, y: Tok, z: Tok)
    requires hinv(h), h.phase is Body, !h.open,
    ensures
        st(h, offset_line(x, y, z)) is Some == (!h.sealed && vals3(x, y, z) is Some),
        st(h, offset_line(x, y, z)) is Some ==> st(h, offset_line(x, y, z)) == Some(add_offset(h, vals3(x, y, z)->0, h.in_end)) && hinv(add_offset(h, vals3(x, y, z)->0, h.in_end)),
{
    lemma_firsts();
    let w = offset_line(x, y, z);
    assert(w[0] == bs"OFFSET" && w[1] == x.text() && w[2] == y.text() && w[3] == z.text() && w.len() == 4);
    reveal_with_fuel(axes, 5);
    if vals3(x, y, z) is Some {
        let v = vals3(x, y, z)->0;
        assert(axes(w, 0, 0) is Ok);
        assert(axes(w, 0, 0)->Ok_0 =~= v);
    } else { assert(axes(w, 0, 0) is Err); }
    if st(h, w) is Some { lemma_step_inv(h, w, 0); }
}
// End Site { OFFSET x y z }
proof fn lemma_st_end(h: HState, x: Tok, y: Tok, z: Tok)
    requires hinv(h), in_body(h),
    ensures ({
        let ls = seq![seq![bs"End", bs"Site"], open_line(), offset_line(x, y, z), close_line()];
        let g = HState { sealed: true, ..add_offset(h, vals3(x, y, z)->0, true) };
        wrun(h, ls) == (if h.sealed || vals3(x, y, z) is None { WRun::Err } else { WRun::Ok(g) }) && (wrun(h, ls) is Ok ==> hinv(g) && in_body(g) && g.stack == h.stack)
    }),
{
    lemma_firsts();
    let e = seq![bs"End", bs"Site"];
    assert(e[0] == bs"End" && e[1] == bs"Site");
    assert(open_line()[0] == bs"{" && close_line()[0] == bs"}");
    let o = offset_line(x, y, z);
    let ls = seq![e, open_line(), o, close_line()];
    let a = seq![e, open_line()];
    let b = seq![o, close_line()];
    assert(ls =~= a + b);
    lemma_wrun_add(h, a, b);
    if h.sealed { assert(st(h, e) is None); lemma_wrun_two(h, e, open_line()); }
    else {
        let h1 = HState { in_end: true, open: true, ..h };
        assert(st(h, e) == Some(h1));
        lemma_step_inv(h, e, 0);
        let h2 = HState { in_end: true, ..h };
        assert(st(h1, open_line()) == Some(HState { open: false, ..h1 }));
        assert(HState { open: false, ..h1 } == h2);
        lemma_step_inv(h1, open_line(), 0);
        lemma_wrun_two(h, e, open_line());
        lemma_st_offset(h2, x, y, z);
        if vals3(x, y, z) is Some {
            let h3 = add_offset(h2, vals3(x, y, z)->0, true);
            assert(st(h3, close_line()) == Some(HState { in_end: false, sealed: true, ..h3 }));
            lemma_step_inv(h3, close_line(), 0);
        }
        lemma_wrun_two(h2, o, close_line());
    }
}
// CHANNELS n names
spec fn add_channels(h: HState, ids: Seq<Tok>) -> HState decreases ids.len() { if ids.len() == 0 { h } else { add_channels(add_channel(h, channel_of(ids[0].text())), ids.skip(1)) } }
spec fn all_channels(ids: Seq<Tok>) -> bool { forall|i: int| 0 <= i < ids.len() ==> is_channel_name(#[trigger] ids[i].text()) }
proof fn lemma_add_channels(h: HState, ids: Seq<Tok>)
    requires hinv(h), at_joint(h),
    ensures
        channels_of(texts(ids), h.nch) is Ok == all_channels(ids),
        hinv(add_channels(h, ids)), at_joint(add_channels(h, ids)), add_channels(h, ids).stack == h.stack,
        add_channels(h, ids).open == h.open, add_channels(h, ids).in_end == h.in_end,
        all_channels(ids) ==> ({ let c = channels_of(texts(ids), h.nch)->Ok_0;
            add_channels(h, ids) == (HState { nch: h.nch + c.len(), ..set_top(h, SJoint { channels: top(h).channels + c, ..top(h) }) }) }),
    decreases ids.len(),
{
    lemma_top_numbers(h);
    let js = h.joints;
    let k = h.stack.last();
    if ids.len() == 0 {
        assert(texts(ids).len() == 0);
        let j = SJoint { channels: top(h).channels + Seq::<(ChannelType, nat)>::empty(), ..top(h) };
        assert(j.channels =~= top(h).channels);
        assert(js.update(k, j) =~= js);
    } else {
        let t = channel_of(ids[0].text());
        let g = add_channel(h, t);
        lemma_add_channel(h, t);
        lemma_add_channels(g, ids.skip(1));
        assert(texts(ids).skip(1) =~= texts(ids.skip(1)));
        assert(texts(ids)[0] == ids[0].text());
        if all_channels(ids) {
            assert forall|i: int| 0 <= i < ids.skip(1).len() implies is_channel_name(#[trigger] ids.skip(1)[i].text()) by { assert(ids.skip(1)[i] == ids[i + 1]); }
            let d = channels_of(texts(ids.skip(1)), g.nch)->Ok_0;
            let c = channels_of(texts(ids), h.nch)->Ok_0;
            assert(c =~= seq![(t, h.nch)] + d);
            assert(g.nch == h.nch + 1);
            assert(top(g).channels + d =~= top(h).channels + c);
            let r = add_channels(g, ids.skip(1));
            assert(r.joints =~= js.update(k, SJoint { channels: top(h).channels + c, ..top(h) }));
        } else {
            let i = choose|i: int| 0 <= i < ids.len() && !is_channel_name(#[trigger] ids[i].text());
            if i > 0 { assert(ids.skip(1)[i - 1] == ids[i]); assert(!all_channels(ids.skip(1))); }
        }
    }
}
proof fn lemma_st_channels(h: HState, n: Tok, ids: Seq<Tok>)
    requires hinv(h), in_body(h), !h.sealed,
    ensures st(h, channels_line(n, ids)) is Some ==> all_channels(ids) && st(h, channels_line(n, ids)) == Some(add_channels(h, ids)) && hinv(add_channels(h, ids)),
{
    lemma_firsts();
    let w = channels_line(n, ids);
    assert(w[0] == bs"CHANNELS" && w[1] == n.text());
    assert(w.skip(2) =~= texts(ids));
    lemma_add_channels(h, ids);
    if st(h, w) is Some {
        let c = channels_of(texts(ids), h.nch)->Ok_0;
        assert(top(h).channels + c =~= c);
    }
}
// a joint's first lines
spec fn described(h: HState, t: Seq<Tok>) -> HState { add_channels(add_offset(h, vals3(t[1], t[2], t[3])->0, false), t.subrange(6, 6 + digit(t[5]))) }
proof fn lemma_st_head(h: HState, t: Seq<Tok>)
    requires hinv(h), in_body(h), offset_head(t),
    ensures ({
        let ls = seq![offset_line(t[1], t[2], t[3]), channels_line(t[5], t.subrange(6, 6 + digit(t[5])))];
        let g = described(h, t);
        !(wrun(h, ls) is Early) && (wrun(h, ls) is Ok ==> wrun(h, ls) == WRun::Ok(g) && hinv(g) && in_body(g) && g.stack == h.stack && !h.sealed
            && vals3(t[1], t[2], t[3]) is Some && all_channels(t.subrange(6, 6 + digit(t[5]))) && hinv(add_offset(h, vals3(t[1], t[2], t[3])->0, false)))
    }),
{
    let (a, b) = (offset_line(t[1], t[2], t[3]), channels_line(t[5], t.subrange(6, 6 + digit(t[5]))));
    lemma_st_offset(h, t[1], t[2], t[3]);
    lemma_wrun_two(h, a, b);
    if st(h, a) is Some {
        let g = add_offset(h, vals3(t[1], t[2], t[3])->0, false);
        assert(g.stack == h.stack && in_body(g) && !g.sealed);
        lemma_st_channels(g, t[5], t.subrange(6, 6 + digit(t[5])));
        lemma_add_channels(g, t.subrange(6, 6 + digit(t[5])));
    }
}
// what stands between a joint's braces leaves the joint open, or cannot be read
proof fn lemma_body(h: HState, t: Seq<Tok>)
    requires hinv(h), in_body(h), body_ok(t),
    ensures
        !(wrun(h, body_lines(t)) is Early),
        wrun(h, body_lines(t)) is Ok ==> ({ let g = wrun(h, body_lines(t))->Ok_0; hinv(g) && in_body(g) && g.stack == h.stack }),
    decreases t, 1int,
{
    if joint_head(t) { lemma_joint(h, t); if wrun(h, braced_lines(t)) is Ok { lemma_body(wrun(h, braced_lines(t))->Ok_0, t.skip(3)); } lemma_wrun_add(h, braced_lines(t), body_lines(t.skip(3))); }
    else if offset_head(t) {
        let ls = seq![offset_line(t[1], t[2], t[3]), channels_line(t[5], t.subrange(6, 6 + digit(t[5])))];
        lemma_st_head(h, t);
        lemma_wrun_add(h, ls, body_lines(t.skip(6 + digit(t[5]))));
        if wrun(h, ls) is Ok { lemma_body(described(h, t), t.skip(6 + digit(t[5]))); }
    } else if end_head(t) { let e = t[2]->Group_0; lemma_st_end(h, e[1], e[2], e[3]); }
}
spec fn braced_lines(t: Seq<Tok>) -> Lines { seq![seq![bs"JOINT", t[1].text()], open_line()] + body_lines(t[2]->Group_0) + seq![close_line()] }
proof fn lemma_joint(h: HState, t: Seq<Tok>)
    requires hinv(h), in_body(h), joint_head(t), body_ok(t[2]->Group_0),
    ensures ({
        let e = entered(h, t[1].text());
        let r = wrun(e, body_lines(t[2]->Group_0));
        &&& hinv(e) && in_body(e) && e.stack == h.stack.push(h.joints.len() as int) && hinv(declare(h, t[1].text()))
        &&& !(r is Early) && !(wrun(h, braced_lines(t)) is Early)
        &&& wrun(h, braced_lines(t)) is Ok == r is Ok
        &&& r is Ok ==> wrun(h, braced_lines(t))->Ok_0 == left(r->Ok_0) && hinv(left(r->Ok_0)) && in_body(left(r->Ok_0)) && left(r->Ok_0).stack == h.stack && hinv(r->Ok_0) && in_body(r->Ok_0) && r->Ok_0.stack == e.stack
    }),
    decreases t, 0int,
{
    let e = entered(h, t[1].text());
    lemma_st_joint(h, t[1].text());
    let a = seq![seq![bs"JOINT", t[1].text()], open_line()];
    let b = body_lines(t[2]->Group_0);
    lemma_body(e, t[2]->Group_0);
    lemma_wrun_add(h, a, b);
    lemma_wrun_add(h, a + b, seq![close_line()]);
    let r = wrun(e, b);
    if r is Ok {
        lemma_st_close(r->Ok_0);
        assert(h.stack.push(h.joints.len() as int).drop_last() =~= h.stack);
    }
}

// ---------------------------------------------------------------- what the builder has built, as the lines go by
proof fn lemma_built_same(b: BvhLiteralBuilder, h: HState, g: HState)
    requires b.built(h), hinv(g), !(g.phase is Done), !(g.phase is Start), g.joints == h.joints, g.nch == h.nch,
    ensures b.built(g),
{}
proof fn lemma_joints_reps(t: Seq<Tok>)
    requires body_ok(t), t.len() == 0 || joint_head(t),
    ensures t.len() % 3 == 0, forall|i: int| 0 <= i < t.len() / 3 ==> joint_rep(#[trigger] at_rep(t, 3, i)),
    decreases t.len(),
{
    if t.len() > 0 {
        let r = t.skip(3);
        if r.len() > 0 { assert(r[0] == kw_JOINT()); lemma_not_other(r); }
        lemma_joints_reps(r);
        assert forall|i: int| 0 <= i < t.len() / 3 implies joint_rep(#[trigger] at_rep(t, 3, i)) by {
            let a = at_rep(t, 3, i);
            if i == 0 { assert(a[0] == t[0] && a[1] == t[1] && a[2] == t[2]); }
            else { assert(at_rep(r, 3, i - 1) =~= a); assert(joint_rep(at_rep(r, 3, i - 1))); }
        }
    }
}
spec fn joint_rep(t: Seq<Tok>) -> bool { t.len() == 3 && t[0] == kw_JOINT() && t[1] is Id && t[2] is Group }
proof fn lemma_kws()
    ensures kw_JOINT() != kw_OFFSET(), kw_JOINT() != kw_End(), kw_OFFSET() != kw_End(), kw_HIERARCHY() != kw_ROOT(), kw_ROOT() != kw_MOTION(),
{
    lemma_firsts();
    assert(bs"MOTION"[0] == 77u8);
    assert(kw_JOINT().text()[0] == 74u8); assert(kw_OFFSET().text()[0] == 79u8); assert(kw_End().text()[0] == 69u8);
    assert(kw_ROOT().text()[0] == 82u8); assert(kw_MOTION().text()[0] == 77u8); assert(kw_HIERARCHY().text()[0] == 72u8);
}
proof fn lemma_not_other(t: Seq<Tok>)
    requires body_ok(t), t.len() > 0, t[0] == kw_JOINT(),
    ensures joint_head(t),
{ lemma_kws(); }
proof fn lemma_digits(t: Tok)
    ensures
        t is Lit && digit(t) == 0 ==> t == n_0(), t is Lit && digit(t) == 1 ==> t == n_1(), t is Lit && digit(t) == 2 ==> t == n_2(), t is Lit && digit(t) == 3 ==> t == n_3(), t is Lit && digit(t) == 4 ==> t == n_4(),
        t is Lit && digit(t) == 5 ==> t == n_5(), t is Lit && digit(t) == 6 ==> t == n_6(), t is Lit && digit(t) == 7 ==> t == n_7(), t is Lit && digit(t) == 8 ==> t == n_8(), t is Lit && digit(t) == 9 ==> t == n_9(),
        digit(n_0()) == 0, digit(n_1()) == 1, digit(n_2()) == 2, digit(n_3()) == 3, digit(n_4()) == 4, digit(n_5()) == 5, digit(n_6()) == 6, digit(n_7()) == 7, digit(n_8()) == 8, digit(n_9()) == 9,
{
    if t is Lit && 0 <= digit(t) <= 9 { assert(t.text() =~= seq![(48 + digit(t)) as u8]); }
}
// the arms: what the tokens of a joint's body are, given that they are well formed
proof fn lemma_arms(h: HState, t: Seq<Tok>)
    requires hinv(h), in_body(h), body_ok(t), wrun(h, body_lines(t)) is Ok,
    ensures
        t.len() > 0 && t[0] == kw_JOINT() ==> joint_head(t),
        t.len() > 0 && t[0] == kw_OFFSET() ==> offset_head(t),
        t.len() > 0 && t[0] != kw_JOINT() && t[0] != kw_OFFSET() ==> end_head(t),
        offset_head(t) ==> forall|k: int| 6 <= k < 6 + digit(t[5]) ==> #[trigger] t[k] is Id,
        offset_head(t) ==> ({
            let n = digit(t[5]);
            let o = add_offset(h, vals3(t[1], t[2], t[3])->0, false);
            &&& vals3(t[1], t[2], t[3]) is Some && all_channels(t.subrange(6, 6 + n)) && at_joint(h) && at_joint(o) && hinv(o)
            &&& hinv(described(h, t)) && in_body(described(h, t)) && described(h, t).stack == h.stack
            &&& body_ok(t.skip(6 + n)) && wrun(described(h, t), body_lines(t.skip(6 + n))) == wrun(h, body_lines(t))
        }),
        end_head(t) ==> ({
            let e = t[2]->Group_0;
            &&& vals3(e[1], e[2], e[3]) is Some && at_joint(h)
            &&& wrun(h, body_lines(t)) == WRun::Ok(HState { sealed: true, ..add_offset(h, vals3(e[1], e[2], e[3])->0, true) })
        }),
{
    lemma_kws();
    lemma_body(h, t);
    if offset_head(t) {
        let ls = seq![offset_line(t[1], t[2], t[3]), channels_line(t[5], t.subrange(6, 6 + digit(t[5])))];
        assert(!joint_head(t));
        assert forall|k: int| 6 <= k < 6 + digit(t[5]) implies #[trigger] t[k] is Id by { assert(t.subrange(6, 6 + digit(t[5]))[k - 6] is Id); }
        lemma_st_head(h, t);
        lemma_wrun_add(h, ls, body_lines(t.skip(6 + digit(t[5]))));
    }
    if end_head(t) { let e = t[2]->Group_0; assert(!joint_head(t) && !offset_head(t)); lemma_st_end(h, e[1], e[2], e[3]); }
}

//@raw
//@props C04 C17
spec fn names_of(t: ChannelType) -> Tok { Tok::Id(channel_name(t)) }
proof fn lemma_next_channel(t: Seq<Tok>, h: HState)
    requires all_ident(t), all_channels(t), hinv(h), at_joint(h),
    ensures t.len() > 0 ==> ({
        let c = channel_of(t[0].text());
        &&& t[0] == names_of(c)
        &&& all_ident(t.skip(1)) && all_channels(t.skip(1))
        &&& at_joint(add_channel(h, c)) && hinv(add_channel(h, c)) && add_channels(h, t) == add_channels(add_channel(h, c), t.skip(1))
        &&& forall|d: ChannelType| t[0] == #[trigger] names_of(d) ==> d == c
        &&& t[0] == kw_Xposition() || t[0] == kw_Yposition() || t[0] == kw_Zposition() || t[0] == kw_Xrotation() || t[0] == kw_Yrotation() || t[0] == kw_Zrotation()
        &&& kw_Xposition() == names_of(ChannelType::PositionX) && kw_Yposition() == names_of(ChannelType::PositionY) && kw_Zposition() == names_of(ChannelType::PositionZ)
        &&& kw_Xrotation() == names_of(ChannelType::RotationX) && kw_Yrotation() == names_of(ChannelType::RotationY) && kw_Zrotation() == names_of(ChannelType::RotationZ)
    }),
{
    if t.len() > 0 {
        let c = channel_of(t[0].text());
        assert(is_channel_name(t[0].text()));
        assert(channel_name(c) == t[0].text());
        assert forall|i: int| 0 <= i < t.skip(1).len() implies is_channel_name(#[trigger] t.skip(1)[i].text()) by { assert(t.skip(1)[i] == t[i + 1]); }
        lemma_add_channel(h, c);
        assert forall|d: ChannelType| t[0] == #[trigger] names_of(d) implies d == c by { lemma_channel_names_distinct(c, d); }
    }
}
//@item src/macros.rs | macro match_channels
//@macro
//@props C04 C17
fn m_match_channels(builder: &mut BvhLiteralBuilder, Ghost(toks): Ghost<Seq<Tok>>⟦ , Ghost(h): Ghost<HState> ⟧)
⟦   requires old(builder).built(h), at_joint(h), all_ident(toks), all_channels(toks),
    ensures final(builder).built(add_channels(h, toks)), final(builder).rest_same(*old(builder)),
    decreases toks.len(), ⟧
{
⟦ proof { lemma_next_channel(toks, h); } ⟧
let ghost vx_m = toks.len() == 0;
if vx_when(Ghost(vx_m)) {
return { };
}
let ghost vx_m = toks.len() >= 1 && toks[0] == kw_Xposition() && all_ident(toks.skip(1));
if vx_when(Ghost(vx_m)) {
let ghost rest = toks.skip(1);
return { builder.push_channel(ChannelType::PositionX⟦ , Ghost(h) ⟧); m_match_channels(builder, Ghost(rest)⟦ , Ghost(add_channel(h, ChannelType::PositionX)) ⟧); };
}
let ghost vx_m = toks.len() >= 1 && toks[0] == kw_Yposition() && all_ident(toks.skip(1));
if vx_when(Ghost(vx_m)) {
let ghost rest = toks.skip(1);
return { builder.push_channel(ChannelType::PositionY⟦ , Ghost(h) ⟧); m_match_channels(builder, Ghost(rest)⟦ , Ghost(add_channel(h, ChannelType::PositionY)) ⟧); };
}
let ghost vx_m = toks.len() >= 1 && toks[0] == kw_Zposition() && all_ident(toks.skip(1));
if vx_when(Ghost(vx_m)) {
let ghost rest = toks.skip(1);
return { builder.push_channel(ChannelType::PositionZ⟦ , Ghost(h) ⟧); m_match_channels(builder, Ghost(rest)⟦ , Ghost(add_channel(h, ChannelType::PositionZ)) ⟧); };
}
let ghost vx_m = toks.len() >= 1 && toks[0] == kw_Xrotation() && all_ident(toks.skip(1));
if vx_when(Ghost(vx_m)) {
let ghost rest = toks.skip(1);
return { builder.push_channel(ChannelType::RotationX⟦ , Ghost(h) ⟧); m_match_channels(builder, Ghost(rest)⟦ , Ghost(add_channel(h, ChannelType::RotationX)) ⟧); };
}
let ghost vx_m = toks.len() >= 1 && toks[0] == kw_Yrotation() && all_ident(toks.skip(1));
if vx_when(Ghost(vx_m)) {
let ghost rest = toks.skip(1);
return { builder.push_channel(ChannelType::RotationY⟦ , Ghost(h) ⟧); m_match_channels(builder, Ghost(rest)⟦ , Ghost(add_channel(h, ChannelType::RotationY)) ⟧); };
}
let ghost vx_m = toks.len() >= 1 && toks[0] == kw_Zrotation() && all_ident(toks.skip(1));
if vx_when(Ghost(vx_m)) {
let ghost rest = toks.skip(1);
return { builder.push_channel(ChannelType::RotationZ⟦ , Ghost(h) ⟧); m_match_channels(builder, Ghost(rest)⟦ , Ghost(add_channel(h, ChannelType::RotationZ)) ⟧); };
}
let ghost vx_m = toks.len() >= 0;
if vx_when(Ghost(vx_m)) {
let ghost other = toks;
return { vx_compile_error(); };
}
vx_no_arm()
}
//@item src/macros.rs | macro parse_offset
//@macro
//@props C17
fn m_parse_offset(builder: &mut BvhLiteralBuilder, Ghost(toks): Ghost<Seq<Tok>>⟦ , Ghost(h): Ghost<HState> ⟧)
⟦   requires old(builder).built(h), at_joint(h), toks.len() == 3, toks[0] is Lit && toks[1] is Lit && toks[2] is Lit, vals3(toks[0], toks[1], toks[2]) is Some,
    ensures final(builder).built(add_offset(h, vals3(toks[0], toks[1], toks[2])->0, false)), final(builder).rest_same(*old(builder)), ⟧
{
let ghost vx_m = toks.len() == 3 && toks[0] is Lit && toks[1] is Lit && toks[2] is Lit;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[0]; let ghost ofst_y = toks[1]; let ghost ofst_z = toks[2];
return { let offset = [ vx_f32(Ghost(ofst_x)), vx_f32(Ghost(ofst_y)), vx_f32(Ghost(ofst_z)) ]; ⟦ assert(offset@ =~= vals3(toks[0], toks[1], toks[2])->0); ⟧ builder.push_joint_offset(⟦~ offset.into() ~> offset ⟧, false⟦ , Ghost(h) ⟧); };
}
vx_no_arm()
}
//@raw
//@props C04 C17
spec fn joints_only(t: Seq<Tok>) -> bool { t.len() == 0 || joint_head(t) }
// the first arm is for bodies of joints only
proof fn lemma_reps_joints(t: Seq<Tok>)
    requires t.len() % 3 == 0, all_reps(t, 3, |t: Seq<Tok>| t[0] == kw_JOINT() && t[1] is Id && t[2] is Group && t[2]->Group_0.len() >= 0),
    ensures joints_only(t),
{
    if t.len() > 0 {
        let a = at_rep(t, 3, 0);
        assert(a[0] == t[0] && a[1] == t[1] && a[2] == t[2]);
    }
}
proof fn lemma_next_joint(toks: Seq<Tok>, i: int, g: HState)
    requires
        0 <= i, 3 * i < toks.len(), toks.len() % 3 == 0, joints_only(toks.skip(3 * i)), body_ok(toks.skip(3 * i)), hinv(g), in_body(g),
        wrun(g, body_lines(toks.skip(3 * i))) is Ok,
    ensures ({
        let t = toks.skip(3 * i);
        let a = at_rep(toks, 3, i);
        let u = toks.skip(3 * (i + 1));
        let e = entered(g, a[1].text());
        let r = wrun(e, body_lines(a[2]->Group_0));
        &&& 3 * (i + 1) <= toks.len() && joints_only(u) && body_ok(u) && a[1] == toks[3 * i + 1] && a[2] == toks[3 * i + 2] && a[2] is Group && body_ok(a[2]->Group_0)
        &&& hinv(e) && in_body(e) && e.stack == g.stack.push(g.joints.len() as int) && hinv(declare(g, a[1].text()))
        &&& r is Ok && hinv(left(r->Ok_0)) && in_body(left(r->Ok_0)) && left(r->Ok_0).stack == g.stack && r->Ok_0.stack == e.stack
        &&& wrun(left(r->Ok_0), body_lines(u)) == wrun(g, body_lines(t))
    }),
{
    let t = toks.skip(3 * i);
    let a = at_rep(toks, 3, i);
    let u = toks.skip(3 * (i + 1));
    assert(a[1] == t[1] && a[2] == t[2]);
    assert(t.skip(3) =~= u);
    if u.len() > 0 { assert(u[0] == t[3]); lemma_not_other(u); }
    lemma_joint(g, t);
    lemma_wrun_add(g, braced_lines(t), body_lines(u));
}
proof fn lemma_stack_depth(b: BvhLiteralBuilder, h: HState)
    requires b.built(h), h.stack.len() > 0,
    ensures h.stack.len() < 0x1000_0000_0000_0000,
{
    lemma_stack(h, h.stack.len() - 1);
    axiom_joints_vec_len(&b.bvh.joints);
}
//@item src/macros.rs | macro parse_joints_internal
//@macro
//@props C04 C17
//@pre #[verifier::spinoff_prover]
fn m_parse_joints_internal(builder: &mut BvhLiteralBuilder, Ghost(toks): Ghost<Seq<Tok>>⟦ , Ghost(h): Ghost<HState> ⟧)
⟦   requires old(builder).built(h), in_body(h), old(builder).current_depth == h.stack.len(), body_ok(toks), wrun(h, body_lines(toks)) is Ok,
    ensures final(builder).built(wrun(h, body_lines(toks))->Ok_0), final(builder).rest_same(*old(builder)),
    decreases toks, ⟧
{
⟦ proof { lemma_arms(h, toks); lemma_kws(); if toks.len() > 5 { lemma_digits(toks[5]); } lemma_body(h, toks);
    if toks.len() == 0 || joint_head(toks) { lemma_joints_reps(toks); assert(all_reps(toks, 3, |t: Seq<Tok>| t[0] == kw_JOINT() && t[1] is Id && t[2] is Group && t[2]->Group_0.len() >= 0)); } } ⟧
let ghost vx_m = toks.len() >= 0 && all_reps(toks, 3, |t: Seq<Tok>| t[0] == kw_JOINT() && t[1] is Id && t[2] is Group && t[2]->Group_0.len() >= 0);
if vx_when(Ghost(vx_m)) {
return { let ghost mut vx_i: int = 0; ⟦ let ghost mut g = h;
proof { lemma_reps_joints(toks); assert(toks.skip(0) =~= toks); } ⟧
while vx_when(Ghost(vx_i < toks.len() / 3))
⟦   invariant
        0 <= vx_i, 3 * vx_i <= toks.len(), toks.len() % 3 == 0, joints_only(toks.skip(3 * vx_i)), body_ok(toks.skip(3 * vx_i)),
        hinv(g), in_body(g), g.stack == h.stack, builder.built(g), builder.rest_same(*old(builder)), builder.current_depth == g.stack.len(),
        wrun(g, body_lines(toks.skip(3 * vx_i))) == wrun(h, body_lines(toks)), wrun(h, body_lines(toks)) is Ok,
    decreases toks.len() / 3 - vx_i, ⟧
{ let ghost joint_nm = at_rep(toks, 3, vx_i)[1]; let ghost children = at_rep(toks, 3, vx_i)[2]->Group_0; ⟦ let ghost r = toks.skip(3 * vx_i); let ghost e = entered(g, joint_nm.text());
proof { lemma_next_joint(toks, vx_i, g); lemma_stack_depth(*builder, g); } ⟧
builder.push_joint(vx_stringify(Ghost(joint_nm))⟦ , Ghost(g) ⟧); builder.current_depth += 1; ⟦ proof { lemma_built_same(*builder, declare(g, joint_nm.text()), e); } ⟧ m_parse_joints_internal(builder, Ghost(children)⟦ , Ghost(e) ⟧); builder.current_depth -= 1; proof { ⟦ lemma_built_same(*builder, wrun(e, body_lines(children))->Ok_0, left(wrun(e, body_lines(children))->Ok_0)); g = left(wrun(e, body_lines(children))->Ok_0); ⟧ vx_i = vx_i + 1; } } };
}
let ghost vx_m = toks.len() >= 6 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_0();
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost rest = toks.skip(6);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(toks.subrange(6, 6) =~= Seq::<Tok>::empty()); } ⟧ m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 7 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_1() && toks[6] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost rest = toks.skip(7);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0] =~= toks.subrange(6, 7)); } ⟧ { let ghost vx_t = seq![ch0]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 8 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_2() && toks[6] is Id && toks[7] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost rest = toks.skip(8);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1] =~= toks.subrange(6, 8)); } ⟧ { let ghost vx_t = seq![ch0, ch1]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 9 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_3() && toks[6] is Id && toks[7] is Id && toks[8] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost rest = toks.skip(9);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2] =~= toks.subrange(6, 9)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 10 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_4() && toks[6] is Id && toks[7] is Id && toks[8] is Id && toks[9] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost ch3 = toks[9]; let ghost rest = toks.skip(10);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2, ch3] =~= toks.subrange(6, 10)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2, ch3]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 11 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_5() && toks[6] is Id && toks[7] is Id && toks[8] is Id && toks[9] is Id && toks[10] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost ch3 = toks[9]; let ghost ch4 = toks[10]; let ghost rest = toks.skip(11);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2, ch3, ch4] =~= toks.subrange(6, 11)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2, ch3, ch4]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 12 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_6() && toks[6] is Id && toks[7] is Id && toks[8] is Id && toks[9] is Id && toks[10] is Id && toks[11] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost ch3 = toks[9]; let ghost ch4 = toks[10]; let ghost ch5 = toks[11]; let ghost rest = toks.skip(12);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2, ch3, ch4, ch5] =~= toks.subrange(6, 12)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2, ch3, ch4, ch5]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 13 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_7() && toks[6] is Id && toks[7] is Id && toks[8] is Id && toks[9] is Id && toks[10] is Id && toks[11] is Id && toks[12] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost ch3 = toks[9]; let ghost ch4 = toks[10]; let ghost ch5 = toks[11]; let ghost ch6 = toks[12]; let ghost rest = toks.skip(13);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2, ch3, ch4, ch5, ch6] =~= toks.subrange(6, 13)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2, ch3, ch4, ch5, ch6]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 14 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_8() && toks[6] is Id && toks[7] is Id && toks[8] is Id && toks[9] is Id && toks[10] is Id && toks[11] is Id && toks[12] is Id && toks[13] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost ch3 = toks[9]; let ghost ch4 = toks[10]; let ghost ch5 = toks[11]; let ghost ch6 = toks[12]; let ghost ch7 = toks[13]; let ghost rest = toks.skip(14);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2, ch3, ch4, ch5, ch6, ch7] =~= toks.subrange(6, 14)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2, ch3, ch4, ch5, ch6, ch7]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 15 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] == n_9() && toks[6] is Id && toks[7] is Id && toks[8] is Id && toks[9] is Id && toks[10] is Id && toks[11] is Id && toks[12] is Id && toks[13] is Id && toks[14] is Id;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost ch0 = toks[6]; let ghost ch1 = toks[7]; let ghost ch2 = toks[8]; let ghost ch3 = toks[9]; let ghost ch4 = toks[10]; let ghost ch5 = toks[11]; let ghost ch6 = toks[12]; let ghost ch7 = toks[13]; let ghost ch8 = toks[14]; let ghost rest = toks.skip(15);
return { { let ghost vx_t = seq![ofst_x, ofst_y, ofst_z]; m_parse_offset(builder, Ghost(vx_t)⟦ , Ghost(h) ⟧) }; ⟦ let ghost o = add_offset(h, vals3(ofst_x, ofst_y, ofst_z)->0, false); proof { assert(seq![ch0, ch1, ch2, ch3, ch4, ch5, ch6, ch7, ch8] =~= toks.subrange(6, 15)); } ⟧ { let ghost vx_t = seq![ch0, ch1, ch2, ch3, ch4, ch5, ch6, ch7, ch8]; m_match_channels(builder, Ghost(vx_t)⟦ , Ghost(o) ⟧) }; m_parse_joints_internal(builder, Ghost(rest)⟦ , Ghost(described(h, toks)) ⟧); };
}
let ghost vx_m = toks.len() >= 6 && toks[0] == kw_OFFSET() && toks[1] is Lit && toks[2] is Lit && toks[3] is Lit && toks[4] == kw_CHANNELS() && toks[5] is Lit;
if vx_when(Ghost(vx_m)) {
let ghost ofst_x = toks[1]; let ghost ofst_y = toks[2]; let ghost ofst_z = toks[3]; let ghost unsupported = toks[5]; let ghost rest = toks.skip(6);
return { vx_compile_error(); };
}
let ghost vx_m = toks.len() == 3 && toks[0] == kw_End() && toks[1] == kw_Site() && toks[2] is Group && toks[2]->Group_0.len() == 4 && toks[2]->Group_0[0] == kw_OFFSET() && toks[2]->Group_0[1] is Lit && toks[2]->Group_0[2] is Lit && toks[2]->Group_0[3] is Lit;
if vx_when(Ghost(vx_m)) {
let ghost end_x = toks[2]->Group_0[1]; let ghost end_y = toks[2]->Group_0[2]; let ghost end_z = toks[2]->Group_0[3];
return { let offset = [ vx_f32(Ghost(end_x)), vx_f32(Ghost(end_y)), vx_f32(Ghost(end_z)), ]; ⟦ let ghost o = vals3(end_x, end_y, end_z)->0; assert(offset@ =~= o); ⟧
builder.push_joint_offset(⟦~ offset.into() ~> offset ⟧, true⟦ , Ghost(h) ⟧); ⟦ proof { lemma_built_same(*builder, add_offset(h, o, true), wrun(h, body_lines(toks))->Ok_0); } ⟧ };
}
vx_no_arm()
}
//@raw
//@props C04 C17
// ---------------------------------------------------------------- a whole literal
spec fn lit_rootless(t: Seq<Tok>) -> bool {
    ||| t.len() == 0
    ||| t =~= seq![kw_HIERARCHY(), kw_MOTION()]
    ||| t =~= seq![kw_HIERARCHY(), kw_MOTION(), kw_Frames(), p_colon(), n_0()]
    ||| t.len() == 9 && t.take(8) =~= seq![kw_HIERARCHY(), kw_MOTION(), kw_Frames(), p_colon(), n_0(), kw_Frame(), kw_Time(), p_colon()] && t[8] is Lit && secs_of(t[8]) is Some
}
spec fn secs_of(t: Tok) -> Option<Duration> { match lex_f64(t.text()) { Ok(s) => nearest_duration(s), Err(_) => None } }
spec fn lit_shape(t: Seq<Tok>) -> bool {
    &&& t.len() >= 12 && t[0] == kw_HIERARCHY() && t[1] == kw_ROOT() && t[2] is Id && t[3] is Group && body_ok(t[3]->Group_0)
    &&& t[4] == kw_MOTION() && t[5] == kw_Frames() && t[6] == p_colon() && t[7] is Lit && t[8] == kw_Frame() && t[9] == kw_Time() && t[10] == p_colon() && t[11] is Lit
    &&& (t.len() == 12 && t[7] == n_0()) || (t.len() > 12 && all_literal(t.skip(12)))
}
spec fn root_lines(t: Seq<Tok>) -> Lines { seq![seq![bs"HIERARCHY"], seq![bs"ROOT", t[2].text()], open_line()] }
spec fn lit_hier(t: Seq<Tok>) -> Lines { root_lines(t) + body_lines(t[3]->Group_0) + seq![close_line()] }
// the skeleton and the motion the lines of a literal describe
ghost struct SLit { h: HState, m: SMotion }
spec fn lit_sem(t: Seq<Tok>) -> Option<SLit> {
    match (wrun(h_start(), lit_hier(t)), lex_usize(t[7].text()), secs_of(t[11]), row_of(texts(t.skip(12)))) {
        (WRun::Ok(h), Ok(n), Some(d), Some(v)) => if h.phase is Done && v.len() == h.nch * n { Some(SLit { h, m: SMotion { time: d, values: v } }) } else { None },
        _ => None,
    }
}
// HIERARCHY, ROOT name, {
spec fn rooted(name: Seq<u8>) -> HState { HState { open: false, ..declare(HState { phase: Phase::NeedRoot, ..h_start() }, name) } }
proof fn lemma_root(t: Seq<Tok>)
    requires lit_shape(t),
    ensures ({
        let h = rooted(t[2].text());
        let r = wrun(h, body_lines(t[3]->Group_0));
        &&& wrun(h_start(), root_lines(t)) == WRun::Ok(h) && hinv(h) && in_body(h) && h.stack == seq![0int] && hinv(declare(HState { phase: Phase::NeedRoot, ..h_start() }, t[2].text()))
        &&& !(r is Early) && wrun(h_start(), lit_hier(t)) == (match r { WRun::Ok(g) => WRun::Ok(left(g)), e => e })
        &&& r is Ok ==> hinv(left(r->Ok_0)) && hinv(r->Ok_0) && in_body(r->Ok_0) && r->Ok_0.stack == h.stack && left(r->Ok_0).phase is Done
    }),
{
    lemma_firsts();
    let n = t[2].text();
    let h0 = h_start();
    let h1 = HState { phase: Phase::NeedRoot, ..h_start() };
    let h2 = declare(h1, n);
    let h = rooted(n);
    let (a, b, c) = (seq![bs"HIERARCHY"], seq![bs"ROOT", n], open_line());
    assert(a[0] == bs"HIERARCHY" && b[0] == bs"ROOT" && b[1] == n && c[0] == bs"{");
    assert(hinv(h0)) by { assert(h0.joints.len() == 0); }
    assert(st(h0, a) == Some(h1));
    lemma_step_inv(h0, a, 0);
    assert(st(h1, b) == Some(h2));
    lemma_declare(h1, n);
    assert(st(h2, c) == Some(h));
    lemma_step_inv(h2, c, 0);
    assert(seq![a, b, c] =~= seq![a, b] + seq![c]);
    lemma_wrun_two(h0, a, b);
    lemma_wrun_add(h0, seq![a, b], seq![c]);
    lemma_wrun_one(h2, c);
    assert(h.stack =~= seq![0int]);
    let ls = body_lines(t[3]->Group_0);
    lemma_body(h, t[3]->Group_0);
    lemma_wrun_add(h0, root_lines(t), ls);
    lemma_wrun_add(h0, root_lines(t) + ls, seq![close_line()]);
    if wrun(h, ls) is Ok { lemma_st_close(wrun(h, ls)->Ok_0); }
}
// inserting the pieces of v one after the other gives v
proof fn lemma_insert_chunks(a: Seq<f32>, i: int, v: Seq<f32>, n: nat)
    requires n > 0, v.len() % n == 0, i >= 0, a.len() == i * n,
    ensures insert_all(a, i, n, chunk_seq(v, n)).0 == a + v, insert_all(a, i, n, chunk_seq(v, n)).2,
    decreases v.len(),
{
    if v.len() == 0 { assert(a + v =~= a); }
    else {
        lemma_mod_step(v.len(), n);
        let x = v.take(n as int);
        let w = v.skip(n as int);
        let cs = chunk_seq(v, n);
        if v.len() <= n { assert(x =~= v); assert(w.len() == 0); assert(cs =~= seq![x] + chunk_seq(w, n)); }
        assert(cs == seq![x] + chunk_seq(w, n));
        assert(cs[0] == x && cs.skip(1) =~= chunk_seq(w, n));
        assert(seq_insert(a, i * n, x) =~= a + x);
        assert((i + 1) * n == i * n + n) by (nonlinear_arith);
        lemma_insert_chunks(a + x, i + 1, w, n);
        assert((a + x) + w =~= a + v);
    }
}
proof fn lemma_values_count(v: Seq<f32>, nch: nat, n: nat)
    requires v.len() == nch * n, v.len() > 0,
    ensures nch > 0, v.len() % nch == 0, v.len() / nch == n,
{
    assert(nch > 0) by (nonlinear_arith) requires v.len() == nch * n, v.len() > 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n as int, nch as int);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(n as int, nch as int);
    assert(nch * n == n * nch) by (nonlinear_arith);
}
proof fn lemma_row_len(t: Seq<Seq<u8>>, i: nat, n: nat)
    ensures row_values(t, i, n) is Ok ==> row_values(t, i, n)->Ok_0.len() == t.len(),
    decreases t.len(),
{ if t.len() > 0 { lemma_row_len(t.skip(1), i + 1, n); } }
proof fn lemma_bvh_arms(t: Seq<Tok>)
    requires lit_shape(t),
    ensures
        t.len() >= 12, t[1] == kw_ROOT(), kw_ROOT() != kw_MOTION(), t.len() == 12 ==> t[7] == n_0(),
        // the skeleton on its own
        ({ let u = seq![kw_HIERARCHY(), kw_ROOT(), t[2], Tok::Group(t[3]->Group_0), kw_MOTION(), kw_Frames(), p_colon(), n_0(), kw_Frame(), kw_Time(), p_colon(), t[11]];
           lit_shape(u) && (lit_sem(t) is Some ==> lit_sem(u) == Some(SLit { h: lit_sem(t)->0.h, m: SMotion { time: lit_sem(t)->0.m.time, values: Seq::empty() } })) }),
        lit_sem(t) is Some ==> lit_sem(t)->0.m.values.len() == t.len() - 12,
{
    lemma_kws();
    axiom_lex_zero();
    let u = seq![kw_HIERARCHY(), kw_ROOT(), t[2], Tok::Group(t[3]->Group_0), kw_MOTION(), kw_Frames(), p_colon(), n_0(), kw_Frame(), kw_Time(), p_colon(), t[11]];
    assert(u[2] == t[2] && u[3] == t[3] && u[11] == t[11] && u[7] == n_0() && u.len() == 12);
    assert(lit_hier(u) == lit_hier(t));
    assert(texts(u.skip(12)).len() == 0);
    lemma_row_len(texts(t.skip(12)), 0, 0);
    if lit_sem(t) is Some { let h = lit_sem(t)->0.h; assert(h.nch * 0 == 0) by (nonlinear_arith); assert(row_of(texts(u.skip(12))) == Some(Seq::<f32>::empty())); assert(lit_sem(u) is Some); }
}
//@item src/macros.rs | macro bvh
//@macro
//@props C04 C17
//@pre #[verifier::spinoff_prover]
fn m_bvh(Ghost(toks): Ghost<Seq<Tok>>) -> ⟦~ Bvh ~> (r: Bvh)
    requires lit_rootless(toks) || (lit_shape(toks) && lit_sem(toks) is Some),
    ensures
        !lit_rootless(toks) ==> is_loaded(r, lit_sem(toks)->0.h, lit_sem(toks)->0.m),
        lit_rootless(toks) ==> r.joints@.len() == 0 && r.motion_values@.len() == 0 && r.num_channels == 0 && (toks.len() == 9 ==> r.frame_time == secs_of(toks[8])->0),
    decreases toks.len(), ⟧
{
⟦ proof { lemma_kws(); if lit_shape(toks) { lemma_bvh_arms(toks); lemma_root(toks); } if toks.len() == 9 && lit_rootless(toks) { assert(forall|i: int| 0 <= i < 8 ==> toks.take(8)[i] == #[trigger] toks[i]); } } ⟧
let ghost vx_m = toks.len() == 0;
if vx_when(Ghost(vx_m)) {
return { Bvh::default() };
}
let ghost vx_m = toks.len() == 2 && toks[0] == kw_HIERARCHY() && toks[1] == kw_MOTION();
if vx_when(Ghost(vx_m)) {
return { Bvh::default() };
}
let ghost vx_m = toks.len() == 5 && toks[0] == kw_HIERARCHY() && toks[1] == kw_MOTION() && toks[2] == kw_Frames() && toks[3] == p_colon() && toks[4] == n_0();
if vx_when(Ghost(vx_m)) {
return { Bvh::default() };
}
let ghost vx_m = toks.len() == 9 && toks[0] == kw_HIERARCHY() && toks[1] == kw_MOTION() && toks[2] == kw_Frames() && toks[3] == p_colon() && toks[4] == n_0() && toks[5] == kw_Frame() && toks[6] == kw_Time() && toks[7] == p_colon() && toks[8] is Lit;
if vx_when(Ghost(vx_m)) {
let ghost frame_time = toks[8];
return { { let mut bvh = Bvh::default(); bvh.set_frame_time(Duration::from_secs_f64(vx_f64(Ghost(frame_time)))); bvh } };
}
let ghost vx_m = toks.len() == 12 && toks[0] == kw_HIERARCHY() && toks[1] == kw_ROOT() && toks[2] is Id && toks[3] is Group && toks[3]->Group_0.len() >= 0 && toks[4] == kw_MOTION() && toks[5] == kw_Frames() && toks[6] == p_colon() && toks[7] == n_0() && toks[8] == kw_Frame() && toks[9] == kw_Time() && toks[10] == p_colon() && toks[11] is Lit;
if vx_when(Ghost(vx_m)) {
let ghost root_name = toks[2]; let ghost joints = toks[3]->Group_0; let ghost frame_time = toks[11];
return { { let mut builder = BvhLiteralBuilder::default(); ⟦ let ghost h = rooted(root_name.text()); let ghost g = wrun(h, body_lines(joints))->Ok_0; ⟧ builder.push_root(vx_stringify(Ghost(root_name))); builder.current_depth += 1; ⟦ proof { lemma_built_same(builder, declare(HState { phase: Phase::NeedRoot, ..h_start() }, root_name.text()), h); } ⟧ m_parse_joints_internal(&mut builder, Ghost(joints)⟦ , Ghost(h) ⟧); builder.current_depth -= 1; builder.set_num_channels(); ⟦ proof { assert(lit_sem(toks)->0.m.values =~= Seq::empty()); assert(builder.bvh.motion_values@ =~= Seq::empty()); assert(builder.built(g)); } ⟧ builder.bvh.set_frame_time(Duration::from_secs_f64(vx_f64(Ghost(frame_time)))); builder.bvh } };
}
let ghost vx_m = toks.len() >= 12 && toks[0] == kw_HIERARCHY() && toks[1] == kw_ROOT() && toks[2] is Id && toks[3] is Group && toks[3]->Group_0.len() >= 0 && toks[4] == kw_MOTION() && toks[5] == kw_Frames() && toks[6] == p_colon() && toks[7] is Lit && toks[8] == kw_Frame() && toks[9] == kw_Time() && toks[10] == p_colon() && toks[11] is Lit && all_literal(toks.skip(12)) && toks.len() > 12;
if vx_when(Ghost(vx_m)) {
let ghost root_name = toks[2]; let ghost joints = toks[3]->Group_0; let ghost num_frames = toks[7]; let ghost frame_time = toks[11]; let ghost motion = toks.skip(12);
return { { let mut new_bvh = { let ghost vx_t = seq![kw_HIERARCHY(), kw_ROOT(), root_name, Tok::Group(joints), kw_MOTION(), kw_Frames(), p_colon(), n_0(), kw_Frame(), kw_Time(), p_colon(), frame_time]; m_bvh(Ghost(vx_t)) }; let num_channels = new_bvh.num_channels(); ⟦ let ghost v = lit_sem(toks)->0.m.values; proof { lemma_values_count(v, num_channels as nat, lex_usize(num_frames.text())->Ok_0 as nat); lemma_insert_chunks(Seq::empty(), 0, v, num_channels as nat); assert(Seq::<f32>::empty() + v =~= v); assert(new_bvh.motion_values@ =~= Seq::empty()); }
vx_expect( ⟧ new_bvh.frame_cursor().try_insert_frames(vx_all_f32(Ghost(motion)).chunks(num_channels))⟦~ .expect("Could not create bvh type from macro literal") ~> ) ⟧; vx_assert((new_bvh.frames().len()) == (vx_usize(Ghost(num_frames)))); new_bvh } };
}
vx_no_arm()
}
//@raw
//@props C04 C17
// ---------------------------------------------------------------- C17: the literal and the file with the same text
// the lines which are not empty, as words
spec fn stmts(s: SLines) -> Lines decreases s.len() { if s.len() == 0 { Seq::empty() } else { (if words(s[0]->Ok_0).len() > 0 { seq![words(s[0]->Ok_0)] } else { Seq::empty() }) + stmts(s.skip(1)) } }
spec fn all_fields(s: SLines) -> Seq<Seq<u8>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { unicode_fields(s[0]->Ok_0) + all_fields(s.skip(1)) } }
spec fn found(f: Found) -> bool { f.line is Some && f.line->0 is Ok }
spec fn text(f: Found) -> Seq<u8> { f.line->0->Ok_0 }
// The file s has the text of the literal t, a statement per line: its first k lines are the hierarchy.
spec fn text_of(s: SLines, t: Seq<Tok>, k: nat) -> bool {
    let f0 = next_line(s.skip(k as int), k);
    let f1 = next_line(f0.rest, f0.n);
    let f2 = next_line(f1.rest, f1.n);
    &&& 0 < k <= s.len() && all_read(s.take(k as int)) && words(s[k - 1]->Ok_0).len() > 0 && stmts(s.take(k as int)) == lit_hier(t)
    &&& found(f0) && unicode_trim(text(f0)) == bs"MOTION"
    &&& found(f1) && words(unicode_trim(text(f1))) == seq![bs"Frames", t[7].text()]
    &&& found(f2) && unicode_fields(text(f2)) == seq![bs"Frame", bs"Time:", t[11].text()]
    &&& all_read(f2.rest) && all_fields(f2.rest) == texts(t.skip(12))
}
proof fn lemma_run_lines(s: SLines, n: nat, h: HState, k: nat)
    requires k <= s.len(), all_read(s.take(k as int)), k > 0 ==> words(s[k - 1]->Ok_0).len() > 0,
    ensures
        wrun(h, stmts(s.take(k as int))) is Err ==> run(s, n, h).res is Err,
        wrun(h, stmts(s.take(k as int))) is Ok && wrun(h, stmts(s.take(k as int)))->Ok_0.phase is Done ==> run(s, n, h) == (HRun { res: Ok(wrun(h, stmts(s.take(k as int)))->Ok_0), rest: s.skip(k as int), at: n + k }),
    decreases k,
{
    let a = s.take(k as int);
    if k == 0 { assert(s.skip(0) =~= s); }
    else {
        let w = words(s[0]->Ok_0);
        let r = s.skip(1);
        assert(a[0] is Ok && a[0] == s[0]);
        assert(a.skip(1) =~= r.take(k - 1));
        assert forall|i: int| 0 <= i < r.take(k - 1).len() implies #[trigger] r.take(k - 1)[i] is Ok by { assert(a[i + 1] is Ok); }
        assert(r.skip(k - 1) =~= s.skip(k as int));
        if k > 1 { assert(r[k - 2] == s[k - 1]); }
        lemma_step_n(h, w, n);
        if w.len() == 0 {
            assert(Seq::<Seq<Seq<u8>>>::empty() + stmts(a.skip(1)) =~= stmts(a.skip(1)));
            assert(stmts(a) == stmts(r.take(k - 1)));
            lemma_some_stmt(a);
            lemma_run_lines(r, n + 1, h, (k - 1) as nat);
        } else {
            let ls = stmts(a);
            assert(ls[0] == w && ls.skip(1) =~= stmts(r.take(k - 1)));
            if st(h, w) is Some { lemma_run_lines(r, n + 1, st(h, w)->Some_0, (k - 1) as nat); }
        }
    }
}
proof fn lemma_some_stmt(a: SLines)
    requires a.len() > 0, words(a.last()->Ok_0).len() > 0,
    ensures stmts(a).len() > 0,
    decreases a.len(),
{ if a.len() > 1 { assert(a.skip(1).last() == a.last()); lemma_some_stmt(a.skip(1)); } }
proof fn lemma_row_values_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, i: nat, n: nat)
    requires row_values(a, i, n) is Ok,
    ensures
        row_values(a, 0, 0) == Ok::<Seq<f32>, LoadMotionError>(row_values(a, i, n)->Ok_0),
        row_values(b, 0, 0) is Ok ==> row_values(a + b, 0, 0) is Ok && row_values(a + b, 0, 0)->Ok_0 == row_values(a, i, n)->Ok_0 + row_values(b, 0, 0)->Ok_0,
    decreases a.len(),
{
    lemma_row_n(a, i, n, 0, 0);
    if a.len() == 0 { assert(a + b =~= b); if row_values(b, 0, 0) is Ok { assert(Seq::<f32>::empty() + row_values(b, 0, 0)->Ok_0 =~= row_values(b, 0, 0)->Ok_0); } }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_row_values_add(a.skip(1), b, i + 1, n);
        if row_values(b, 0, 0) is Ok {
            lemma_row_n(a.skip(1) + b, 0, 0, 1, 0);
            let x = seq![lex_f32(a[0])->Ok_0];
            let p = row_values(a.skip(1), i + 1, n)->Ok_0;
            assert((x + p) + row_values(b, 0, 0)->Ok_0 =~= x + (p + row_values(b, 0, 0)->Ok_0));
        }
    }
}
proof fn lemma_row_n(t: Seq<Seq<u8>>, i: nat, n: nat, j: nat, m: nat)
    ensures row_values(t, i, n) is Ok == row_values(t, j, m) is Ok, row_values(t, i, n) is Ok ==> row_values(t, i, n)->Ok_0 == row_values(t, j, m)->Ok_0,
    decreases t.len(),
{ if t.len() > 0 { lemma_row_n(t.skip(1), i + 1, n, j + 1, m); } }
proof fn lemma_all_values(s: SLines, n: nat)
    requires all_values(s, n) is Ok,
    ensures row_of(all_fields(s)) == Some(all_values(s, n)->Ok_0),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_all_values(s.skip(1), n + 1);
        lemma_row_values_add(unicode_fields(s[0]->Ok_0), all_fields(s.skip(1)), 0, n);
    }
}
// A text which loads describes the same skeleton and motion as the literal.
proof fn lemma_literal(s: SLines, t: Seq<Tok>, k: nat, r: Result<Bvh, LoadError>)
    requires lit_shape(t), text_of(s, t, k), loads(s, r), r is Ok,
    ensures lit_sem(t) is Some, forall|b: Bvh| is_loaded(b, lit_sem(t)->0.h, lit_sem(t)->0.m) ==> #[trigger] loads(s, Ok::<Bvh, LoadError>(b)),
{
    lemma_root(t);
    lemma_run_lines(s, 0, h_start(), k);
    let g = wrun(h_start(), lit_hier(t))->Ok_0;
    let f0 = next_line(s.skip(k as int), k);
    let f1 = next_line(f0.rest, f0.n);
    let f2 = next_line(f1.rest, f1.n);
    assert(run(s, 0, h_start()).res == Ok::<HState, SErr>(g));
    assert(motion(s.skip(k as int), k, g.nch) is Ok);
    assert(motion1(f0.rest, f0.n, g.nch) is Ok);
    let w = words(unicode_trim(text(f1)));
    assert(w[0] == bs"Frames" && w[1] == t[7].text() && w.len() == 2);
    assert(frames_of(f1.line->0, f1.at) is Ok);
    let u = unicode_fields(text(f2));
    assert(u[0] == bs"Frame" && u[1] == bs"Time:" && u[2] == t[11].text() && u.len() == 3);
    assert(time_of(f2.line->0, f2.at) is Ok);
    assert(u[2] != bs":");
    lemma_all_values(f2.rest, f2.n);
}
// The literal is a motion which loading its text may return.
fn vx_literal(Ghost(toks): Ghost<Seq<Tok>>, Ghost(s): Ghost<SLines>, Ghost(k): Ghost<nat>, Ghost(r): Ghost<Result<Bvh, LoadError>>) -> (b: Bvh)
    requires lit_shape(toks), text_of(s, toks, k), loads(s, r), r is Ok,
    ensures loads(s, Ok::<Bvh, LoadError>(b)), wf_tree(b.joints@), wf_numbers(b.joints@, b.num_channels as nat),
{
    proof { lemma_literal(s, toks, k, r); assert(lit_rootless(toks) ==> false) by { lemma_kws(); if toks.len() == 9 { } } }
    let b = m_bvh(Ghost(toks));
    proof { lemma_loads_wf(s, Ok::<Bvh, LoadError>(b)); }
    b
}
