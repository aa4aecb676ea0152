//@raw
//@props C02 C03 C04 C06
// ================================================================ the hierarchy section: what a file means (C02, C03, C04, C06)
// A joint as declared in the file.
ghost struct SJoint {
    name: Seq<u8>,
    offset: Seq<f32>,
    channels: Seq<(ChannelType, nat)>,
    end: Option<Seq<f32>>,
    parent: Option<nat>,
    depth: nat,
}
ghost enum Phase { Start, NeedRoot, Body, Done }
// Where a reader of the file stands: the joints declared so far; the joints whose braces are open, innermost last;
// `open`: an opening brace must come next; `in_end`: inside an End Site; `sealed`: the innermost joint is complete
// except for further children; `nch`: the channels declared so far.
ghost struct HState {
    phase: Phase,
    joints: Seq<SJoint>,
    stack: Seq<int>,
    open: bool,
    in_end: bool,
    sealed: bool,
    nch: nat,
}
ghost enum SErr {
    Io(IoErr),
    MissingRoot,
    Name(nat),
    Keyword(nat),
    Channels(nat),
    NumChannels(Option<LexErr>, nat),
    Channel(Seq<u8>, nat),
    OffsetSection(nat),
    ParseOffset(LexErr, Axis, nat),
    MissingAxis(Axis, nat),
}
spec fn jerr_is(e: LoadJointsError, s: SErr) -> bool {
    match s {
        SErr::Io(x) => e == LoadJointsError::Io(x),
        SErr::MissingRoot => e is MissingRoot,
        SErr::Name(n) => e == (LoadJointsError::MissingJointName { line: n as usize }),
        SErr::Keyword(n) => e == (LoadJointsError::UnexpectedKeyword { line: n as usize }),
        SErr::Channels(n) => e == (LoadJointsError::UnexpectedChannelsSection { line: n as usize }),
        SErr::NumChannels(x, n) => e == (LoadJointsError::ParseNumChannelsError { error: x, line: n as usize }),
        SErr::Channel(b, n) => match e { LoadJointsError::ParseChannelError { error, line } => error.bad_string@ == b && line == n, _ => false },
        SErr::OffsetSection(n) => e == (LoadJointsError::UnexpectedOffsetSection { line: n as usize }),
        SErr::ParseOffset(x, a, n) => e == (LoadJointsError::ParseOffsetError { parse_float_error: x, axis: a, line: n as usize }),
        SErr::MissingAxis(a, n) => e == (LoadJointsError::MissingOffsetAxis { axis: a, line: n as usize }),
    }
}
spec fn zero3() -> Seq<f32> { seq![0.0f32, 0.0f32, 0.0f32] }
spec fn h_start() -> HState {
    HState { phase: Phase::Start, joints: Seq::empty(), stack: Seq::empty(), open: false, in_end: false, sealed: false, nch: 0 }
}
// a new joint: a child of the innermost open joint
spec fn declare(h: HState, name: Seq<u8>) -> HState {
    HState {
        phase: Phase::Body,
        joints: h.joints.push(SJoint {
            name, offset: zero3(), channels: Seq::empty(), end: None,
            parent: if h.stack.len() == 0 { None } else { Some(h.stack.last() as nat) },
            depth: h.stack.len(),
        }),
        stack: h.stack.push(h.joints.len() as int),
        open: true,
        sealed: false,
        ..h
    }
}
// the innermost open joint
spec fn top(h: HState) -> SJoint { h.joints[h.stack.last()] }
spec fn set_top(h: HState, j: SJoint) -> HState { HState { joints: h.joints.update(h.stack.last(), j), ..h } }
spec fn axis_no(k: int) -> Axis { if k == 0 { Axis::X } else if k == 1 { Axis::Y } else { Axis::Z } }
// the three numbers behind OFFSET, or the first thing wrong with them
spec fn axes(toks: Seq<Seq<u8>>, k: int, n: nat) -> Result<Seq<f32>, SErr> decreases 3 - k {
    if k >= 3 { Ok(Seq::empty()) }
    else if toks.len() < k + 2 { Err(SErr::MissingAxis(axis_no(k), n)) }
    else {
        match lex_f32(toks[k + 1]) {
            Err(e) => Err(SErr::ParseOffset(e, axis_no(k), n)),
            Ok(x) => match axes(toks, k + 1, n) { Err(e) => Err(e), Ok(r) => Ok(seq![x] + r) },
        }
    }
}
spec fn channel_of(s: Seq<u8>) -> ChannelType { choose|t: ChannelType| channel_name(t) == s }
// the channels named by the tokens, numbered from nch, or the first one which is none
spec fn channels_of(ts: Seq<Seq<u8>>, nch: nat) -> Result<Seq<(ChannelType, nat)>, Seq<u8>> decreases ts.len() {
    if ts.len() == 0 { Ok(Seq::empty()) }
    else if !is_channel_name(ts[0]) { Err(ts[0]) }
    else {
        match channels_of(ts.skip(1), nch + 1) { Err(b) => Err(b), Ok(r) => Ok(seq![(channel_of(ts[0]), nch)] + r) }
    }
}
// One line of the hierarchy with number n.
spec fn step(h: HState, toks: Seq<Seq<u8>>, n: nat) -> Result<HState, SErr> {
    let in_body = h.phase is Body && !h.open;
    if toks.len() == 0 { Ok(h) }
    else if toks[0] == bs"HIERARCHY" {
        if h.phase is Start { Ok(HState { phase: Phase::NeedRoot, ..h }) } else { Err(SErr::Keyword(n)) }
    } else if toks[0] == bs"ROOT" {
        if !(h.phase is NeedRoot) { Err(SErr::Keyword(n)) }
        else if toks.len() < 2 { Err(SErr::Name(n)) }
        else { Ok(declare(h, toks[1])) }
    } else if toks[0] == bs"{" {
        if h.open { Ok(HState { open: false, ..h }) } else { Err(SErr::Keyword(n)) }
    } else if toks[0] == bs"}" {
        if !in_body { Err(SErr::Keyword(n)) }
        else if h.in_end { Ok(HState { in_end: false, sealed: true, ..h }) }
        else { Ok(HState { stack: h.stack.drop_last(), sealed: true, phase: if h.stack.len() == 1 { Phase::Done } else { h.phase }, ..h }) }
    } else if toks[0] == bs"End" {
        if in_body && !h.in_end && !h.sealed && toks.len() >= 2 && toks[1] == bs"Site" { Ok(HState { in_end: true, open: true, ..h }) }
        else { Err(SErr::Keyword(n)) }
    } else if toks[0] == bs"JOINT" {
        if !in_body || h.in_end { Err(SErr::Keyword(n)) }
        else if toks.len() < 2 { Err(SErr::Name(n)) }
        else { Ok(declare(h, toks[1])) }
    } else if toks[0] == bs"OFFSET" {
        if !in_body || h.sealed { Err(SErr::OffsetSection(n)) }
        else {
            match axes(toks, 0, n) {
                Err(e) => Err(e),
                Ok(o) => Ok(set_top(h, if h.in_end { SJoint { end: Some(o), ..top(h) } } else { SJoint { offset: o, ..top(h) } })),
            }
        }
    } else if toks[0] == bs"CHANNELS" {
        if !in_body || h.in_end || h.sealed || top(h).channels.len() > 0 { Err(SErr::Channels(n)) }
        else if toks.len() < 2 { Err(SErr::NumChannels(None, n)) }
        else {
            match lex_usize(toks[1]) {
                Err(e) => Err(SErr::NumChannels(Some(e), n)),
                Ok(_) => match channels_of(toks.skip(2), h.nch) {
                    Err(b) => Err(SErr::Channel(b, n)),
                    Ok(c) => Ok(HState { nch: h.nch + c.len(), ..set_top(h, SJoint { channels: c, ..top(h) }) }),
                },
            }
        }
    } else { Ok(h) }
}
ghost struct HRun { res: Result<HState, SErr>, rest: SLines, at: nat }
// The hierarchy section: lines up to the brace that closes the root joint.
spec fn run(r: SLines, n: nat, h: HState) -> HRun decreases r.len() {
    if h.phase is Done { HRun { res: Ok(h), rest: r, at: n } }
    else if r.len() == 0 { HRun { res: Err(SErr::MissingRoot), rest: r, at: n } }
    else {
        match r[0] {
            Err(e) => HRun { res: Err(SErr::Io(e)), rest: r.skip(1), at: n + 1 },
            Ok(l) => match step(h, words(l), n) {
                Err(e) => HRun { res: Err(e), rest: r.skip(1), at: n + 1 },
                Ok(h2) => run(r.skip(1), n + 1, h2),
            },
        }
    }
}

// ---------------------------------------------------------------- what holds of every state: a tree in depth first order
spec fn total_channels(js: Seq<SJoint>) -> nat decreases js.len() { if js.len() == 0 { 0 } else { total_channels(js.drop_last()) + js.last().channels.len() } }
// C02: every joint but the first has an earlier parent, one level up, and all joints between them are below the parent
spec fn parent_ok(js: Seq<SJoint>, i: int) -> bool { js[i].parent is Some && js[i].parent->0 < i && js[i].depth == js[js[i].parent->0 as int].depth + 1 }
spec fn between_ok(js: Seq<SJoint>, i: int, k: int) -> bool { js[k].depth >= js[i].depth }
spec fn tree(js: Seq<SJoint>) -> bool {
    &&& js.len() > 0 ==> js[0].parent is None && js[0].depth == 0
    &&& forall|i: int| 0 < i < js.len() ==> #[trigger] parent_ok(js, i)
    &&& forall|i: int, k: int| 0 < i < js.len() && js[i].parent->0 < k < i ==> #[trigger] between_ok(js, i, k)
}
// C04: the channels are numbered consecutively in declaration order
spec fn number_ok(js: Seq<SJoint>, i: int, c: int) -> bool { js[i].channels[c].1 == total_channels(js.take(i)) + c }
spec fn numbered(js: Seq<SJoint>) -> bool {
    forall|i: int, c: int| 0 <= i < js.len() && 0 <= c < js[i].channels.len() ==> #[trigger] number_ok(js, i, c)
}
// the k-th open joint: at depth k, below the one before it, and everything declared after it is deeper
spec fn open_ok(js: Seq<SJoint>, st: Seq<int>, k: int) -> bool {
    0 <= st[k] < js.len() && js[st[k]].depth == k && (k > 0 ==> st[k - 1] < st[k] && js[st[k]].parent == Some(st[k - 1] as nat))
}
spec fn below_ok(js: Seq<SJoint>, st: Seq<int>, k: int, i: int) -> bool { js[i].depth > k }
spec fn hinv(h: HState) -> bool {
    let (js, st) = (h.joints, h.stack);
    &&& h.phase is Start || h.phase is NeedRoot ==> js.len() == 0 && st.len() == 0 && !h.open && !h.in_end && !h.sealed && h.nch == 0
    &&& h.phase is Body ==> st.len() > 0
    &&& h.phase is Done ==> st.len() == 0 && js.len() > 0 && !h.open && !h.in_end && h.sealed
    &&& h.open ==> h.phase is Body && !h.sealed
    &&& h.in_end ==> h.phase is Body && !h.sealed
    &&& st.len() > 0 ==> st[0] == 0
    &&& forall|k: int| 0 <= k < st.len() ==> #[trigger] open_ok(js, st, k)
    &&& forall|k: int, i: int| 0 <= k < st.len() && st[k] < i < js.len() ==> #[trigger] below_ok(js, st, k, i)
    &&& h.phase is Body && !h.sealed ==> st.last() == js.len() - 1
    &&& tree(js) && numbered(js) && h.nch == total_channels(js)
}
proof fn lemma_channels_of(ts: Seq<Seq<u8>>, nch: nat)
    ensures channels_of(ts, nch) is Ok ==> ({ let c = channels_of(ts, nch)->Ok_0; c.len() == ts.len() && forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> c[i].1 == nch + i && channel_name(c[i].0) == ts[i] }),
    decreases ts.len(),
{
    if ts.len() > 0 && is_channel_name(ts[0]) {
        lemma_channels_of(ts.skip(1), nch + 1);
        if channels_of(ts, nch) is Ok {
            let r = channels_of(ts.skip(1), nch + 1)->Ok_0;
            let c = channels_of(ts, nch)->Ok_0;
            assert(c =~= seq![(channel_of(ts[0]), nch)] + r);
            assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() implies c[i].1 == nch + i && channel_name(c[i].0) == ts[i] by {
                if i > 0 { assert(c[i] == r[i - 1]); assert(ts.skip(1)[i - 1] == ts[i]); }
            }
        }
    }
}
proof fn lemma_total_push(js: Seq<SJoint>, j: SJoint)
    ensures total_channels(js.push(j)) == total_channels(js) + j.channels.len(),
{ assert(js.push(j).drop_last() =~= js); }
proof fn lemma_declare(h: HState, name: Seq<u8>)
    requires hinv(h), h.phase is NeedRoot || (h.phase is Body && !h.open && !h.in_end),
    ensures hinv(declare(h, name)),
{
    let h2 = declare(h, name);
    let (js, st, js2, st2) = (h.joints, h.stack, h2.joints, h2.stack);
    let n = js.len() as int;
    let m = st.len() as int;
    lemma_total_push(js, js2[n]);
    if m > 0 { assert(open_ok(js, st, m - 1)); assert(open_ok(js, st, 0)); }
    assert forall|i: int, c: int| 0 <= i < js2.len() && 0 <= c < js2[i].channels.len() implies #[trigger] number_ok(js2, i, c) by {
        assert(i < n);
        assert(js2.take(i) =~= js.take(i));
        assert(number_ok(js, i, c));
    }
    assert forall|i: int| 0 < i < js2.len() implies #[trigger] parent_ok(js2, i) by {
        if i < n { assert(parent_ok(js, i)); }
    }
    assert forall|i: int, k: int| 0 < i < js2.len() && js2[i].parent->0 < k < i implies #[trigger] between_ok(js2, i, k) by {
        if i == n { assert(below_ok(js, st, m - 1, k)); } else { assert(between_ok(js, i, k)); }
    }
    assert forall|k: int| 0 <= k < st2.len() implies #[trigger] open_ok(js2, st2, k) by {
        if k < m { assert(open_ok(js, st, k)); }
    }
    assert forall|k: int, i: int| 0 <= k < st2.len() && st2[k] < i < js2.len() implies #[trigger] below_ok(js2, st2, k, i) by {
        assert(k < m);
        if i < n { assert(below_ok(js, st, k, i)); }
    }
}
// changing the attributes of the innermost joint leaves the tree alone
proof fn lemma_set_top(h: HState, j: SJoint, nch: nat)
    requires
        hinv(h), h.phase is Body, !h.sealed, j.parent == top(h).parent, j.depth == top(h).depth,
        nch == h.nch - top(h).channels.len() + j.channels.len(),
        forall|c: int| #![trigger j.channels[c]] 0 <= c < j.channels.len() ==> j.channels[c].1 == h.nch - top(h).channels.len() + c,
    ensures hinv(HState { nch, ..set_top(h, j) }),
{
    let h2 = HState { nch, ..set_top(h, j) };
    let (js, st, js2) = (h.joints, h.stack, h2.joints);
    let n = js.len() - 1;
    assert(open_ok(js, st, st.len() - 1));
    assert(js.drop_last() =~= js2.drop_last());
    assert(js.drop_last() =~= js.take(n));
    assert forall|i: int, c: int| 0 <= i < js2.len() && 0 <= c < js2[i].channels.len() implies #[trigger] number_ok(js2, i, c) by {
        assert(js2.take(i) =~= js.take(i));
        if i == n { assert(js2[i].channels[c] == j.channels[c]); } else { assert(number_ok(js, i, c)); }
    }
    assert forall|i: int| 0 < i < js2.len() implies #[trigger] parent_ok(js2, i) by { assert(parent_ok(js, i)); }
    assert forall|i: int, k: int| 0 < i < js2.len() && js2[i].parent->0 < k < i implies #[trigger] between_ok(js2, i, k) by { assert(between_ok(js, i, k)); }
    assert forall|k: int| 0 <= k < st.len() implies #[trigger] open_ok(js2, st, k) by { assert(open_ok(js, st, k)); }
    assert forall|k: int, i: int| 0 <= k < st.len() && st[k] < i < js2.len() implies #[trigger] below_ok(js2, st, k, i) by { assert(below_ok(js, st, k, i)); }
}
proof fn lemma_axes(toks: Seq<Seq<u8>>, n: nat)
    ensures axes(toks, 0, n) is Ok ==> axes(toks, 0, n)->Ok_0.len() == 3,
{
    reveal_with_fuel(axes, 5);
}
// C02, C04: every line keeps the tree and the numbering
proof fn lemma_step_inv(h: HState, toks: Seq<Seq<u8>>, n: nat)
    requires hinv(h), !(h.phase is Done), step(h, toks, n) is Ok,
    ensures hinv(step(h, toks, n)->Ok_0),
{
    let h2 = step(h, toks, n)->Ok_0;
    let (js, st) = (h.joints, h.stack);
    if toks.len() == 0 {
    } else if toks[0] == bs"HIERARCHY" {
    } else if toks[0] == bs"ROOT" { lemma_declare(h, toks[1]);
    } else if toks[0] == bs"{" {
    } else if toks[0] == bs"}" {
        if !h.in_end {
            assert(open_ok(js, st, 0));
            assert forall|k: int| 0 <= k < h2.stack.len() implies #[trigger] open_ok(js, h2.stack, k) by { assert(open_ok(js, st, k)); }
            assert forall|k: int, i: int| 0 <= k < h2.stack.len() && h2.stack[k] < i < js.len() implies #[trigger] below_ok(js, h2.stack, k, i) by { assert(below_ok(js, st, k, i)); }
        }
    } else if toks[0] == bs"End" {
    } else if toks[0] == bs"JOINT" { lemma_declare(h, toks[1]);
    } else if toks[0] == bs"OFFSET" {
        let o = axes(toks, 0, n)->Ok_0;
        let j = if h.in_end { SJoint { end: Some(o), ..top(h) } } else { SJoint { offset: o, ..top(h) } };
        assert(open_ok(js, st, st.len() - 1));
        lemma_total_push(js.drop_last(), js.last());
        assert(js.drop_last().push(js.last()) =~= js);
        assert forall|c: int| #![trigger j.channels[c]] 0 <= c < j.channels.len() implies j.channels[c].1 == h.nch - top(h).channels.len() + c by {
            assert(js.take(js.len() - 1) =~= js.drop_last());
            assert(number_ok(js, js.len() - 1, c));
        }
        lemma_set_top(h, j, h.nch);
    } else if toks[0] == bs"CHANNELS" {
        let c = channels_of(toks.skip(2), h.nch)->Ok_0;
        lemma_channels_of(toks.skip(2), h.nch);
        lemma_set_top(h, SJoint { channels: c, ..top(h) }, h.nch + c.len());
    }
}
proof fn lemma_run_inv(r: SLines, n: nat, h: HState)
    requires hinv(h),
    ensures run(r, n, h).res is Ok ==> hinv(run(r, n, h).res->Ok_0) && run(r, n, h).res->Ok_0.phase is Done,
    decreases r.len(),
{
    if !(h.phase is Done) && r.len() > 0 && r[0] is Ok {
        let l = r[0]->Ok_0;
        if step(h, words(l), n) is Ok { lemma_step_inv(h, words(l), n); lemma_run_inv(r.skip(1), n + 1, step(h, words(l), n)->Ok_0); }
    }
}
