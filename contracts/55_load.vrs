//@raw
//@props C01 C02 C04
// ================================================================ src/lib.rs: loading (C01 - C06, C18)
pub assume_specification [core::time::Duration::from_secs] (s: u64) -> core::time::Duration;

// bstr::BStr: bytes
struct BStr<'a> { b: &'a [u8] }
impl<'a> BStr<'a> { fn as_bytes(&self) -> (r: &'a [u8]) ensures r@ == self.b@ { self.b } }

// What loading these lines gives.
spec fn loads(s: SLines, r: Result<Bvh, LoadError>) -> bool {
    let q = run(s, 0, h_start());
    match q.res {
        Err(e) => r is Err && r->Err_0.kind is Joints && jerr_is(r->Err_0.kind->Joints_0, e),
        Ok(h) => match motion(q.rest, q.at, h.nch) {
            Err(e) => r is Err && r->Err_0.kind == LoadErrorKind::Motion(e),
            Ok(m) => r is Ok && is_loaded(r->Ok_0, h, m),
        },
    }
}
spec fn is_loaded(b: Bvh, h: HState, m: SMotion) -> bool {
    joints_ok(b.joints@, h.joints) && b.num_channels == h.nch && b.frame_time == m.time && b.motion_values@ == m.values
}

// ---------------------------------------------------------------- C02: a loaded skeleton is a tree in declaration order
spec fn child_ok(js: Seq<JointData>, i: int) -> bool {
    js[i].s_private() is Some && js[i].s_private()->0.self_index == i && js[i].s_private()->0.parent_index < i
        && js[i].s_depth() == js[js[i].s_private()->0.parent_index as int].s_depth() + 1
}
spec fn inside(js: Seq<JointData>, i: int, k: int) -> bool { js[k].s_depth() >= js[i].s_depth() }
spec fn wf_tree(js: Seq<JointData>) -> bool {
    &&& js.len() > 0 && js[0].s_private() is None
    &&& forall|i: int| 0 < i < js.len() ==> #[trigger] child_ok(js, i)
    &&& forall|i: int, k: int| 0 < i < js.len() && js[i].s_private()->0.parent_index < k < i ==> #[trigger] inside(js, i, k)
}
// C04: and its channels are numbered consecutively
spec fn index_ok(js: Seq<JointData>, i: int, c: int) -> bool { js[i].s_channels()[c].motion_index == sum_channels(js.take(i)) + c }
spec fn wf_numbers(js: Seq<JointData>, n: nat) -> bool {
    sum_channels(js) == n && forall|i: int, c: int| 0 <= i < js.len() && 0 <= c < js[i].s_channels().len() ==> #[trigger] index_ok(js, i, c)
}
proof fn lemma_loaded(js: Seq<JointData>, h: HState)
    requires hinv(h), h.phase is Done, joints_ok(js, h.joints),
    ensures wf_tree(js), wf_numbers(js, h.nch),
{
    let ss = h.joints;
    assert(ss.take(ss.len() as int) =~= ss);
    lemma_sum(h, js);
    assert(stored(js, ss, 0));
    assert forall|i: int| 0 <= i < js.len() implies #[trigger] js[i].s_depth() == ss[i].depth by { assert(stored(js, ss, i)); if i == 0 { } else { assert(parent_ok(ss, i)); } }
    assert forall|i: int| 0 < i < js.len() implies #[trigger] child_ok(js, i) by { assert(stored(js, ss, i)); assert(parent_ok(ss, i)); assert(js[ss[i].parent->0 as int].s_depth() == ss[ss[i].parent->0 as int].depth); }
    assert forall|i: int, k: int| 0 < i < js.len() && js[i].s_private()->0.parent_index < k < i implies #[trigger] inside(js, i, k) by {
        assert(stored(js, ss, i)); assert(parent_ok(ss, i)); assert(between_ok(ss, i, k));
    }
    assert forall|i: int, c: int| 0 <= i < js.len() && 0 <= c < js[i].s_channels().len() implies #[trigger] index_ok(js, i, c) by {
        assert(stored(js, ss, i));
        assert(js[i].s_channels()[c].motion_index == ss[i].channels[c].1);
        assert(number_ok(ss, i, c));
        let t = js.take(i);
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] stored(t, ss, k) by { assert(stored(js, ss, k)); }
        lemma_sum(h, t);
    }
}
// C04: every column of a frame belongs to exactly one channel
spec fn column_of(js: Seq<JointData>, i: int, c: int, m: nat) -> bool { 0 <= i < js.len() && 0 <= c < js[i].s_channels().len() && js[i].s_channels()[c].motion_index == m }
spec fn has_column(js: Seq<JointData>, m: nat) -> bool { exists|i: int, c: int| #[trigger] column_of(js, i, c, m) }
proof fn lemma_sum_take(js: Seq<JointData>, i: int)
    requires 0 <= i < js.len(),
    ensures sum_channels(js.take(i + 1)) == sum_channels(js.take(i)) + js[i].s_channels().len(), sum_channels(js.take(i + 1)) <= sum_channels(js),
    decreases js.len() - i,
{
    assert(js.take(i + 1).drop_last() =~= js.take(i));
    if i + 1 < js.len() { lemma_sum_take(js, i + 1); } else { assert(js.take(i + 1) =~= js); }
}
proof fn lemma_sum_mono(js: Seq<JointData>, i: int, k: int)
    requires 0 <= i <= k <= js.len(),
    ensures sum_channels(js.take(i)) <= sum_channels(js.take(k)),
    decreases k - i,
{
    if i < k { lemma_sum_take(js, i); lemma_sum_mono(js, i + 1, k); }
}
proof fn lemma_columns(js: Seq<JointData>, n: nat)
    requires wf_numbers(js, n),
    ensures
        forall|m: nat| m < n ==> #[trigger] has_column(js, m),
        forall|m: nat, i: int, c: int, k: int, d: int| #[trigger] column_of(js, i, c, m) && #[trigger] column_of(js, k, d, m) ==> i == k && c == d && m < n,
{
    assert forall|m: nat| m < n implies #[trigger] has_column(js, m) by {
        assert(js.take(js.len() as int) =~= js);
        lemma_column_found(js, n, m, js.len() as int);
    }
    assert forall|m: nat, i: int, c: int, k: int, d: int| #[trigger] column_of(js, i, c, m) && #[trigger] column_of(js, k, d, m) implies i == k && c == d && m < n by {
        assert(index_ok(js, i, c)); assert(index_ok(js, k, d));
        lemma_sum_take(js, i); lemma_sum_take(js, k);
        if i < k { lemma_sum_mono(js, i + 1, k); }
        if k < i { lemma_sum_mono(js, k + 1, i); }
    }
}
proof fn lemma_column_found(js: Seq<JointData>, n: nat, m: nat, k: int)
    requires wf_numbers(js, n), 0 <= k <= js.len(), m < sum_channels(js.take(k)),
    ensures has_column(js, m),
    decreases k,
{
    if k > 0 {
        lemma_sum_take(js, k - 1);
        if m < sum_channels(js.take(k - 1)) { lemma_column_found(js, n, m, k - 1); }
        else {
            let c = m - sum_channels(js.take(k - 1));
            assert(index_ok(js, k - 1, c));
            assert(column_of(js, k - 1, c, m));
        }
    } else { assert(js.take(0) =~= Seq::empty()); }
}
// C02, C04 on the result of loading
proof fn lemma_loads_wf(s: SLines, r: Result<Bvh, LoadError>)
    requires loads(s, r),
    ensures r is Ok ==> wf_tree(r->Ok_0.joints@) && wf_numbers(r->Ok_0.joints@, r->Ok_0.num_channels as nat),
{
    lemma_run_inv(s, 0, h_start());
    if r is Ok { lemma_loaded(r->Ok_0.joints@, run(s, 0, h_start()).res->Ok_0); }
}
// ---------------------------------------------------------------- C01: no motion comes from a reader that fails
spec fn all_read(s: SLines) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok }
proof fn lemma_run_read(s: SLines, n: nat, h: HState)
    ensures run(s, n, h).res is Ok && all_read(run(s, n, h).rest) ==> all_read(s),
    decreases s.len(),
{
    if !(h.phase is Done) && s.len() > 0 && s[0] is Ok && step(h, words(s[0]->Ok_0), n) is Ok {
        lemma_run_read(s.skip(1), n + 1, step(h, words(s[0]->Ok_0), n)->Ok_0);
        lemma_read_cons(s);
    }
}
proof fn lemma_read_cons(s: SLines)
    requires s.len() > 0, s[0] is Ok,
    ensures all_read(s.skip(1)) ==> all_read(s),
{
    if all_read(s.skip(1)) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] is Ok by { if i > 0 { assert(s.skip(1)[i - 1] is Ok); } } }
}
proof fn lemma_next_read(s: SLines, n: nat)
    ensures ({ let f = next_line(s, n); f.line is Some && f.line->0 is Ok && all_read(f.rest) ==> all_read(s) }),
    decreases s.len(),
{
    lemma_blanks(s);
    if s.len() > 0 && s[0] is Ok {
        lemma_read_cons(s);
        if is_blank(s[0]->Ok_0) {
            lemma_next_read(s.skip(1), n + 1);
            let k = blanks(s.skip(1));
            if k < s.skip(1).len() { assert(s.skip(1).skip((k + 1) as int) =~= s.skip((k + 2) as int)); assert(s.skip(1)[k as int] == s[(k + 1) as int]); }
        } else { assert(s.skip(1) =~= s.skip((blanks(s) + 1) as int)); }
    }
}
proof fn lemma_values_read(s: SLines, n: nat)
    ensures all_values(s, n) is Ok ==> all_read(s),
    decreases s.len(),
{
    if s.len() > 0 && s[0] is Ok { lemma_values_read(s.skip(1), n + 1); lemma_read_cons(s); }
}
proof fn lemma_loads_read(s: SLines, r: Result<Bvh, LoadError>)
    requires loads(s, r), r is Ok,
    ensures all_read(s),
{
    let q = run(s, 0, h_start());
    let nch = q.res->Ok_0.nch;
    let f0 = next_line(q.rest, q.at);
    let f1 = next_line(f0.rest, f0.n);
    let f2 = next_line(f1.rest, f1.n);
    lemma_run_read(s, 0, h_start());
    lemma_next_read(q.rest, q.at);
    lemma_next_read(f0.rest, f0.n);
    lemma_next_read(f1.rest, f1.n);
    lemma_values_read(f2.rest, f2.n);
}
// C01: and when the lines before a failure are good, the failure is what is returned
spec fn io_of(r: Result<Bvh, LoadError>, e: IoErr) -> bool {
    r is Err && (r->Err_0.kind == LoadErrorKind::Joints(LoadJointsError::Io(e)) || r->Err_0.kind == LoadErrorKind::Motion(LoadMotionError::Io(e)))
}
proof fn lemma_run_io(s: SLines, n: nat, h: HState, e: IoErr)
    requires run(s, n, h).res == Err::<HState, SErr>(SErr::Io(e)),
    ensures exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<Seq<u8>, IoErr>(e),
    decreases s.len(),
{
    if !(h.phase is Done) && s.len() > 0 {
        if s[0] is Ok {
            lemma_axes_not_io(words(s[0]->Ok_0), 0, n);
            lemma_run_io(s.skip(1), n + 1, step(h, words(s[0]->Ok_0), n)->Ok_0, e);
            let i = choose|i: int| 0 <= i < s.skip(1).len() && #[trigger] s.skip(1)[i] == Err::<Seq<u8>, IoErr>(e);
            assert(s[i + 1] == s.skip(1)[i]);
        } else { assert(s[0] == Err::<Seq<u8>, IoErr>(e)); }
    }
}
proof fn lemma_axes_not_io(t: Seq<Seq<u8>>, k: int, n: nat)
    ensures axes(t, k, n) is Err ==> !(axes(t, k, n)->Err_0 is Io),
    decreases 3 - k,
{ if k < 3 { lemma_axes_not_io(t, k + 1, n); } }
//@item src/lib.rs | impl Bvh | fn new
//@props C01 C04
//@emit impl Bvh
fn new() -> ⟦~ Self ~> (r: Self) ensures r.joints@.len() == 0, r.motion_values@.len() == 0, r.num_channels == 0 ⟧ {
    Self {
        joints: Vec::new(),
        motion_values: Vec::new(),
        num_channels: 0,
        frame_time: Duration::from_secs(0),
    }
}
//@item src/lib.rs | impl Default for Bvh | fn default
//@name Default for Bvh :: default
//@props C01 C04
//@emit impl Bvh
fn default() -> ⟦~ Self ~> (r: Self) ensures r.joints@.len() == 0, r.motion_values@.len() == 0, r.num_channels == 0 ⟧ {
    Self::new()
}
//@item src/lib.rs | impl Bvh | fn from_reader | fn from_reader_
//@props C01 C02 C03 C04 C05 C06 C18
fn from_reader_⟦ <R: BufReadExt> ⟧(reader: &mut ⟦~ dyn BufReadExt ~> R ⟧) -> ⟦~ Result<Bvh, LoadError> ~> (r: Result<Bvh, LoadError>)
    ensures loads(ev_lines(old(reader).evs()), r), no_fail(old(reader).evs()) ==> loads(file_lines(bytes_of(old(reader).evs())), r),
⟧ {
    ⟦ let ghost vx_a = reader.evs(); ⟧
    let mut lines = CachedEnumerate::new(reader.byte_lines().enumerate());
    let mut bvh = Bvh::default();
    ⟦ proof { if no_fail(vx_a) { lemma_ev_lines(vx_a); } } ⟧
    ⟦~ bvh.read_joints(&mut lines)?; ~> match bvh.read_joints(&mut lines) { Ok(_) => {}, Err(e) => return Err(LoadError::from(e)) } ⟧
    ⟦~ bvh.read_motion(&mut lines)?; ~> match bvh.read_motion(&mut lines) { Ok(_) => {}, Err(e) => return Err(LoadError::from(e)) } ⟧
    Ok(bvh)
}
//@item src/lib.rs | impl Bvh | fn from_reader
//@props C01 C02 C03 C04 C05 C06 C18
//@cut fn from_reader_
//@emit impl Bvh
fn from_reader<R: BufReadExt>(mut reader: R) -> ⟦~ Result<Self, LoadError> ~> (r: Result<Self, LoadError>)
    ensures loads(ev_lines(reader.evs()), r), no_fail(reader.evs()) ==> loads(file_lines(bytes_of(reader.evs())), r),
⟧ {
    from_reader_(reader.by_ref())
}
//@item src/lib.rs | impl Bvh | fn from_bytes
//@name Bvh :: from_bytes
//@props C01 C02 C03 C04 C05 C06 C18
//@emit impl Bvh
fn from_bytes<B: ?Sized + AsRef<[u8]>>(bytes: &B) -> ⟦~ Result<Self, LoadError> ~> (r: Result<Self, LoadError>) ensures loads(file_lines(bytes.as_ref_spec()@), r) ⟧ {
    ⟦ proof { lemma_atoms(bytes.as_ref_spec()@); } ⟧
    Bvh::from_reader(Cursor::new(bytes.as_ref()))
}
//@item src/lib.rs | impl FromStr for Bvh | fn from_str
//@name FromStr for Bvh :: from_str
//@props C01 C18
//@emit impl Bvh
fn from_str(string: &str) -> ⟦~ Result<Self, Self::Err> ~> (r: Result<Self, LoadError>) ensures loads(file_lines(string.spec_bytes()), r) ⟧ {
    Bvh::from_bytes(string.as_bytes())
}
//@item src/lib.rs | impl TryFrom<&'_ str> for Bvh | fn try_from
//@name TryFrom<&str> for Bvh :: try_from
//@props C01 C18
//@emit impl Bvh
fn ⟦~ try_from ~> try_from_str ⟧(string: &'_ str) -> ⟦~ Result<Self, Self::Error> ~> (r: Result<Self, LoadError>) ensures loads(file_lines(string.spec_bytes()), r) ⟧ {
    ⟦~ FromStr::from_str ~> Bvh::from_str ⟧(string)
}
//@item src/lib.rs | impl TryFrom<&'_ BStr> for Bvh | fn try_from
//@name TryFrom<&BStr> for Bvh :: try_from
//@props C01 C18
//@emit impl Bvh
fn ⟦~ try_from ~> try_from_bstr ⟧(string: &'_ BStr⟦ <'_> ⟧) -> ⟦~ Result<Self, Self::Error> ~> (r: Result<Self, LoadError>) ensures loads(file_lines(string.b@), r) ⟧ {
    Bvh::from_bytes(string.as_bytes())
}
//@item src/lib.rs | impl TryFrom<&'_ [u8]> for Bvh | fn try_from
//@name TryFrom<&[u8]> for Bvh :: try_from
//@props C01 C18
//@emit impl Bvh
fn ⟦~ try_from ~> try_from_bytes ⟧(bytes: &'_ [u8]) -> ⟦~ Result<Self, Self::Error> ~> (r: Result<Self, LoadError>) ensures loads(file_lines(bytes@), r) ⟧ {
    Bvh::from_bytes(bytes)
}
//@item src/lib.rs | fn from_reader
//@name from_reader (free function)
//@props C01 C18
⟦~ fn from_reader ~> fn load_from_reader ⟧<R: BufReadExt>(data: R) -> ⟦~ Result<Bvh, LoadError> ~> (r: Result<Bvh, LoadError>)
    ensures loads(ev_lines(data.evs()), r), no_fail(data.evs()) ==> loads(file_lines(bytes_of(data.evs())), r),
⟧ {
    Bvh::from_reader(data)
}
//@item src/lib.rs | fn from_bytes
//@name from_bytes (free function)
//@props C01 C18
⟦~ fn from_bytes ~> fn load_from_bytes ⟧<B: ?Sized + AsRef<[u8]>>(bytes: &B) -> ⟦~ Result<Bvh, LoadError> ~> (r: Result<Bvh, LoadError>) ensures loads(file_lines(bytes.as_ref_spec()@), r) ⟧ {
    Bvh::from_bytes(bytes)
}
//@item src/lib.rs | fn from_str
//@name from_str (free function)
//@props C01 C18
⟦~ fn from_str ~> fn load_from_str ⟧(string: &str) -> ⟦~ Result<Bvh, LoadError> ~> (r: Result<Bvh, LoadError>) ensures loads(file_lines(string.spec_bytes()), r) ⟧ {
    Bvh::from_str(string)
}
