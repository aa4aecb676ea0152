//@raw
//@props C05 C06
// ================================================================ the motion section: what a file means (C05, C06)
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8Error(std::str::Utf8Error);
pub assume_specification [std::str::from_utf8] (b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r is Ok <==> vstd::utf8::valid_utf8(b@), r is Ok ==> r->Ok_0.spec_bytes() == b@;
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTryFromFloatSecsError(std::time::TryFromFloatSecsError);
// the duration nearest to a number of seconds (std)
pub uninterp spec fn nearest_duration(s: f64) -> Option<core::time::Duration>;
pub assume_specification [std::time::Duration::try_from_secs_f64] (s: f64) -> (r: Result<std::time::Duration, std::time::TryFromFloatSecsError>)
    ensures r is Ok == nearest_duration(s) is Some, r is Ok ==> r->Ok_0 == nearest_duration(s)->0;
spec fn sline(r: Result<Vec<u8>, IoErr>) -> SLine { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }

// the next line which is not blank, and its number; at the end of the file the number of the last line
ghost struct Found { line: Option<SLine>, at: nat, rest: SLines, n: nat }
spec fn next_line(r: SLines, n: nat) -> Found {
    let k = blanks(r);
    if k >= r.len() { Found { line: None, at: if n + r.len() == 0 { 0 } else { (n + r.len() - 1) as nat }, rest: Seq::empty(), n: n + r.len() } }
    else { Found { line: Some(r[k as int]), at: n + k, rest: r.skip((k + 1) as int), n: n + k + 1 } }
}
spec fn no_frames(e: Option<LexErr>, n: nat) -> LoadMotionError { LoadMotionError::MissingNumFrames { parse_error: e, line: n as usize } }
spec fn no_time(e: Option<LexErr>, n: nat) -> LoadMotionError { LoadMotionError::MissingFrameTime { parse_error: e, line: n as usize } }
// MOTION
spec fn section_of(l: SLine, n: nat) -> Result<(), LoadMotionError> {
    match l {
        Err(e) => Err(LoadMotionError::Io(e)),
        Ok(b) => if unicode_trim(b) == bs"MOTION" { Ok(()) } else { Err(LoadMotionError::MissingMotionSection { line: n as usize }) },
    }
}
// Frames: 12
spec fn frames_of(l: SLine, n: nat) -> Result<usize, LoadMotionError> {
    match l {
        Err(e) => Err(LoadMotionError::Io(e)),
        Ok(b) => {
            let t = words(unicode_trim(b));
            if t.len() < 2 || t[0] != bs"Frames" || !vstd::utf8::valid_utf8(t[1]) { Err(no_frames(None, n)) }
            else { match lex_usize(t[1]) { Ok(c) => Ok(c), Err(e) => Err(no_frames(Some(e), n)) } }
        },
    }
}
// Frame Time: 0.033
spec fn time_of(l: SLine, n: nat) -> Result<Duration, LoadMotionError> {
    match l {
        Err(e) => Err(LoadMotionError::Io(e)),
        Ok(b) => {
            let t = unicode_fields(b);
            let k = if t.len() > 2 && t[2] == bs":" { 3int } else { 2int };
            if t.len() < 2 || t[0] != bs"Frame" || t[1] != bs"Time:" || t.len() <= k { Err(no_time(None, n)) }
            else {
                match lex_f64(t[k]) {
                    Err(e) => Err(no_time(Some(e), n)),
                    Ok(s) => match nearest_duration(s) { None => Err(no_time(None, n)), Some(d) => Ok(d) },
                }
            }
        },
    }
}
// a line of values
spec fn row_values(t: Seq<Seq<u8>>, i: nat, n: nat) -> Result<Seq<f32>, LoadMotionError> decreases t.len() {
    if t.len() == 0 { Ok(Seq::empty()) }
    else {
        match lex_f32(t[0]) {
            Err(e) => Err(LoadMotionError::ParseMotionSection { parse_error: e, channel_index: i as usize, line: n as usize }),
            Ok(x) => match row_values(t.skip(1), i + 1, n) { Err(e) => Err(e), Ok(r) => Ok(seq![x] + r) },
        }
    }
}
// all lines of values
spec fn all_values(r: SLines, n: nat) -> Result<Seq<f32>, LoadMotionError> decreases r.len() {
    if r.len() == 0 { Ok(Seq::empty()) }
    else {
        match r[0] {
            Err(e) => Err(LoadMotionError::Io(e)),
            Ok(b) => match row_values(unicode_fields(b), 0, n) {
                Err(e) => Err(e),
                Ok(row) => match all_values(r.skip(1), n + 1) { Err(e) => Err(e), Ok(rest) => Ok(row + rest) },
            },
        }
    }
}
ghost struct SMotion { time: Duration, values: Seq<f32> }
// C05: exactly channels * frames values
spec fn counted(v: Seq<f32>, nch: nat, frames: usize, time: Duration) -> Result<SMotion, LoadMotionError> {
    if v.len() == nch * frames { Ok(SMotion { time, values: v }) }
    else {
        Err(LoadMotionError::MotionCountMismatch {
            actual_total_motion_values: v.len() as usize,
            expected_total_motion_values: if nch * frames <= usize::MAX { (nch * frames) as usize } else { usize::MAX },
            expected_num_frames: frames,
            expected_num_clips: nch as usize,
        })
    }
}
spec fn motion3(r: SLines, n: nat, nch: nat, frames: usize, time: Duration) -> Result<SMotion, LoadMotionError> {
    match all_values(r, n) { Err(e) => Err(e), Ok(v) => counted(v, nch, frames, time) }
}
spec fn motion2(r: SLines, n: nat, nch: nat, frames: usize) -> Result<SMotion, LoadMotionError> {
    let f = next_line(r, n);
    match f.line {
        None => Err(no_time(None, f.at)),
        Some(l) => match time_of(l, f.at) { Err(e) => Err(e), Ok(d) => motion3(f.rest, f.n, nch, frames, d) },
    }
}
spec fn motion1(r: SLines, n: nat, nch: nat) -> Result<SMotion, LoadMotionError> {
    let f = next_line(r, n);
    match f.line {
        None => Err(no_frames(None, f.at)),
        Some(l) => match frames_of(l, f.at) { Err(e) => Err(e), Ok(c) => motion2(f.rest, f.n, nch, c) },
    }
}
// The motion section of a file whose skeleton has nch channels
spec fn motion(r: SLines, n: nat, nch: nat) -> Result<SMotion, LoadMotionError> {
    let f = next_line(r, n);
    match f.line {
        None => Err(LoadMotionError::MissingMotionSection { line: f.at as usize }),
        Some(l) => match section_of(l, f.at) { Err(e) => Err(e), Ok(_) => motion1(f.rest, f.n, nch) },
    }
}
proof fn lemma_blanks(r: SLines) ensures blanks(r) <= r.len() decreases r.len() { if r.len() > 0 { lemma_blanks(r.skip(1)); } }
proof fn lemma_word_len(s: Seq<u8>)
    ensures word_len(s) <= s.len(), forall|i: int| 0 <= i < word_len(s) ==> !is_sep(#[trigger] s[i]), word_len(s) < s.len() ==> is_sep(s[word_len(s) as int]),
    decreases s.len(),
{
    if s.len() > 0 && !is_sep(s[0]) {
        lemma_word_len(s.skip(1));
        assert forall|i: int| 0 <= i < word_len(s) implies !is_sep(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
// no word contains a separator
spec fn one_word(w: Seq<u8>) -> bool { forall|j: int| 0 <= j < w.len() ==> !is_sep(#[trigger] w[j]) }
proof fn lemma_words(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < words(s).len() ==> one_word(#[trigger] words(s)[i]),
    decreases s.len(),
{
    if s.len() == 0 {
    } else if is_sep(s[0]) {
        lemma_words(s.skip(1));
        assert(words(s) == words(s.skip(1)));
    } else {
        let n = word_len(s) as int;
        lemma_word_len(s);
        lemma_words(s.skip(n));
        let t = words(s.skip(n));
        assert(words(s) == seq![s.take(n)] + t);
        assert(one_word(s.take(n)));
        assert forall|i: int| 0 <= i < words(s).len() implies one_word(#[trigger] words(s)[i]) by {
            if i > 0 { assert(words(s)[i] == t[i - 1]); } else { assert(words(s)[0] == s.take(n)); }
        }
    }
}
//@item src/parse.rs | impl Bvh | fn read_motion | const MOTION_KEYWORD
//@props C05 C06
⟦exec⟧ const MOTION_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures MOTION_KEYWORD@ == bs"MOTION" { let r: &'static [u8] = ⟧ b"MOTION"; ⟦ assert(r@ =~= bs"MOTION"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_motion | const FRAMES_KEYWORD
//@props C05 C06
⟦exec⟧ const FRAMES_KEYWORD: ⟦~ &[u8] = ~> &'static [u8] ensures FRAMES_KEYWORD@ == bs"Frames" { let r: &'static [u8] = ⟧ b"Frames"; ⟦ assert(r@ =~= bs"Frames"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_motion | const FRAME_TIME_KEYWORDS
//@props C05 C06
⟦exec⟧ const FRAME_TIME_KEYWORDS: ⟦~ &[&[u8]] = ~> &'static [&'static [u8]] ensures FRAME_TIME_KEYWORDS@.len() == 2, FRAME_TIME_KEYWORDS@[0]@ == bs"Frame", FRAME_TIME_KEYWORDS@[1]@ == bs"Time:" { let r: &'static [&'static [u8]] = ⟧ &[b"Frame", b"Time:"]; ⟦ assert(r@[0]@ =~= bs"Frame"); assert(r@[1]@ =~= bs"Time:"); r } ⟧
//@item src/parse.rs | impl Bvh | fn read_motion
//@props C01 C05 C06
//@expand last_line_num
//@cut const MOTION_KEYWORD
//@cut const FRAMES_KEYWORD
//@cut const FRAME_TIME_KEYWORDS
//@pre #[verifier::spinoff_prover]
//@emit impl Bvh
fn read_motion(
&mut self,
lines: &mut EnumeratedLines<'_>,
) -> ⟦~ Result<(), LoadMotionError> ~> (r: Result<(), LoadMotionError>)
    requires old(lines).wf(), old(self).motion_values@.len() == 0,
    ensures
        final(lines).wf(), /*C06*/
        r is Ok == motion(old(lines).rem(), old(lines).count(), old(self).num_channels as nat) is Ok, /*C05 C06*/
        r is Ok ==> final(self).frame_time == motion(old(lines).rem(), old(lines).count(), old(self).num_channels as nat)->Ok_0.time, /*C05*/
        r is Ok ==> final(self).motion_values@ == motion(old(lines).rem(), old(lines).count(), old(self).num_channels as nat)->Ok_0.values, /*C05*/
        r is Err ==> motion(old(lines).rem(), old(lines).count(), old(self).num_channels as nat) == Err::<SMotion, LoadMotionError>(r->Err_0), /*C06*/
        // C01: the reader's error is the result
        motion(old(lines).rem(), old(lines).count(), old(self).num_channels as nat) is Err && motion(old(lines).rem(), old(lines).count(), old(self).num_channels as nat)->Err_0 is Io
            ==> r is Err && r->Err_0 is Io, /*C01*/
        final(self).joints == old(self).joints, final(self).num_channels == old(self).num_channels, /*C02 C03 C04*/
⟧ {
⟦ let ghost (r0, n0, nch) = (lines.rem(), lines.count(), self.num_channels as nat); let ghost f0 = next_line(r0, n0); proof { lemma_blanks(r0); } ⟧
lines
.next_non_empty_line()
.ok_or(LoadMotionError::MissingMotionSection {
line: lines.last_enumerator().unwrap_or(0)
,
})
.and_then(⟦~ |(line_num, line)| { ~> |vx_p: (usize, Result<Vec<u8>, IoErr>)| -> (q: Result<(), LoadMotionError>) ensures q == section_of(sline(vx_p.1), vx_p.0 as nat) { let (line_num, line) = vx_p; ⟧
let line = ⟦~ line? ~> match line { Ok(l) => l, Err(e) => return Err(LoadMotionError::from(e)) } ⟧;
let line = line.trim();
if ⟦~ line == MOTION_KEYWORD ~> vx_eq(line, MOTION_KEYWORD) ⟧ {
Ok(())
} else {
Err(LoadMotionError::MissingMotionSection { line: line_num })
}
})?;
⟦ let ghost f1 = next_line(f0.rest, f0.n); proof { assert(lines.rem() =~= f0.rest); lemma_blanks(f0.rest); } ⟧ let num_frames = lines
.next_non_empty_line()
.ok_or(LoadMotionError::MissingNumFrames {
parse_error: None,
line: lines.last_enumerator().unwrap_or(0)
,
})
.and_then(⟦~ |(line_num, line)| { ~> |vx_p: (usize, Result<Vec<u8>, IoErr>)| -> (q: Result<usize, LoadMotionError>) ensures q == frames_of(sline(vx_p.1), vx_p.0 as nat) { let (line_num, line) = vx_p; ⟧
let line = ⟦~ line? ~> match line { Ok(l) => l, Err(e) => return Err(LoadMotionError::from(e)) } ⟧;
let line = line.trim();
let mut tokens = line.fields_with(⟦~ |c: char| ~> |c: char| -> (q: bool) ensures q == ((c as u32) < 128 && is_sep((c as u32) as u8)) { ⟧ c.is_ascii_whitespace() || c == ':'⟦ } ⟧);
⟦ let ghost ts = tokens.rem(); proof { lemma_words(line@); } ⟧ if ⟦~ tokens.next() != Some(FRAMES_KEYWORD) ~> !vx_opt_eq(tokens.next(), Some(FRAMES_KEYWORD)) ⟧ {
return Err(LoadMotionError::MissingNumFrames {
parse_error: None,
line: line_num,
});
}
let parse_num_frames = ⟦~ |token: Option<&[u8]>| ~> |token: Option<&[u8]>| -> (q: Result<usize, LoadMotionError>)
    ensures q == (match token {
        None => Err::<usize, LoadMotionError>(no_frames(None, line_num as nat)),
        Some(b) => if !vstd::utf8::valid_utf8(b@) { Err::<usize, LoadMotionError>(no_frames(None, line_num as nat)) }
            else { match lex_usize(b@) { Ok(c) => Ok::<usize, LoadMotionError>(c), Err(e) => Err::<usize, LoadMotionError>(no_frames(Some(e), line_num as nat)) } },
    }) ⟧ {
if let Some(num_frames) = token.and_then(⟦~ |b| str::from_utf8(b) ~> |b: &[u8]| -> (q: Option<&str>) ensures q is Some <==> vstd::utf8::valid_utf8(b@), q is Some ==> (q->Some_0).spec_bytes() == b@ { std::str::from_utf8(b) ⟧.ok()⟦ } ⟧) {
parse::<usize, _>(num_frames)
.map_err(⟦~ |e| ~> |e: LexErr| -> (q: LoadMotionError) ensures q == no_frames(Some(e), line_num as nat) { ⟧ LoadMotionError::MissingNumFrames {
parse_error: Some(e),
line: line_num,
}⟦ } ⟧)
⟦~ .map_err(Into::into) ~> ⟧
} else {
Err(LoadMotionError::MissingNumFrames {
parse_error: None,
line: line_num,
})
}
};
⟦ assert((&[58u8])@ =~= bs":"); ⟧ match tokens.next() {
Some(tok) if ⟦ vx_eq( ⟧ tok ⟦~ == ~> , ⟧ b":"⟦ ) ⟧ => parse_num_frames(tokens.next()),
Some(tok) => parse_num_frames(Some(tok)),
None => Err(LoadMotionError::MissingNumFrames {
parse_error: None,
line: line_num,
}),
}
})?;
⟦ let ghost f2 = next_line(f1.rest, f1.n); proof { assert(lines.rem() =~= f1.rest); lemma_blanks(f1.rest); } ⟧ self.frame_time = lines
.next_non_empty_line()
.ok_or(LoadMotionError::MissingFrameTime {
parse_error: None,
line: lines.last_enumerator().unwrap_or(0)
,
})
.and_then(⟦~ |(line_num, line)| { ~> |vx_p: (usize, Result<Vec<u8>, IoErr>)| -> (q: Result<Duration, LoadMotionError>) ensures q == time_of(sline(vx_p.1), vx_p.0 as nat) { let (line_num, line) = vx_p; ⟧
let line = ⟦~ line? ~> match line { Ok(l) => l, Err(e) => return Err(LoadMotionError::from(e)) } ⟧;
let mut tokens = line.fields();
⟦ let ghost ts = tokens.rem(); ⟧ let frame_time_kw = tokens.next();
if ⟦~ frame_time_kw == FRAME_TIME_KEYWORDS.get(0).map(|b| *b) ~> vx_opt_eq(frame_time_kw, FRAME_TIME_KEYWORDS.get(0).map(|b: &&'static [u8]| -> (q: &'static [u8]) ensures q == *b { *b })) ⟧ {
} else {
return Err(LoadMotionError::MissingFrameTime {
parse_error: None,
line: line_num,
});
}
let frame_time_kw = tokens.next();
if ⟦~ frame_time_kw == FRAME_TIME_KEYWORDS.get(1).map(|b| *b) ~> vx_opt_eq(frame_time_kw, FRAME_TIME_KEYWORDS.get(1).map(|b: &&'static [u8]| -> (q: &'static [u8]) ensures q == *b { *b })) ⟧ {
} else {
return Err(LoadMotionError::MissingFrameTime {
parse_error: None,
line: line_num,
});
}
let parse_frame_time = ⟦~ |token: Option<&[u8]>| ~> |token: Option<&[u8]>| -> (q: Result<Duration, LoadMotionError>)
    ensures q == (match token {
        None => Err::<Duration, LoadMotionError>(no_time(None, line_num as nat)),
        Some(b) => match lex_f64(b@) {
            Err(e) => Err::<Duration, LoadMotionError>(no_time(Some(e), line_num as nat)),
            Ok(s) => match nearest_duration(s) { None => Err::<Duration, LoadMotionError>(no_time(None, line_num as nat)), Some(d) => Ok::<Duration, LoadMotionError>(d) },
        },
    }) ⟧ {
if let Some(frame_time) = token {
let frame_time_secs = parse::<f64, _>(frame_time).map_err(⟦~ |e| ~> |e: LexErr| -> (q: LoadMotionError) ensures q == no_time(Some(e), line_num as nat) ⟧ {
LoadMotionError::MissingFrameTime {
parse_error: Some(e),
line: line_num,
}
})?;
Duration::try_from_secs_f64(frame_time_secs).map_err(⟦~ |_| ~> |_e: std::time::TryFromFloatSecsError| -> (q: LoadMotionError) ensures q == no_time(None, line_num as nat) ⟧ {
LoadMotionError::MissingFrameTime {
parse_error: None,
line: line_num,
}
})
} else {
Err(LoadMotionError::MissingFrameTime {
parse_error: None,
line: line_num,
})
}
};
⟦ assert((&[58u8])@ =~= bs":"); ⟧ match tokens.next() {
Some(tok) if ⟦ vx_eq( ⟧ tok ⟦~ == ~> , ⟧ b":"⟦ ) ⟧ => parse_frame_time(tokens.next()),
Some(tok) => parse_frame_time(Some(tok)),
None => Err(LoadMotionError::MissingFrameTime {
parse_error: None,
line: line_num,
}),
}
})?;
let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
⟦ let ghost (vr, vn) = (lines.rem(), lines.count()); let ghost slf = *self; proof { assert(lines.rem() =~= f2.rest); assert(self.motion_values@ =~= Seq::<f32>::empty()); assert forall|t: Seq<f32>| #![auto] self.motion_values@ + t == t by { assert(self.motion_values@ + t =~= t); } } ⟧
⟦~ for (line_num, line) in lines ~> loop
    invariant
        lines.wf(),
        slf == (Bvh { motion_values: slf.motion_values, ..*self }),
        match all_values(lines.rem(), lines.count()) {
            Err(e) => all_values(vr, vn) == Err::<Seq<f32>, LoadMotionError>(e),
            Ok(t) => all_values(vr, vn) == Ok::<Seq<f32>, LoadMotionError>(self.motion_values@ + t),
        },
        motion(r0, n0, nch) == motion3(vr, vn, nch, num_frames, self.frame_time),
        r0 == old(lines).rem(), n0 == old(lines).count(), nch == old(self).num_channels,
        slf.joints == old(self).joints, slf.num_channels == old(self).num_channels,
    ensures
        lines.rem().len() == 0,
    decreases lines.rem().len(),
⟧ {
⟦ let ghost (pr, pn) = (lines.rem(), lines.count()); let ghost base = self.motion_values@;
  let (line_num, line) = match lines.next() { Some(x) => x, None => break }; ⟧
let line = ⟦~ line? ~> match line { Ok(l) => l, Err(e) => return Err(LoadMotionError::from(e)) } ⟧;
let tokens = line.fields();
⟦ let ghost ts = tokens.rem(); let ghost mut row = Seq::<f32>::empty(); assert(base + row =~= base); ⟧
⟦~ for (channel_index, token) in tokens.enumerate() ~> let mut vx_it = tokens.enumerate(); #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop
    invariant
        slf == (Bvh { motion_values: slf.motion_values, ..*self }),
        self.motion_values@ == base + row, vx_it.wf(),
        match row_values(vx_it.rem(), vx_it.count(), pn) {
            Err(e) => row_values(ts, 0, pn) == Err::<Seq<f32>, LoadMotionError>(e),
            Ok(t) => row_values(ts, 0, pn) == Ok::<Seq<f32>, LoadMotionError>(row + t),
        },
    ensures
        vx_it.rem().len() == 0,
    decreases vx_it.rem().len(),
⟧ {
⟦ let (channel_index, token) = match vx_it.next() { Some(x) => x, None => break }; ⟧
let motion =
parse::<f32, _>(token).map_err(⟦~ |e| ~> |e: LexErr| -> (q: LoadMotionError) ensures q == (LoadMotionError::ParseMotionSection { parse_error: e, channel_index, line: line_num }) { ⟧ LoadMotionError::ParseMotionSection {
parse_error: e,
channel_index,
line: line_num,
}⟦ } ⟧)?;
self.motion_values.push(motion);
⟦ proof {
    let row2 = row.push(motion);
    assert(base + row2 =~= (base + row).push(motion));
    assert forall|t: Seq<f32>| #![auto] row + (seq![motion] + t) == row2 + t by { assert(row + (seq![motion] + t) =~= row2 + t); }
    row = row2;
} ⟧
}
⟦ proof {
    assert(row + Seq::<f32>::empty() =~= row);
    assert forall|t: Seq<f32>| #![auto] base + (row + t) == (base + row) + t by { assert(base + (row + t) =~= (base + row) + t); }
} ⟧
}
⟦ proof { axiom_vec_f32_len(&self.motion_values); assert(self.motion_values@ + Seq::<f32>::empty() =~= self.motion_values@); } ⟧ if self.motion_values.len() != expected_total_motion_values {
return Err(LoadMotionError::MotionCountMismatch {
actual_total_motion_values: self.motion_values.len(),
expected_total_motion_values,
expected_num_frames: num_frames,
expected_num_clips: self.num_channels,
});
}
Ok(())
}
