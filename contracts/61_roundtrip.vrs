//@raw
//@props C15
// ================================================================ writing and loading again (C15)
// What std's formatter and lexical have to do with each other: a written number is one plain word, which is read as a
// number; without a precision it is read as the same number (any NaN as some NaN).
spec fn plain_byte(b: u8) -> bool { 33 <= b <= 126 && b != 58 }
spec fn plain(w: Seq<u8>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> plain_byte(#[trigger] w[i]) }
uninterp spec fn is_nan(x: f32) -> bool;
spec fn same_number(x: f32, y: f32) -> bool { x == y || (is_nan(x) && is_nan(y)) }
axiom fn axiom_f32_text(p: Option<usize>, x: f32)
    requires WriteOptions::ok_precision(p),
    ensures plain(f32_text(p, x)), lex_f32(f32_text(p, x)) is Ok, p is None ==> same_number(x, lex_f32(f32_text(p, x))->Ok_0);
axiom fn axiom_time_text(p: Option<usize>, t: Duration)
    requires WriteOptions::ok_precision(p),
    ensures plain(f64_text(p, secs_f64(t))), lex_f64(f64_text(p, secs_f64(t))) is Ok, p is None ==> lex_f64(f64_text(p, secs_f64(t)))->Ok_0 == secs_f64(t);
axiom fn axiom_usize_text(n: usize)
    ensures plain(usize_text(n)), lex_usize(usize_text(n)) == Ok::<usize, LexErr>(n);
// bstr: text which neither begins nor ends with a blank is trimmed
spec fn printable(w: Seq<u8>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> 33 <= #[trigger] w[i] <= 126 }
axiom fn axiom_trim(s: Seq<u8>)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> 32 <= #[trigger] s[i] <= 126, s[0] != 32, s.last() != 32,
    ensures unicode_trim(s) == s;

// plain words with one blank between them are fields
spec fn blank_or_printable(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 32 <= #[trigger] s[i] <= 126 }
spec fn stops_run(t: Seq<u8>) -> bool { t.len() == 0 || t[0] == 32 }
proof fn lemma_ascii_run(s: Seq<u8>, t: Seq<u8>)
    requires blank_or_printable(s), stops_run(t),
    ensures run_len(s + t, ws_pred()) == run_len(s, ws_pred()),
    decreases s.len(),
{
    let p = ws_pred();
    lemma_run_len(s + t, p); lemma_run_len(s, p); lemma_dec(s + t); lemma_dec(s); lemma_dec(t);
    if s.len() > 0 {
        assert((s + t)[0] == s[0]);
        assert((s + t).skip(1) =~= s.skip(1) + t);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies 32 <= #[trigger] s.skip(1)[i] <= 126 by { assert(s[i + 1] <= 126); }
        lemma_ascii_run(s.skip(1), t);
    } else { assert(s + t =~= t); }
}
proof fn lemma_ascii_fields(s: Seq<u8>, t: Seq<u8>)
    requires blank_or_printable(s), stops_run(t),
    ensures unicode_fields(s + t) == unicode_fields(s) + unicode_fields(t),
    decreases s.len(),
{
    let p = ws_pred();
    lemma_fields_by(s + t, p); lemma_fields_by(s, p); lemma_dec(s + t); lemma_dec(s); lemma_run_len(s, p);
    if s.len() > 0 {
        assert((s + t)[0] == s[0]);
        let n = if s[0] == 32 { 1int } else { run_len(s, p) as int };
        lemma_ascii_run(s, t);
        assert((s + t).skip(n) =~= s.skip(n) + t);
        assert((s + t).take(n) =~= s.take(n));
        assert forall|i: int| 0 <= i < s.skip(n).len() implies 32 <= #[trigger] s.skip(n)[i] <= 126 by { assert(s[i + n] <= 126); }
        lemma_ascii_fields(s.skip(n), t);
        assert(p(dec(s).0) == (s[0] == 32));
        assert(p(dec(s + t).0) == (s[0] == 32));
        if s[0] != 32 { assert((seq![s.take(n)] + unicode_fields(s.skip(n))) + unicode_fields(t) =~= seq![s.take(n)] + (unicode_fields(s.skip(n)) + unicode_fields(t))); }
    } else { assert(s + t =~= t); assert(unicode_fields(s) + unicode_fields(t) =~= unicode_fields(t)); }
}
proof fn lemma_one_field(w: Seq<u8>)
    requires printable(w),
    ensures unicode_fields(w) == seq![w],
{
    lemma_fields_by(w, ws_pred()); lemma_dec(w);
    lemma_run_all(w);
    lemma_fields_by(w.skip(w.len() as int), ws_pred());
    assert(w[0] >= 33);
    assert(w.take(w.len() as int) =~= w);
    assert(unicode_fields(w) =~= seq![w]);
}
proof fn lemma_run_all(w: Seq<u8>)
    requires forall|i: int| 0 <= i < w.len() ==> 33 <= #[trigger] w[i] <= 126,
    ensures run_len(w, ws_pred()) == w.len(),
    decreases w.len(),
{
    lemma_run_len(w, ws_pred()); lemma_dec(w);
    if w.len() > 0 {
        assert(w[0] >= 33);
        assert forall|i: int| 0 <= i < w.skip(1).len() implies 33 <= #[trigger] w.skip(1)[i] <= 126 by { assert(w[i + 1] <= 126); }
        lemma_run_all(w.skip(1));
    }
}
proof fn lemma_fields(ts: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < ts.len() ==> #[trigger] printable(ts[i]),
    ensures unicode_fields(joined(ts, bs" ")) == ts, blank_or_printable(joined(ts, bs" ")),
    decreases ts.len(),
{
    reveal(joined);
    if ts.len() == 0 { lemma_fields_by(joined(ts, bs" "), ws_pred()); assert(unicode_fields(joined(ts, bs" ")) =~= ts); }
    else {
        let w = ts.last();
        let d = ts.drop_last();
        assert(printable(ts[ts.len() - 1]));
        lemma_one_field(w);
        if ts.len() > 1 {
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] printable(d[i]) by { assert(printable(ts[i])); }
            lemma_fields(d);
            let a = joined(d, bs" ");
            let t = bs" " + w;
            assert(joined(ts, bs" ") =~= a + t);
            lemma_ascii_fields(a, t);
            lemma_fields_by(t, ws_pred()); lemma_dec(t);
            assert(t[0] == 32);
            assert(t.skip(1) =~= w);
            assert(unicode_fields(joined(ts, bs" ")) =~= ts);
            assert forall|i: int| 0 <= i < (a + t).len() implies 32 <= #[trigger] (a + t)[i] <= 126 by { if i >= a.len() + 1 { assert(w[i - a.len() - 1] >= 33); } }
        } else { assert(joined(ts, bs" ") =~= w); assert(ts =~= seq![w]); }
    }
}
// what a written number is read as
spec fn rd(p: Option<usize>, x: f32) -> f32 { lex_f32(f32_text(p, x))->Ok_0 }
spec fn rd_time(p: Option<usize>, t: Duration) -> Option<Duration> { nearest_duration(lex_f64(f64_text(p, secs_f64(t)))->Ok_0) }

// ---------------------------------------------------------------- text to lines
spec fn clean(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 10 && t[i] != 13 }
spec fn content(s: IndentStyle, l: Line) -> Seq<u8> { indentation(s, l.depth) + l.text }
spec fn slines(s: IndentStyle, ls: Seq<Line>) -> SLines { Seq::new(ls.len(), |i: int| Ok::<Seq<u8>, IoErr>(content(s, ls[i]))) }
spec fn all_clean(ls: Seq<Line>) -> bool { forall|i: int| 0 <= i < ls.len() ==> clean((#[trigger] ls[i]).text) }
proof fn lemma_clean_add(a: Seq<Line>, b: Seq<Line>)
    ensures all_clean(a + b) <==> all_clean(a) && all_clean(b),
{
    if all_clean(a + b) {
        assert forall|i: int| 0 <= i < a.len() implies clean((#[trigger] a[i]).text) by { assert((a + b)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies clean((#[trigger] b[i]).text) by { assert((a + b)[a.len() + i] == b[i]); }
    }
}
proof fn lemma_line_len(c: Seq<u8>, r: Seq<u8>)
    requires forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != 10,
    ensures line_len(c + seq![10u8] + r) == c.len(),
    decreases c.len(),
{
    let b = c + seq![10u8] + r;
    if c.len() > 0 {
        assert(b[0] == c[0]);
        assert forall|i: int| 0 <= i < c.skip(1).len() implies #[trigger] c.skip(1)[i] != 10 by { assert(c.skip(1)[i] == c[i + 1]); }
        lemma_line_len(c.skip(1), r);
        assert(b.skip(1) =~= c.skip(1) + seq![10u8] + r);
    } else { assert(b[0] == 10u8); }
}
proof fn lemma_first_line(s: IndentStyle, t: LineTerminator, l: Line, r: Seq<u8>)
    requires clean(l.text),
    ensures file_lines(line_text(s, t, l) + r) == seq![Ok::<Seq<u8>, IoErr>(content(s, l))] + file_lines(r),
{
    let c = content(s, l);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != 10 && c[i] != 13 by {
        let d = indentation(s, l.depth);
        if i >= d.len() { assert(c[i] == l.text[i - d.len()]); } else { assert(c[i] == d[i]); }
    }
    let b = line_text(s, t, l) + r;
    match t {
        LineTerminator::Unix => {
            assert(b =~= c + seq![10u8] + r);
            lemma_line_len(c, r);
            assert(b.take(c.len() as int) =~= c);
            assert(b.skip((c.len() + 1) as int) =~= r);
            assert(no_cr(c) == c);
        },
        LineTerminator::Windows => {
            let c2 = c + seq![13u8];
            assert(b =~= c2 + seq![10u8] + r);
            lemma_line_len(c2, r);
            assert(b.take(c2.len() as int) =~= c2);
            assert(b.skip((c2.len() + 1) as int) =~= r);
            assert(c2.drop_last() =~= c);
        },
    }
}
proof fn lemma_file_lines(s: IndentStyle, t: LineTerminator, ls: Seq<Line>)
    requires all_clean(ls),
    ensures file_lines(render(s, t, ls)) == slines(s, ls),
    decreases ls.len(),
{
    if ls.len() == 0 { lemma_render_empty(s, t); assert(ls =~= Seq::empty()); assert(slines(s, ls) =~= Seq::empty()); }
    else {
        let (l, more) = (ls[0], ls.skip(1));
        assert(ls =~= seq![l] + more);
        lemma_clean_add(seq![l], more);
        lemma_render_add(s, t, seq![l], more);
        lemma_render_one(s, t, l);
        lemma_first_line(s, t, l, render(s, t, more));
        lemma_file_lines(s, t, more);
        assert(slines(s, ls) =~= seq![Ok::<Seq<u8>, IoErr>(content(s, l))] + slines(s, more));
    }
}
proof fn lemma_slines_add(s: IndentStyle, a: Seq<Line>, b: Seq<Line>)
    ensures slines(s, a + b) == slines(s, a) + slines(s, b),
{ assert(slines(s, a + b) =~= slines(s, a) + slines(s, b)); }

// ---------------------------------------------------------------- lines to words
proof fn lemma_words_skip(s: Seq<u8>)
    ensures s.len() > 0 && is_sep(s[0]) ==> words(s) == words(s.skip(1)),
{}
proof fn lemma_words_indent(d: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < d.len() ==> is_sep(#[trigger] d[i]),
    ensures words(d + t) == words(t),
    decreases d.len(),
{
    if d.len() == 0 { assert(d + t =~= t); }
    else {
        assert((d + t)[0] == d[0]);
        assert((d + t).skip(1) =~= d.skip(1) + t);
        assert forall|i: int| 0 <= i < d.skip(1).len() implies is_sep(#[trigger] d.skip(1)[i]) by { assert(d.skip(1)[i] == d[i + 1]); }
        lemma_words_indent(d.skip(1), t);
    }
}
proof fn lemma_words_content(s: IndentStyle, l: Line)
    ensures words(content(s, l)) == words(l.text),
{ lemma_words_indent(indentation(s, l.depth), l.text); }
proof fn lemma_word_len_is(w: Seq<u8>, r: Seq<u8>)
    requires one_word(w), r.len() > 0 ==> is_sep(r[0]),
    ensures word_len(w + r) == w.len(),
    decreases w.len(),
{
    let s = w + r;
    if w.len() > 0 {
        assert(s[0] == w[0]);
        assert(s.skip(1) =~= w.skip(1) + r);
        assert forall|j: int| 0 <= j < w.skip(1).len() implies !is_sep(#[trigger] w.skip(1)[j]) by { assert(w.skip(1)[j] == w[j + 1]); }
        lemma_word_len_is(w.skip(1), r);
    } else { assert(s =~= r); }
}
proof fn lemma_words_one(w: Seq<u8>)
    requires one_word(w), w.len() > 0,
    ensures words(w) == seq![w],
{
    let e = Seq::<u8>::empty();
    assert(w + e =~= w);
    lemma_word_len_is(w, e);
    assert(w.take(w.len() as int) =~= w);
    assert(w.skip(w.len() as int) =~= e);
    assert(words(e) =~= Seq::empty());
    assert(words(w) =~= seq![w]);
}
proof fn lemma_words_cons(w: Seq<u8>, b: u8, r: Seq<u8>)
    requires one_word(w), w.len() > 0, is_sep(b),
    ensures words(w + seq![b] + r) == seq![w] + words(r),
{
    let s = w + seq![b] + r;
    let r2 = seq![b] + r;
    assert(s =~= w + r2);
    lemma_word_len_is(w, r2);
    assert(s[0] == w[0]);
    assert(s.take(w.len() as int) =~= w);
    assert(s.skip(w.len() as int) =~= r2);
    assert(r2.skip(1) =~= r);
    assert(words(r2) == words(r));
}
proof fn lemma_joined_cons(ts: Seq<Seq<u8>>, sep: Seq<u8>)
    requires ts.len() > 1,
    ensures joined(ts, sep) == ts[0] + sep + joined(ts.skip(1), sep),
    decreases ts.len(),
{
    reveal(joined);
    if ts.len() == 2 { 
        assert(ts.drop_last().len() == 1); assert(ts.skip(1).len() == 1);
        assert(joined(ts.drop_last(), sep) == ts[0]); assert(joined(ts.skip(1), sep) == ts[1]);
    }
    else {
        lemma_joined_cons(ts.drop_last(), sep);
        assert(ts.drop_last().skip(1) =~= ts.skip(1).drop_last());
        assert(ts.drop_last()[0] == ts[0]);
        let m = joined(ts.skip(1).drop_last(), sep);
        assert(joined(ts.skip(1), sep) == m + sep + ts.last());
        assert(ts[0] + sep + m + sep + ts.last() =~= ts[0] + sep + (m + sep + ts.last()));
    }
}
spec fn word_ok(w: Seq<u8>) -> bool { one_word(w) && w.len() > 0 }
proof fn lemma_words_joined(ts: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < ts.len() ==> #[trigger] word_ok(ts[i]),
    ensures words(joined(ts, bs" ")) == ts,
    decreases ts.len(),
{
    let sp = bs" ";
    reveal(joined);
    if ts.len() == 0 { assert(joined(ts, sp) =~= Seq::empty()); assert(words(joined(ts, sp)) =~= ts); }
    else if ts.len() == 1 { assert(word_ok(ts[0])); lemma_words_one(ts[0]); assert(seq![ts[0]] =~= ts); }
    else {
        assert(word_ok(ts[0]));
        assert forall|i: int| 0 <= i < ts.skip(1).len() implies #[trigger] word_ok(ts.skip(1)[i]) by { assert(ts.skip(1)[i] == ts[i + 1]); assert(word_ok(ts[i + 1])); }
        lemma_words_joined(ts.skip(1));
        lemma_joined_cons(ts, sp);
        assert(sp =~= seq![32u8]);
        lemma_words_cons(ts[0], 32u8, joined(ts.skip(1), sp));
        assert(seq![ts[0]] + ts.skip(1) =~= ts);
    }
}
proof fn lemma_plain(w: Seq<u8>)
    requires plain(w),
    ensures word_ok(w), printable(w), clean(w),
{
    assert forall|j: int| 0 <= j < w.len() implies !is_sep(#[trigger] w[j]) && w[j] != 10 && w[j] != 13 && 33 <= w[j] <= 126 by { assert(plain_byte(w[j])); }
}
proof fn lemma_valid_ascii(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128,
    ensures vstd::utf8::valid_utf8(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[0] < 128);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] < 128 by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_valid_ascii(s.skip(1));
        assert(vstd::utf8::pop_first_scalar(s) =~= s.skip(1));
    }
}
// ---------------------------------------------------------------- the words of the lines which are written
proof fn lemma_words_two(a: Seq<u8>, b: Seq<u8>)
    requires word_ok(a), word_ok(b),
    ensures words(a + seq![32u8] + b) == seq![a, b],
{
    lemma_words_cons(a, 32u8, b);
    lemma_words_one(b);
    assert(seq![a] + seq![b] =~= seq![a, b]);
}
proof fn lemma_root_words(name: Seq<u8>)
    requires word_ok(name),
    ensures words(bs"ROOT " + name) == seq![bs"ROOT", name], words(bs"JOINT " + name) == seq![bs"JOINT", name],
{
    assert(bs"ROOT " + name =~= bs"ROOT" + seq![32u8] + name);
    assert(bs"JOINT " + name =~= bs"JOINT" + seq![32u8] + name);
    lemma_words_two(bs"ROOT", name);
    lemma_words_two(bs"JOINT", name);
}
proof fn lemma_keyword_words()
    ensures words(bs"HIERARCHY") == seq![bs"HIERARCHY"], words(bs"{") == seq![bs"{"], words(bs"}") == seq![bs"}"], words(bs"End Site") == seq![bs"End", bs"Site"],
{
    lemma_words_one(bs"HIERARCHY"); lemma_words_one(bs"{"); lemma_words_one(bs"}");
    assert(bs"End Site" =~= bs"End" + seq![32u8] + bs"Site");
    lemma_words_two(bs"End", bs"Site");
}
proof fn lemma_offset_words(p: Option<usize>, o: Offset)
    requires WriteOptions::ok_precision(p),
    ensures words(vec3_text(p, o)) == seq![bs"OFFSET", f32_text(p, o@[0]), f32_text(p, o@[1]), f32_text(p, o@[2])], clean(vec3_text(p, o)),
{
    let (x, y, z) = (f32_text(p, o@[0]), f32_text(p, o@[1]), f32_text(p, o@[2]));
    axiom_f32_text(p, o@[0]); axiom_f32_text(p, o@[1]); axiom_f32_text(p, o@[2]);
    lemma_plain(x); lemma_plain(y); lemma_plain(z);
    let yz = y + seq![32u8] + z;
    lemma_words_two(y, z);
    lemma_words_cons(x, 32u8, yz);
    let xyz = x + seq![32u8] + yz;
    lemma_words_cons(bs"OFFSET", 32u8, xyz);
    assert(vec3_text(p, o) =~= bs"OFFSET" + seq![32u8] + xyz);
    assert(seq![bs"OFFSET"] + (seq![x] + seq![y, z]) =~= seq![bs"OFFSET", x, y, z]);
    lemma_clean_seq(x, y, z, p, o);
}
proof fn lemma_clean_cat(a: Seq<u8>, b: Seq<u8>)
    requires clean(a), clean(b),
    ensures clean(a + b),
{ assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != 10 && (a + b)[i] != 13 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
proof fn lemma_clean_seq(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, p: Option<usize>, o: Offset)
    requires clean(x), clean(y), clean(z), x == f32_text(p, o@[0]), y == f32_text(p, o@[1]), z == f32_text(p, o@[2]),
    ensures clean(vec3_text(p, o)),
{
    lemma_clean_cat(bs"OFFSET ", x); lemma_clean_cat(bs"OFFSET " + x, bs" "); lemma_clean_cat(bs"OFFSET " + x + bs" ", y);
    lemma_clean_cat(bs"OFFSET " + x + bs" " + y, bs" "); lemma_clean_cat(bs"OFFSET " + x + bs" " + y + bs" ", z);
}
proof fn lemma_channel_name(t: ChannelType)
    ensures plain(channel_name(t)), is_channel_name(channel_name(t)), channel_of(channel_name(t)) == t,
{
    let w = channel_name(t);
    assert(plain(w)) by {
        match t { ChannelType::RotationX => {}, ChannelType::RotationY => {}, ChannelType::RotationZ => {}, ChannelType::PositionX => {}, ChannelType::PositionY => {}, ChannelType::PositionZ => {} }
    }
    lemma_channel_names_differ(t, channel_of(w));
}
proof fn lemma_channel_names_differ(a: ChannelType, b: ChannelType)
    ensures channel_name(a) == channel_name(b) ==> a == b,
{
    if channel_name(a) == channel_name(b) { assert(channel_name(a)[0] == channel_name(b)[0]); assert(channel_name(a)[1] == channel_name(b)[1]); }
}
proof fn lemma_clean_joined(ts: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < ts.len() ==> clean(#[trigger] ts[i]),
    ensures clean(joined(ts, bs" ")),
    decreases ts.len(),
{
    reveal(joined);
    if ts.len() > 1 {
        lemma_clean_joined(ts.drop_last());
        lemma_clean_cat(joined(ts.drop_last(), bs" "), bs" ");
        assert(clean(ts[ts.len() - 1]));
        lemma_clean_cat(joined(ts.drop_last(), bs" ") + bs" ", ts.last());
    } else if ts.len() == 1 { assert(clean(ts[0])); }
}
proof fn lemma_channels_words(cs: Seq<Channel>)
    ensures words(channels_text(cs)) == seq![bs"CHANNELS", usize_text(cs.len() as usize)] + channel_names(cs), clean(channels_text(cs)),
{
    let n = usize_text(cs.len() as usize);
    let ts = channel_names(cs);
    axiom_usize_text(cs.len() as usize);
    lemma_plain(n);
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] word_ok(ts[i]) by { lemma_channel_name(cs[i].channel_type); lemma_plain(ts[i]); }
    assert forall|i: int| 0 <= i < ts.len() implies clean(#[trigger] ts[i]) by { lemma_channel_name(cs[i].channel_type); lemma_plain(ts[i]); }
    lemma_words_joined(ts);
    lemma_clean_joined(ts);
    let j = joined(ts, bs" ");
    lemma_words_cons(n, 32u8, j);
    let r = n + seq![32u8] + j;
    lemma_words_cons(bs"CHANNELS", 32u8, r);
    assert(channels_text(cs) =~= bs"CHANNELS" + seq![32u8] + r);
    assert(seq![bs"CHANNELS"] + (seq![n] + ts) =~= seq![bs"CHANNELS", n] + ts);
    lemma_clean_cat(bs"CHANNELS ", n); lemma_clean_cat(bs"CHANNELS " + n, bs" "); lemma_clean_cat(bs"CHANNELS " + n + bs" ", j);
}
// ---------------------------------------------------------------- reading lines one after the other
// Reading these lines, the first of which has number n, leads from h to h2.
#[verifier::opaque]
spec fn goes(ls: Seq<Line>, n: nat, h: HState, h2: HState) -> bool decreases ls.len() {
    if ls.len() == 0 { h == h2 }
    else { !(h.phase is Done) && step(h, words(ls[0].text), n) is Ok && goes(ls.skip(1), n + 1, step(h, words(ls[0].text), n)->Ok_0, h2) }
}
proof fn lemma_goes_one(l: Line, n: nat, h: HState)
    requires !(h.phase is Done), step(h, words(l.text), n) is Ok,
    ensures goes(seq![l], n, h, step(h, words(l.text), n)->Ok_0),
{ reveal(goes); assert(seq![l].skip(1) =~= Seq::<Line>::empty()); assert(goes(seq![l].skip(1), n + 1, step(h, words(l.text), n)->Ok_0, step(h, words(l.text), n)->Ok_0)); }
proof fn lemma_goes_none(n: nat, h: HState)
    ensures goes(Seq::<Line>::empty(), n, h, h),
{ reveal(goes); }
proof fn lemma_goes_add(a: Seq<Line>, b: Seq<Line>, n: nat, h: HState, h1: HState, h2: HState)
    requires goes(a, n, h, h1), goes(b, n + a.len(), h1, h2),
    ensures goes(a + b, n, h, h2),
    decreases a.len(),
{
    reveal(goes);
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b)[0] == a[0]);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_goes_add(a.skip(1), b, n + 1, step(h, words(a[0].text), n)->Ok_0, h1, h2);
    }
}
proof fn lemma_goes_inv(a: Seq<Line>, n: nat, h: HState, h2: HState)
    requires goes(a, n, h, h2), hinv(h),
    ensures hinv(h2),
    decreases a.len(),
{
    reveal(goes);
    if a.len() > 0 { lemma_step_inv(h, words(a[0].text), n); lemma_goes_inv(a.skip(1), n + 1, step(h, words(a[0].text), n)->Ok_0, h2); }
}
proof fn lemma_goes_run(s: IndentStyle, a: Seq<Line>, rest: SLines, n: nat, h: HState, h2: HState)
    requires goes(a, n, h, h2), h2.phase is Done,
    ensures run(slines(s, a) + rest, n, h) == (HRun { res: Ok::<HState, SErr>(h2), rest, at: n + a.len() }),
    decreases a.len(),
{
    reveal(goes);
    let r = slines(s, a) + rest;
    if a.len() == 0 { assert(r =~= rest); }
    else {
        assert(r[0] == Ok::<Seq<u8>, IoErr>(content(s, a[0])));
        lemma_words_content(s, a[0]);
        assert(r.skip(1) =~= slines(s, a.skip(1)) + rest);
        lemma_goes_run(s, a.skip(1), rest, n + 1, step(h, words(a[0].text), n)->Ok_0, h2);
    }
}
// ---------------------------------------------------------------- the hierarchy, joint by joint
spec fn rd3(p: Option<usize>, o: Offset) -> Seq<f32> { seq![rd(p, o@[0]), rd(p, o@[1]), rd(p, o@[2])] }
spec fn read_channels(cs: Seq<Channel>, nch: nat) -> Seq<(ChannelType, nat)> { Seq::new(cs.len(), |c: int| (cs[c].channel_type, (nch + c) as nat)) }
// the joint in the file that is written for the i-th joint
spec fn sj(p: Option<usize>, js: Seq<JointData>, i: int) -> SJoint {
    SJoint {
        name: js[i].s_name(), offset: rd3(p, js[i].s_offset()), channels: read_channels(js[i].s_channels(), sum_channels(js.take(i))),
        end: if js[i].s_end() is Some { Some(rd3(p, js[i].s_end()->0)) } else { None },
        parent: if js[i].s_private() is None { None } else { Some(js[i].s_private()->0.parent_index as nat) },
        depth: js[i].s_depth(),
    }
}
spec fn sjs(p: Option<usize>, js: Seq<JointData>, i: int) -> Seq<SJoint> { Seq::new(i as nat, |k: int| sj(p, js, k)) }
// where a reader stands before the lines of the i-th joint, and at the end
spec fn before(h: HState, p: Option<usize>, js: Seq<JointData>, i: int) -> bool {
    &&& hinv(h)
    &&& i == 0 ==> h.phase is NeedRoot
    &&& 0 < i < js.len() ==> h.phase is Body && h.stack.len() == js[i].s_depth()
    &&& i >= js.len() ==> h.phase is Done
    &&& h.joints == sjs(p, js, i)
    &&& !h.open && !h.in_end && h.nch == sum_channels(js.take(i))
}
spec fn names_ok(js: Seq<JointData>) -> bool { forall|i: int| 0 <= i < js.len() ==> word_ok((#[trigger] js[i]).s_name()) }

proof fn lemma_step_name(h: HState, name: Seq<u8>, n: nat)
    ensures
        h.phase is NeedRoot ==> step(h, seq![bs"ROOT", name], n) == Ok::<HState, SErr>(declare(h, name)),
        h.phase is Body && !h.open && !h.in_end ==> step(h, seq![bs"JOINT", name], n) == Ok::<HState, SErr>(declare(h, name)),
{
    let (a, b) = (seq![bs"ROOT", name], seq![bs"JOINT", name]);
    assert(a[0] == bs"ROOT" && a[1] == name && b[0] == bs"JOINT" && b[1] == name);
    assert(bs"ROOT"[0] == 82u8); assert(bs"JOINT"[0] == 74u8); assert(bs"HIERARCHY"[0] == 72u8); assert(bs"{"[0] == 123u8); assert(bs"}"[0] == 125u8); assert(bs"End"[0] == 69u8);
}
proof fn lemma_step_braces(h: HState, n: nat)
    ensures
        h.open ==> step(h, seq![bs"{"], n) == Ok::<HState, SErr>(HState { open: false, ..h }),
        h.phase is Body && !h.open ==> step(h, seq![bs"}"], n) == Ok::<HState, SErr>(if h.in_end { HState { in_end: false, sealed: true, ..h } }
            else { HState { stack: h.stack.drop_last(), sealed: true, phase: if h.stack.len() == 1 { Phase::Done } else { h.phase }, ..h } }),
{
    let (a, b) = (seq![bs"{"], seq![bs"}"]);
    assert(a[0] == bs"{" && b[0] == bs"}");
    assert(bs"ROOT"[0] == 82u8); assert(bs"HIERARCHY"[0] == 72u8); assert(bs"{"[0] == 123u8); assert(bs"}"[0] == 125u8);
}
proof fn lemma_step_end(h: HState, n: nat)
    ensures h.phase is Body && !h.open && !h.in_end && !h.sealed ==> step(h, seq![bs"End", bs"Site"], n) == Ok::<HState, SErr>(HState { in_end: true, open: true, ..h }),
{
    let a = seq![bs"End", bs"Site"];
    assert(a[0] == bs"End" && a[1] == bs"Site");
    assert(bs"ROOT"[0] == 82u8); assert(bs"HIERARCHY"[0] == 72u8); assert(bs"{"[0] == 123u8); assert(bs"}"[0] == 125u8); assert(bs"End"[0] == 69u8);
}
proof fn lemma_step_offset(h: HState, p: Option<usize>, o: Offset, n: nat)
    requires WriteOptions::ok_precision(p), h.phase is Body, !h.open, !h.sealed,
    ensures step(h, words(vec3_text(p, o)), n) == Ok::<HState, SErr>(set_top(h, if h.in_end { SJoint { end: Some(rd3(p, o)), ..top(h) } } else { SJoint { offset: rd3(p, o), ..top(h) } })),
{
    lemma_offset_words(p, o);
    let t = words(vec3_text(p, o));
    axiom_f32_text(p, o@[0]); axiom_f32_text(p, o@[1]); axiom_f32_text(p, o@[2]);
    assert(t[0] == bs"OFFSET" && t[1] == f32_text(p, o@[0]) && t[2] == f32_text(p, o@[1]) && t[3] == f32_text(p, o@[2]) && t.len() == 4);
    assert(axes(t, 3, n) == Ok::<Seq<f32>, SErr>(Seq::empty()));
    assert(seq![rd(p, o@[2])] + Seq::<f32>::empty() =~= seq![rd(p, o@[2])]);
    assert(axes(t, 2, n) == Ok::<Seq<f32>, SErr>(seq![rd(p, o@[2])]));
    assert(seq![rd(p, o@[1])] + seq![rd(p, o@[2])] =~= seq![rd(p, o@[1]), rd(p, o@[2])]);
    assert(axes(t, 1, n) == Ok::<Seq<f32>, SErr>(seq![rd(p, o@[1]), rd(p, o@[2])]));
    assert(seq![rd(p, o@[0])] + seq![rd(p, o@[1]), rd(p, o@[2])] =~= rd3(p, o));
    assert(axes(t, 0, n) == Ok::<Seq<f32>, SErr>(rd3(p, o)));
    assert(bs"ROOT"[0] == 82u8); assert(bs"HIERARCHY"[0] == 72u8); assert(bs"{"[0] == 123u8); assert(bs"}"[0] == 125u8); assert(bs"End"[0] == 69u8); assert(bs"JOINT"[0] == 74u8); assert(bs"OFFSET"[0] == 79u8);
}
proof fn lemma_read_channels(cs: Seq<Channel>, nch: nat)
    ensures channels_of(channel_names(cs), nch) == Ok::<Seq<(ChannelType, nat)>, Seq<u8>>(read_channels(cs, nch)),
    decreases cs.len(),
{
    let ts = channel_names(cs);
    if cs.len() == 0 { assert(read_channels(cs, nch) =~= Seq::empty()); }
    else {
        lemma_channel_name(cs[0].channel_type);
        assert(ts[0] == channel_name(cs[0].channel_type));
        assert(ts.skip(1) =~= channel_names(cs.skip(1)));
        lemma_read_channels(cs.skip(1), nch + 1);
        assert(read_channels(cs, nch) =~= seq![(cs[0].channel_type, nch)] + read_channels(cs.skip(1), nch + 1));
    }
}
proof fn lemma_step_channels(h: HState, cs: Seq<Channel>, n: nat)
    requires h.phase is Body, !h.open, !h.in_end, !h.sealed, top(h).channels.len() == 0,
    ensures step(h, words(channels_text(cs)), n) == Ok::<HState, SErr>(HState { nch: h.nch + cs.len(), ..set_top(h, SJoint { channels: read_channels(cs, h.nch), ..top(h) }) }),
{
    lemma_channels_words(cs);
    lemma_read_channels(cs, h.nch);
    axiom_usize_text(cs.len() as usize);
    let t = words(channels_text(cs));
    assert(t[0] == bs"CHANNELS" && t[1] == usize_text(cs.len() as usize));
    assert(t.skip(2) =~= channel_names(cs));
    assert(bs"ROOT"[0] == 82u8); assert(bs"HIERARCHY"[0] == 72u8); assert(bs"{"[0] == 123u8); assert(bs"}"[0] == 125u8); assert(bs"End"[0] == 69u8); assert(bs"JOINT"[0] == 74u8); assert(bs"OFFSET"[0] == 79u8); assert(bs"CHANNELS"[0] == 67u8);
}
// the joint that is declared next is a child of the innermost open one
proof fn lemma_parent(h: HState, p: Option<usize>, js: Seq<JointData>, i: int)
    requires wf_tree(js), before(h, p, js, i), 0 < i < js.len(),
    ensures h.stack.len() > 0, h.stack.last() == js[i].s_private()->0.parent_index, js[i].s_private() is Some, h.stack.len() == js[i].s_depth(),
{
    let (ss, st) = (h.joints, h.stack);
    let m = st.len() - 1;
    assert(child_ok(js, i));
    assert(open_ok(ss, st, m));
    let q = js[i].s_private()->0.parent_index as int;
    let t = st.last();
    assert(ss[q].depth == js[q].s_depth()); assert(ss[t].depth == js[t].s_depth());
    if q < t { assert(inside(js, i, t)); }
    if t < q { assert(below_ok(ss, st, m, q)); }
}
proof fn lemma_next_depth(js: Seq<JointData>, i: int)
    requires wf_tree(js), 0 <= i < js.len(),
    ensures 0 <= next_depth(js, i) <= js[i].s_depth() + 1, i + 1 < js.len() ==> next_depth(js, i) >= 1,
{
    if i + 1 < js.len() {
        assert(child_ok(js, i + 1));
        if js[i + 1].s_private()->0.parent_index < i { assert(inside(js, i + 1, i)); }
    }
}
// the closing braces
proof fn lemma_goes_closes(h: HState, from: int, to: int, n: nat) -> (h2: HState)
    requires h.phase is Body, !h.open, !h.in_end, h.stack.len() == from + 1, 0 <= from, 0 <= to <= from + 1,
    ensures
        goes(closes(from, to), n, h, h2), h2.joints == h.joints, h2.nch == h.nch, !h2.open, !h2.in_end, h2.stack.len() == to,
        to > 0 ==> h2.phase is Body, to == 0 ==> h2.phase is Done,
    decreases from - to + 1,
{
    lemma_closes(from, to);
    if from < to { lemma_goes_none(n, h); h }
    else {
        lemma_keyword_words();
        lemma_step_braces(h, n);
        let l = ln(from as nat, bs"}");
        let h1 = step(h, words(l.text), n)->Ok_0;
        lemma_goes_one(l, n, h);
        if from == 0 {
            lemma_closes(-1, to); lemma_goes_none(n + 1, h1); lemma_goes_add(seq![l], closes(-1, to), n, h, h1, h1);
            h1
        } else {
            let h2 = lemma_goes_closes(h1, from - 1, to, n + 1);
            lemma_goes_add(seq![l], closes(from - 1, to), n, h, h1, h2);
            h2
        }
    }
}
proof fn lemma_goes_push(a: Seq<Line>, l: Line, n: nat, h: HState, h1: HState)
    requires goes(a, n, h, h1), !(h1.phase is Done), step(h1, words(l.text), n + a.len()) is Ok,
    ensures goes(a + seq![l], n, h, step(h1, words(l.text), n + a.len())->Ok_0),
{
    lemma_goes_one(l, n + a.len(), h1);
    lemma_goes_add(a, seq![l], n, h, h1, step(h1, words(l.text), n + a.len())->Ok_0);
}
// the lines of one joint: its own, and the braces that are closed before the next one
spec fn own_lines(p: Option<usize>, js: Seq<JointData>, i: int) -> Seq<Line> { name_lines(js[i]) + (offset_lines(p, js[i]) + (channel_lines(js[i]) + end_lines(p, js[i]))) }
// up to the channels
#[verifier::spinoff_prover]
proof fn lemma_goes_head(h: HState, p: Option<usize>, js: Seq<JointData>, i: int, n: nat) -> (h2: HState)
    requires wf_tree(js), names_ok(js), WriteOptions::ok_precision(p), before(h, p, js, i), 0 <= i < js.len(),
    ensures
        goes(name_lines(js[i]) + offset_lines(p, js[i]) + channel_lines(js[i]), n, h, h2),
        h2.phase is Body, !h2.open, !h2.in_end, !h2.sealed, h2.stack == h.stack.push(i), h2.stack.len() == js[i].s_depth() + 1,
        h2.joints == h.joints.push(SJoint { end: None, ..sj(p, js, i) }), h2.nch == sum_channels(js.take(i + 1)),
{
    let j = js[i];
    let (a, b, c, d) = (name_lines(j)[0], name_lines(j)[1], offset_lines(p, j)[0], channel_lines(j)[0]);
    assert(word_ok(js[i].s_name()));
    lemma_root_words(j.s_name());
    lemma_keyword_words();
    lemma_step_name(h, j.s_name(), n);
    if i > 0 { lemma_parent(h, p, js, i); assert(child_ok(js, i)); }
    let h1 = declare(h, j.s_name());
    assert(step(h, words(a.text), n) == Ok::<HState, SErr>(h1));
    lemma_goes_one(a, n, h);
    lemma_step_braces(h1, n + 1);
    let h2 = HState { open: false, ..h1 };
    lemma_goes_push(seq![a], b, n, h, h1);
    lemma_step_offset(h2, p, j.s_offset(), n + 2);
    let h3 = set_top(h2, SJoint { offset: rd3(p, j.s_offset()), ..top(h2) });
    lemma_goes_push(seq![a] + seq![b], c, n, h, h2);
    assert(top(h3) == SJoint { offset: rd3(p, j.s_offset()), ..top(h2) });
    lemma_step_channels(h3, j.s_channels(), n + 3);
    let h4 = HState { nch: h3.nch + j.s_channels().len(), ..set_top(h3, SJoint { channels: read_channels(j.s_channels(), h3.nch), ..top(h3) }) };
    lemma_goes_push(seq![a] + seq![b] + seq![c], d, n, h, h3);
    assert(name_lines(j) + offset_lines(p, j) + channel_lines(j) =~= seq![a] + seq![b] + seq![c] + seq![d]);
    lemma_sum_take(js, i);
    assert(h4.joints =~= h.joints.push(SJoint { end: None, ..sj(p, js, i) }));
    h4
}
// the End Site
proof fn lemma_goes_end(h: HState, p: Option<usize>, js: Seq<JointData>, i: int, n: nat) -> (h2: HState)
    requires WriteOptions::ok_precision(p), 0 <= i < js.len(), h.phase is Body, !h.open, !h.in_end, !h.sealed, h.stack.len() > 0, h.stack.last() == i,
        h.joints.len() == i + 1, h.joints[i] == (SJoint { end: None, ..sj(p, js, i) }),
    ensures
        goes(end_lines(p, js[i]), n, h, h2), h2.phase is Body, !h2.open, !h2.in_end, h2.stack == h.stack, h2.nch == h.nch,
        h2.joints == h.joints.update(i, sj(p, js, i)),
{
    let j = js[i];
    let e = end_lines(p, j);
    if j.s_end() is None { lemma_goes_none(n, h); assert(h.joints =~= h.joints.update(i, sj(p, js, i))); h }
    else {
        lemma_keyword_words();
        lemma_step_end(h, n);
        let h1 = HState { in_end: true, open: true, ..h };
        lemma_goes_one(e[0], n, h);
        lemma_step_braces(h1, n + 1);
        let h2 = HState { open: false, ..h1 };
        lemma_goes_push(seq![e[0]], e[1], n, h, h1);
        lemma_step_offset(h2, p, j.s_end()->0, n + 2);
        let h3 = set_top(h2, SJoint { end: Some(rd3(p, j.s_end()->0)), ..top(h2) });
        lemma_goes_push(seq![e[0]] + seq![e[1]], e[2], n, h, h2);
        lemma_step_braces(h3, n + 3);
        let h4 = HState { in_end: false, sealed: true, ..h3 };
        lemma_goes_push(seq![e[0]] + seq![e[1]] + seq![e[2]], e[3], n, h, h3);
        assert(e =~= seq![e[0]] + seq![e[1]] + seq![e[2]] + seq![e[3]]);
        assert(h4.joints =~= h.joints.update(i, sj(p, js, i)));
        h4
    }
}
spec fn joint_lines(p: Option<usize>, js: Seq<JointData>, i: int) -> Seq<Line> {
    (name_lines(js[i]) + offset_lines(p, js[i]) + channel_lines(js[i])) + (end_lines(p, js[i]) + closes(js[i].s_depth() as int, next_depth(js, i)))
}
proof fn lemma_goes_joint(h: HState, p: Option<usize>, js: Seq<JointData>, i: int, n: nat) -> (h2: HState)
    requires wf_tree(js), names_ok(js), WriteOptions::ok_precision(p), before(h, p, js, i), 0 <= i < js.len(),
    ensures goes(joint_lines(p, js, i), n, h, h2), before(h2, p, js, i + 1),
{
    let a = name_lines(js[i]) + offset_lines(p, js[i]) + channel_lines(js[i]);
    let e = end_lines(p, js[i]);
    let c = closes(js[i].s_depth() as int, next_depth(js, i));
    let h1 = lemma_goes_head(h, p, js, i, n);
    let h2 = lemma_goes_end(h1, p, js, i, n + a.len());
    lemma_next_depth(js, i);
    let h3 = lemma_goes_closes(h2, js[i].s_depth() as int, next_depth(js, i), n + a.len() + e.len());
    lemma_goes_add(e, c, n + a.len(), h1, h2, h3);
    lemma_goes_add(a, e + c, n, h, h1, h3);
    lemma_goes_inv(joint_lines(p, js, i), n, h, h3);
    assert(h3.joints =~= sjs(p, js, i + 1));
    h3
}
// all joints from the i-th
proof fn lemma_goes_joints(h: HState, p: Option<usize>, js: Seq<JointData>, i: int, n: nat) -> (h2: HState)
    requires wf_tree(js), names_ok(js), WriteOptions::ok_precision(p), before(h, p, js, i), 0 <= i <= js.len(),
    ensures goes(joints_lines(p, js, i), n, h, h2), before(h2, p, js, js.len() as int),
    decreases js.len() - i,
{
    lemma_joints_lines(p, js, i);
    if i == js.len() { lemma_goes_none(n, h); h }
    else {
        let a = joint_lines(p, js, i);
        let h1 = lemma_goes_joint(h, p, js, i, n);
        let h2 = lemma_goes_joints(h1, p, js, i + 1, n + a.len());
        lemma_goes_add(a, joints_lines(p, js, i + 1), n, h, h1, h2);
        assert(joints_lines(p, js, i) =~= a + joints_lines(p, js, i + 1));
        h2
    }
}
spec fn hierarchy(p: Option<usize>, js: Seq<JointData>) -> Seq<Line> { seq![ln(0, bs"HIERARCHY")] + joints_lines(p, js, 0) }
// the hierarchy that is written is read as it was
proof fn lemma_goes_hierarchy(p: Option<usize>, js: Seq<JointData>) -> (h2: HState)
    requires wf_tree(js), names_ok(js), WriteOptions::ok_precision(p),
    ensures goes(hierarchy(p, js), 0, h_start(), h2), h2.phase is Done, h2.joints == sjs(p, js, js.len() as int), h2.nch == sum_channels(js),
{
    lemma_keyword_words();
    let l = ln(0, bs"HIERARCHY");
    let t = seq![bs"HIERARCHY"];
    assert(t[0] == bs"HIERARCHY");
    let h1 = HState { phase: Phase::NeedRoot, ..h_start() };
    assert(step(h_start(), words(l.text), 0) == Ok::<HState, SErr>(h1));
    lemma_goes_one(l, 0, h_start());
    assert(h1.joints =~= sjs(p, js, 0));
    assert(js.take(0) =~= Seq::<JointData>::empty());
    assert(js.take(js.len() as int) =~= js);
    let h2 = lemma_goes_joints(h1, p, js, 0, 1);
    lemma_goes_add(seq![l], joints_lines(p, js, 0), 0, h_start(), h1, h2);
    h2
}
// ---------------------------------------------------------------- the motion section
spec fn read_row(p: Option<usize>, v: Seq<f32>) -> Seq<f32> { Seq::new(v.len(), |i: int| rd(p, v[i])) }
proof fn lemma_blanks_not(r: SLines, s: Seq<u8>)
    requires r.len() > 0, r[0] == Ok::<Seq<u8>, IoErr>(s), unicode_trim(s) == s, s.len() > 0,
    ensures blanks(r) == 0,
{}
proof fn lemma_next_is(s: Seq<u8>, r: SLines, n: nat)
    requires unicode_trim(s) == s, s.len() > 0,
    ensures next_line(seq![Ok::<Seq<u8>, IoErr>(s)] + r, n) == (Found { line: Some(Ok::<Seq<u8>, IoErr>(s)), at: n, rest: r, n: n + 1 }),
{
    let q = seq![Ok::<Seq<u8>, IoErr>(s)] + r;
    lemma_blanks_not(q, s);
    assert(q.skip(1) =~= r);
}
proof fn lemma_ascii_cat(a: Seq<u8>, w: Seq<u8>)
    requires plain(w), a.len() > 0, forall|i: int| 0 <= i < a.len() ==> 32 <= #[trigger] a[i] <= 126, a[0] != 32,
    ensures unicode_trim(a + w) == a + w, (a + w).len() > 0,
{
    let s = a + w;
    assert forall|i: int| 0 <= i < s.len() implies 32 <= #[trigger] s[i] <= 126 by { if i < a.len() { assert(s[i] == a[i]); } else { assert(plain_byte(w[i - a.len()])); } }
    assert(s[0] == a[0]);
    assert(plain_byte(w[w.len() - 1]));
    assert(s.last() == w[w.len() - 1]);
    axiom_trim(s);
}
proof fn lemma_read_section(n: nat)
    ensures unicode_trim(bs"MOTION") == bs"MOTION", section_of(Ok::<Seq<u8>, IoErr>(bs"MOTION"), n) == Ok::<(), LoadMotionError>(()),
{ axiom_trim(bs"MOTION"); }
proof fn lemma_read_count(c: usize, n: nat)
    ensures ({ let s = bs"Frames: " + usize_text(c);
        unicode_trim(s) == s && s.len() > 0 && clean(s) && frames_of(Ok::<Seq<u8>, IoErr>(s), n) == Ok::<usize, LoadMotionError>(c) }),
{
    let w = usize_text(c);
    let s = bs"Frames: " + w;
    axiom_usize_text(c);
    lemma_plain(w);
    lemma_ascii_cat(bs"Frames: ", w);
    lemma_words_one(w);
    let r = bs" " + w;
    lemma_words_indent(bs" ", w);
    lemma_words_cons(bs"Frames", 58u8, r);
    assert(s =~= bs"Frames" + seq![58u8] + r);
    let t = words(s);
    assert(t == seq![bs"Frames"] + seq![w]);
    assert(t[0] == bs"Frames" && t[1] == w);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] < 128 by { assert(plain_byte(w[i])); }
    lemma_valid_ascii(w);
    lemma_clean_cat(bs"Frames: ", w);
}
proof fn lemma_read_time(p: Option<usize>, d: Duration, n: nat)
    requires WriteOptions::ok_precision(p), rd_time(p, d) is Some,
    ensures ({ let s = bs"Frame Time: " + f64_text(p, secs_f64(d));
        unicode_trim(s) == s && s.len() > 0 && clean(s) && time_of(Ok::<Seq<u8>, IoErr>(s), n) == Ok::<Duration, LoadMotionError>(rd_time(p, d)->0) }),
{
    let w = f64_text(p, secs_f64(d));
    let s = bs"Frame Time: " + w;
    axiom_time_text(p, d);
    lemma_plain(w);
    lemma_ascii_cat(bs"Frame Time: ", w);
    lemma_clean_cat(bs"Frame Time: ", w);
    let ts = seq![bs"Frame", bs"Time:", w];
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] printable(ts[i]) by {}
    lemma_fields(ts);
    reveal(joined);
    assert(ts.drop_last() =~= seq![bs"Frame", bs"Time:"]);
    assert(ts.drop_last().drop_last() =~= seq![bs"Frame"]);
    assert(joined(ts.drop_last().drop_last(), bs" ") == bs"Frame");
    assert(joined(ts.drop_last(), bs" ") == bs"Frame" + bs" " + bs"Time:");
    assert(joined(ts, bs" ") =~= s);
    assert(ts[0] == bs"Frame" && ts[1] == bs"Time:" && ts[2] == w);
    assert(w != bs":") by { assert(plain_byte(w[0])); }
}
proof fn lemma_row_values(p: Option<usize>, v: Seq<f32>, i: nat, n: nat)
    requires WriteOptions::ok_precision(p),
    ensures row_values(Seq::new(v.len(), |k: int| f32_text(p, v[k])), i, n) == Ok::<Seq<f32>, LoadMotionError>(read_row(p, v)),
    decreases v.len(),
{
    let ts = Seq::new(v.len(), |k: int| f32_text(p, v[k]));
    if v.len() == 0 { assert(read_row(p, v) =~= Seq::empty()); }
    else {
        axiom_f32_text(p, v[0]);
        assert(ts[0] == f32_text(p, v[0]));
        assert(ts.skip(1) =~= Seq::new(v.skip(1).len(), |k: int| f32_text(p, v.skip(1)[k])));
        lemma_row_values(p, v.skip(1), i + 1, n);
        assert(read_row(p, v) =~= seq![rd(p, v[0])] + read_row(p, v.skip(1)));
    }
}
proof fn lemma_read_row(p: Option<usize>, v: Seq<f32>, n: nat)
    requires WriteOptions::ok_precision(p),
    ensures row_values(unicode_fields(row_text(p, v)), 0, n) == Ok::<Seq<f32>, LoadMotionError>(read_row(p, v)), clean(row_text(p, v)),
{
    let ts = Seq::new(v.len(), |k: int| f32_text(p, v[k]));
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] printable(ts[i]) by { axiom_f32_text(p, v[i]); lemma_plain(ts[i]); }
    assert forall|i: int| 0 <= i < ts.len() implies clean(#[trigger] ts[i]) by { axiom_f32_text(p, v[i]); lemma_plain(ts[i]); }
    lemma_fields(ts);
    lemma_clean_joined(ts);
    lemma_row_values(p, v, 0, n);
}
// the rows of a motion, in order, are its values
proof fn lemma_read_rows(s: IndentStyle, p: Option<usize>, v: Seq<f32>, w: nat, n: nat)
    requires WriteOptions::ok_precision(p), v.len() == num_rows(v, w) * w,
    ensures all_values(slines(s, row_lines(p, rows(v, w))), n) == Ok::<Seq<f32>, LoadMotionError>(read_row(p, v)),
    decreases num_rows(v, w),
{
    let ls = slines(s, row_lines(p, rows(v, w)));
    if num_rows(v, w) == 0 { assert(v.len() == 0); assert(read_row(p, v) =~= Seq::empty()); assert(ls.len() == 0); }
    else {
        let k = num_rows(v, w);
        assert(w > 0);
        assert(k * w >= w) by (nonlinear_arith) requires k >= 1;
        let (a, b) = (v.take(w as int), v.skip(w as int));
        assert(b.len() == (k - 1) * w) by (nonlinear_arith) requires b.len() == v.len() - w, v.len() == k * w;
        vstd::arithmetic::div_mod::lemma_div_by_multiple(k - 1, w as int);
        assert(num_rows(b, w) == k - 1);
        lemma_read_rows(s, p, b, w, n + 1);
        lemma_read_row(p, a, n);
        assert(rows(v, w)[0] =~= a);
        let l0 = row_lines(p, rows(v, w))[0];
        assert(content(s, l0) =~= row_text(p, a));
        assert(ls[0] == Ok::<Seq<u8>, IoErr>(row_text(p, a)));
        assert(rows(v, w).skip(1) =~= rows(b, w)) by {
            assert forall|i: int| 0 <= i < k - 1 implies #[trigger] rows(v, w).skip(1)[i] == rows(b, w)[i] by {
                assert((i + 1) * w == i * w + w && (i + 2) * w == i * w + 2 * w) by (nonlinear_arith);
                assert((i + 2) * w <= k * w) by (nonlinear_arith) requires i + 2 <= k, w >= 0;
                assert(0 <= i * w) by (nonlinear_arith) requires 0 <= i, w >= 0;
                assert(row(v, w, i + 1) =~= row(b, w, i));
            }
        }
        assert(ls.skip(1) =~= slines(s, row_lines(p, rows(b, w))));
        assert(read_row(p, v) =~= read_row(p, a) + read_row(p, b));
    }
}
proof fn lemma_rows_clean(p: Option<usize>, v: Seq<f32>, w: nat)
    requires WriteOptions::ok_precision(p),
    ensures all_clean(row_lines(p, rows(v, w))),
{
    let ls = row_lines(p, rows(v, w));
    assert forall|i: int| 0 <= i < ls.len() implies clean((#[trigger] ls[i]).text) by { lemma_read_row(p, rows(v, w)[i], 0); }
}
// a motion whose last frame is whole
spec fn whole(b: &Bvh) -> bool { b.motion_values@.len() == b.frame_seq().len() * b.num_channels }
proof fn lemma_flat(s: IndentStyle, t: Seq<u8>)
    ensures content(s, ln(0, t)) == t,
{ assert(content(s, ln(0, t)) =~= t); }
proof fn lemma_cons(s: IndentStyle, t: Seq<u8>, more: Seq<Line>)
    ensures slines(s, seq![ln(0, t)] + more) == seq![Ok::<Seq<u8>, IoErr>(t)] + slines(s, more),
{ lemma_flat(s, t); assert(slines(s, seq![ln(0, t)] + more) =~= seq![Ok::<Seq<u8>, IoErr>(t)] + slines(s, more)); }
#[verifier::spinoff_prover]
proof fn lemma_read_motion(o: &WriteOptions, b: &Bvh, n: nat)
    requires o.ok(b), whole(b), rd_time(o.pt(), b.frame_time) is Some,
    ensures
        motion(slines(o.indent, o.motion_on(b)), n, b.num_channels as nat) == Ok::<SMotion, LoadMotionError>(SMotion { time: rd_time(o.pt(), b.frame_time)->0, values: read_row(o.pm(), b.motion_values@) }),
        all_clean(o.motion_on(b)),
{
    let s = o.indent;
    let w = b.num_channels as nat;
    let c = b.frame_seq().len();
    axiom_vec_f32_len(&b.motion_values);
    assert(c <= b.motion_values@.len()) by {
        if w > 0 { lemma_div_mul(b.motion_values@.len(), w); assert(c <= c * w) by (nonlinear_arith) requires w >= 1; }
    }
    let rows_ = o.frames_lines(b);
    let (t1, t2, t3) = (bs"MOTION", count_lines(c)[0].text, time_lines(o.pt(), b.frame_time)[0].text);
    lemma_read_section(n);
    lemma_read_count(c as usize, n + 1);
    lemma_read_time(o.pt(), b.frame_time, n + 2);
    lemma_read_rows(s, o.pm(), b.motion_values@, w, n + 3);
    let r3 = slines(s, rows_);
    lemma_cons(s, t3, rows_);
    lemma_cons(s, t2, o.time_on(b));
    lemma_cons(s, t1, o.count_on(b));
    lemma_next_is(t3, r3, n + 2);
    lemma_next_is(t2, slines(s, o.time_on(b)), n + 1);
    lemma_next_is(t1, slines(s, o.count_on(b)), n);
    let m = SMotion { time: rd_time(o.pt(), b.frame_time)->0, values: read_row(o.pm(), b.motion_values@) };
    assert(w * c == c * w) by (nonlinear_arith);
    assert(motion3(r3, n + 3, w, c as usize, m.time) == Ok::<SMotion, LoadMotionError>(m));
    assert(motion2(slines(s, o.time_on(b)), n + 2, w, c as usize) == Ok::<SMotion, LoadMotionError>(m));
    assert(motion1(slines(s, o.count_on(b)), n + 1, w) == Ok::<SMotion, LoadMotionError>(m));
    lemma_rows_clean(o.pm(), b.motion_values@, w);
    lemma_clean_add(time_lines(o.pt(), b.frame_time), rows_);
    lemma_clean_add(count_lines(c), o.time_on(b));
    lemma_clean_add(seq![ln(0, t1)], o.count_on(b));
}
// ---------------------------------------------------------------- C15: the round trip
proof fn lemma_lines_clean(p: Option<usize>, js: Seq<JointData>, i: int)
    requires WriteOptions::ok_precision(p), names_ok(js), 0 <= i,
    ensures all_clean(joints_lines(p, js, i)),
    decreases js.len() - i,
{
    lemma_joints_lines(p, js, i);
    if i < js.len() {
        let j = js[i];
        lemma_lines_clean(p, js, i + 1);
        assert(word_ok(js[i].s_name()));
        assert(clean(j.s_name())) by { assert forall|k: int| 0 <= k < j.s_name().len() implies #[trigger] j.s_name()[k] != 10 && j.s_name()[k] != 13 by { assert(!is_sep(j.s_name()[k])); } }
        lemma_clean_cat(bs"ROOT ", j.s_name());
        lemma_clean_cat(bs"JOINT ", j.s_name());
        lemma_offset_words(p, j.s_offset());
        if j.s_end() is Some { lemma_offset_words(p, j.s_end()->0); }
        lemma_channels_words(j.s_channels());
        assert(clean(bs"{") && clean(bs"}") && clean(bs"End Site"));
        assert(all_clean(name_lines(j)) && all_clean(offset_lines(p, j)) && all_clean(channel_lines(j)) && all_clean(end_lines(p, j)));
        lemma_closes_clean(j.s_depth() as int, next_depth(js, i));
        lemma_clean_add(end_lines(p, j), closes(j.s_depth() as int, next_depth(js, i)));
        lemma_clean_add(tail_lines(p, js, i), joints_lines(p, js, i + 1));
        lemma_clean_add(channel_lines(j), tail_lines(p, js, i) + joints_lines(p, js, i + 1));
        lemma_clean_add(offset_lines(p, j), channel_lines(j) + (tail_lines(p, js, i) + joints_lines(p, js, i + 1)));
        lemma_clean_add(name_lines(j), offset_lines(p, j) + (channel_lines(j) + (tail_lines(p, js, i) + joints_lines(p, js, i + 1))));
    }
}
proof fn lemma_closes_clean(from: int, to: int)
    ensures all_clean(closes(from, to)),
    decreases from - to + 1,
{
    lemma_closes(from, to);
    if from >= to && from >= 0 {
        lemma_closes_clean(from - 1, to);
        assert(clean(bs"}"));
        assert(all_clean(seq![ln(from as nat, bs"}")]));
        lemma_clean_add(seq![ln(from as nat, bs"}")], closes(from - 1, to));
    }
}
// a is b, with its numbers as a file with these options gives them
spec fn reread_joint(o: &WriteOptions, x: JointData, y: JointData) -> bool {
    &&& y.s_name() == x.s_name() && y.s_channels() == x.s_channels() && y.s_private() == x.s_private()
    &&& y.s_offset()@ == rd3(o.po(), x.s_offset())
    &&& y.s_end() is Some <==> x.s_end() is Some
    &&& x.s_end() is Some ==> y.s_end()->0@ == rd3(o.po(), x.s_end()->0)
}
spec fn reread_joints(o: &WriteOptions, x: Seq<JointData>, y: Seq<JointData>, i: int) -> bool { reread_joint(o, x[i], y[i]) }
spec fn reread(o: &WriteOptions, x: &Bvh, y: &Bvh) -> bool {
    &&& y.joints@.len() == x.joints@.len() && forall|i: int| 0 <= i < x.joints@.len() ==> #[trigger] reread_joints(o, x.joints@, y.joints@, i)
    &&& y.num_channels == x.num_channels
    &&& Some(y.frame_time) == rd_time(o.pt(), x.frame_time)
    &&& y.motion_values@ == read_row(o.pm(), x.motion_values@)
}
// a motion that a file can express
spec fn expressible(o: &WriteOptions, b: &Bvh) -> bool {
    &&& wf_tree(b.joints@) && wf_numbers(b.joints@, b.num_channels as nat) && names_ok(b.joints@) && whole(b)
    &&& rd_time(o.pt(), b.frame_time) is Some
}
#[verifier::spinoff_prover]
proof fn lemma_round_trip(o: &WriteOptions, b: &Bvh, r: Result<Bvh, LoadError>)
    requires o.ok(b), expressible(o, b), loads(file_lines(o.text(b)), r),
    ensures r is Ok, reread(o, b, &r->Ok_0),
{
    let (js, p, s) = (b.joints@, o.po(), o.indent);
    let hier = hierarchy(p, js);
    assert(o.doc(b) =~= hier + o.motion_on(b));
    let h = lemma_goes_hierarchy(p, js);
    lemma_read_motion(o, b, hier.len());
    lemma_lines_clean(p, js, 0);
    assert(clean(bs"HIERARCHY"));
    assert(all_clean(seq![ln(0, bs"HIERARCHY")]));
    lemma_clean_add(seq![ln(0, bs"HIERARCHY")], joints_lines(p, js, 0));
    lemma_clean_add(hier, o.motion_on(b));
    lemma_file_lines(s, o.line_terminator, o.doc(b));
    lemma_slines_add(s, hier, o.motion_on(b));
    lemma_goes_run(s, hier, slines(s, o.motion_on(b)), 0, h_start(), h);
    let y = r->Ok_0;
    assert forall|i: int| 0 <= i < js.len() implies #[trigger] reread_joints(o, js, y.joints@, i) by {
        assert(stored(y.joints@, h.joints, i));
        let (a, c) = (js[i], y.joints@[i]);
        if i > 0 { assert(child_ok(js, i)); }
        assert forall|k: int| 0 <= k < a.s_channels().len() implies #[trigger] c.s_channels()[k] == a.s_channels()[k] by { assert(index_ok(js, i, k)); }
        assert(c.s_channels() =~= a.s_channels());
    }
}
// without precisions nothing is lost: every number is the same number, and the frame time the same if it is the one
// nearest to its number of seconds
spec fn same_numbers(a: Seq<f32>, b: Seq<f32>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_number(#[trigger] a[i], b[i]) }
spec fn same_joint_as(x: JointData, y: JointData) -> bool {
    &&& y.s_name() == x.s_name() && y.s_channels() == x.s_channels() && y.s_private() == x.s_private()
    &&& same_numbers(x.s_offset()@, y.s_offset()@)
    &&& y.s_end() is Some <==> x.s_end() is Some
    &&& x.s_end() is Some ==> same_numbers(x.s_end()->0@, y.s_end()->0@)
}
spec fn same_joints_as(x: Seq<JointData>, y: Seq<JointData>, i: int) -> bool { same_joint_as(x[i], y[i]) }
spec fn same_motion(x: &Bvh, y: &Bvh) -> bool {
    &&& y.joints@.len() == x.joints@.len() && forall|i: int| 0 <= i < x.joints@.len() ==> #[trigger] same_joints_as(x.joints@, y.joints@, i)
    &&& y.num_channels == x.num_channels && y.frame_time == x.frame_time
    &&& same_numbers(x.motion_values@, y.motion_values@)
}
proof fn lemma_same_offset(o: Offset)
    ensures same_numbers(o@, rd3(None, o)),
{ axiom_f32_text(None, o@[0]); axiom_f32_text(None, o@[1]); axiom_f32_text(None, o@[2]); }
proof fn lemma_round_trip_exact(o: &WriteOptions, b: &Bvh, r: Result<Bvh, LoadError>)
    requires o.ok(b), expressible(o, b), loads(file_lines(o.text(b)), r),
        o.po() is None, o.pt() is None, o.pm() is None, nearest_duration(secs_f64(b.frame_time)) == Some(b.frame_time),
    ensures r is Ok, same_motion(b, &r->Ok_0),
{
    lemma_round_trip(o, b, r);
    let y = r->Ok_0;
    axiom_time_text(None, b.frame_time);
    assert forall|i: int| 0 <= i < b.joints@.len() implies #[trigger] same_joints_as(b.joints@, y.joints@, i) by {
        assert(reread_joints(o, b.joints@, y.joints@, i));
        lemma_same_offset(b.joints@[i].s_offset());
        if b.joints@[i].s_end() is Some { lemma_same_offset(b.joints@[i].s_end()->0); }
    }
    assert forall|i: int| 0 <= i < b.motion_values@.len() implies same_number(#[trigger] b.motion_values@[i], y.motion_values@[i]) by { axiom_f32_text(None, b.motion_values@[i]); }
}
// the condition on the depths holds for every tree
proof fn lemma_depths(js: Seq<JointData>, i: int)
    requires wf_tree(js), 0 <= i < js.len(),
    ensures js[i].s_depth() <= i,
    decreases i,
{
    if i > 0 { assert(child_ok(js, i)); lemma_depths(js, js[i].s_private()->0.parent_index as int); }
}
proof fn lemma_text_ok(o: &WriteOptions, b: &Bvh)
    requires wf_tree(b.joints@), WriteOptions::ok_precision(o.po()), WriteOptions::ok_precision(o.pt()), WriteOptions::ok_precision(o.pm()),
        o.indent is Spaces ==> o.indent->Spaces_0.v * (b.joints@.len() + 2) <= usize::MAX,
    ensures o.ok(b),
{ assert forall|i: int| 0 <= i < b.joints@.len() implies #[trigger] b.joints@[i].s_depth() <= b.joints@.len() by { lemma_depths(b.joints@, i); } }
// C15 as a program: what is written with write_to_string and loaded with from_bytes is the same motion
fn vx_round_trip(o: &WriteOptions, b: &Bvh) -> (r: Result<Bvh, LoadError>)
    requires o.ok(b), expressible(o, b),
    ensures r is Ok, reread(o, b, &r->Ok_0),
        o.po() is None && o.pt() is None && o.pm() is None && nearest_duration(secs_f64(b.frame_time)) == Some(b.frame_time) ==> same_motion(b, &r->Ok_0),
{
    let t = o.write_to_string(b);
    let r = Bvh::from_bytes(t.as_slice());
    proof {
        lemma_round_trip(o, b, r);
        if o.po() is None && o.pt() is None && o.pm() is None && nearest_duration(secs_f64(b.frame_time)) == Some(b.frame_time) { lemma_round_trip_exact(o, b, r); }
    }
    r
}
// ---------------------------------------------------------------- what was loaded can be written and loaded again
proof fn lemma_words_ok(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < words(s).len() ==> word_ok(#[trigger] words(s)[i]),
    decreases s.len(),
{
    if s.len() == 0 {
    } else if is_sep(s[0]) {
        lemma_words_ok(s.skip(1));
        assert(words(s) == words(s.skip(1)));
    } else {
        let n = word_len(s) as int;
        lemma_word_len(s);
        lemma_words_ok(s.skip(n));
        let t = words(s.skip(n));
        assert(words(s) == seq![s.take(n)] + t);
        assert(word_ok(s.take(n)));
        assert forall|i: int| 0 <= i < words(s).len() implies word_ok(#[trigger] words(s)[i]) by {
            if i > 0 { assert(words(s)[i] == t[i - 1]); } else { assert(words(s)[0] == s.take(n)); }
        }
    }
}
spec fn snames_ok(js: Seq<SJoint>) -> bool { forall|i: int| 0 <= i < js.len() ==> word_ok((#[trigger] js[i]).name) }
proof fn lemma_run_names(r: SLines, n: nat, h: HState)
    requires snames_ok(h.joints),
    ensures run(r, n, h).res is Ok ==> snames_ok(run(r, n, h).res->Ok_0.joints),
    decreases r.len(),
{
    if !(h.phase is Done) && r.len() > 0 && r[0] is Ok {
        let t = words(r[0]->Ok_0);
        lemma_words_ok(r[0]->Ok_0);
        if t.len() >= 2 { assert(word_ok(t[1])); }
        if step(h, t, n) is Ok { assert(snames_ok(step(h, t, n)->Ok_0.joints)); lemma_run_names(r.skip(1), n + 1, step(h, t, n)->Ok_0); }
    }
}
proof fn lemma_loaded_expressible(o: &WriteOptions, s: SLines, r: Result<Bvh, LoadError>)
    requires loads(s, r), r is Ok, rd_time(o.pt(), r->Ok_0.frame_time) is Some,
    ensures expressible(o, &r->Ok_0),
{
    let b = r->Ok_0;
    let h = run(s, 0, h_start()).res->Ok_0;
    lemma_loads_wf(s, r);
    lemma_run_names(s, 0, h_start());
    assert forall|i: int| 0 <= i < b.joints@.len() implies word_ok((#[trigger] b.joints@[i]).s_name()) by { assert(stored(b.joints@, h.joints, i)); assert(word_ok(h.joints[i].name)); }
    let q = run(s, 0, h_start());
    let f0 = next_line(q.rest, q.at);
    let f1 = next_line(f0.rest, f0.n);
    let frames = frames_of(f1.line->0, f1.at)->Ok_0;
    let (v, w) = (b.motion_values@, b.num_channels as nat);
    assert(v.len() == w * frames);
    if w > 0 { vstd::arithmetic::div_mod::lemma_div_by_multiple(frames as int, w as int); assert(w * frames == frames * w) by (nonlinear_arith); assert(num_rows(v, w) == frames); }
    else { assert(v.len() == 0) by (nonlinear_arith) requires v.len() == w * frames, w == 0; }
}
// load, write, load: the same motion
fn vx_load_write_load(o: &WriteOptions, bytes: &[u8]) -> (r: Result<(Bvh, Result<Bvh, LoadError>), LoadError>)
    requires
        o.po() is None, o.pt() is None, o.pm() is None,
        forall|b: Bvh| o.indent is Spaces ==> o.indent->Spaces_0.v * (#[trigger] b.joints@.len() + 2) <= usize::MAX,
    ensures
        loads(file_lines(bytes@), match r { Ok(p) => Ok(p.0), Err(e) => Err(e) }),
        r is Ok && nearest_duration(secs_f64((r->Ok_0.0).frame_time)) == Some((r->Ok_0.0).frame_time) ==> (r->Ok_0.1) is Ok && same_motion(&(r->Ok_0.0), &(r->Ok_0.1)->Ok_0),
{
    let a = match Bvh::from_bytes(bytes) { Ok(a) => a, Err(e) => return Err(e) };
    let ghost ra = Ok::<Bvh, LoadError>(a);
    proof { lemma_loads_wf(file_lines(bytes@), ra); lemma_text_ok(o, &a); }
    let t = o.write_to_string(&a);
    let rb = Bvh::from_bytes(t.as_slice());
    proof {
        axiom_time_text(None, a.frame_time);
        if nearest_duration(secs_f64(a.frame_time)) == Some(a.frame_time) { lemma_loaded_expressible(o, file_lines(bytes@), ra); lemma_round_trip_exact(o, &a, rb); }
    }
    Ok((a, rb))
}
