//@raw
//@props C01 C03 C05 C06
// ================================================================ words: bstr's fields over its UTF-8 decoding
// The bytes which char::is_ascii_whitespace accepts, and ':'
spec fn is_ascii_ws(b: u8) -> bool { b == 9 || b == 10 || b == 12 || b == 13 || b == 32 }
spec fn is_sep(b: u8) -> bool { is_ascii_ws(b) || b == 58 }
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == (*c == '\t' || *c == '\n' || *c == '\x0c' || *c == '\r' || *c == ' ');

// The maximal runs of bytes which are not separators.
spec fn word_len(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 || is_sep(s[0]) { 0 } else { 1 + word_len(s.skip(1)) } }
spec fn words(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if is_sep(s[0]) { words(s.skip(1)) }
    else { let n = word_len(s) as int; if 0 < n <= s.len() { seq![s.take(n)] + words(s.skip(n)) } else { Seq::empty() } }
}
// The first character of some bytes, as bstr decodes it, and how many of the bytes it takes: a state machine over
// classes of bytes (the tables CLASSES and STATES_FORWARD as formulas; Unicode's table 3-7 of well-formed sequences)
spec fn class_of(b: u8) -> u8 {
    if b < 0x80 { 0 } else if b < 0x90 { 1 } else if b < 0xA0 { 9 } else if b < 0xC0 { 7 } else if b < 0xC2 { 8 } else if b < 0xE0 { 2 } else if b == 0xE0 { 10 }
    else if b == 0xED { 4 } else if b < 0xF0 { 3 } else if b == 0xF0 { 11 } else if b < 0xF4 { 6 } else if b == 0xF4 { 5 } else { 8 }
}
spec fn next_state(s: int, c: u8) -> int {
    if s == 12 { if c == 0 { 12 } else if c == 2 { 24 } else if c == 3 { 36 } else if c == 4 { 60 } else if c == 5 { 96 } else if c == 6 { 84 } else if c == 10 { 48 } else if c == 11 { 72 } else { 0 } }
    else if s == 24 { if c == 1 || c == 7 || c == 9 { 12 } else { 0 } }
    else if s == 36 { if c == 1 || c == 7 || c == 9 { 24 } else { 0 } }
    else if s == 48 { if c == 7 { 24 } else { 0 } }
    else if s == 60 { if c == 1 || c == 9 { 24 } else { 0 } }
    else if s == 72 { if c == 7 || c == 9 { 36 } else { 0 } }
    else if s == 84 { if c == 1 || c == 7 || c == 9 { 36 } else { 0 } }
    else if s == 96 { if c == 1 { 36 } else { 0 } }
    else { 0 }
}
spec fn is_state(s: int) -> bool { s == 0 || s == 12 || s == 24 || s == 36 || s == 48 || s == 60 || s == 72 || s == 84 || s == 96 }

spec fn step_cp(st: int, cp: u32, b: u8) -> u32 {
    if st == 12 { (0xFFu32 >> (class_of(b) as u32)) & (b as u32) } else { (b as u32 & 0b111111) | (cp << 6) }
}
// what the state machine has read when it is in a state
spec fn in_state(st: int, cp: u32) -> bool {
    if st == 24 { 2 <= cp <= 0x43FF && !(0x360 <= cp <= 0x37F) }
    else if st == 36 { 1 <= cp <= 0x10F && cp != 0xD }
    else if st == 48 { cp == 0 } else if st == 60 { cp == 0xD } else if st == 72 { cp == 0 }
    else if st == 84 { 1 <= cp <= 3 } else if st == 96 { cp == 4 }
    else { st == 0 || st == 12 }
}
proof fn lemma_first(b: u8)
    requires b >= 128,
    ensures next_state(12, class_of(b)) != 12, in_state(next_state(12, class_of(b)), step_cp(12, 0, b)),
{
    assert(b >= 0xC2 && b < 0xE0 ==> (0xFFu32 >> 2u32) & (b as u32) >= 2 && (0xFFu32 >> 2u32) & (b as u32) <= 0x3f) by (bit_vector);
    assert(b > 0xE0 && b < 0xF0 && b != 0xED ==> (0xFFu32 >> 3u32) & (b as u32) >= 1 && (0xFFu32 >> 3u32) & (b as u32) <= 0x1f && (0xFFu32 >> 3u32) & (b as u32) != 0xD) by (bit_vector);
    assert(b == 0xE0 ==> (0xFFu32 >> 10u32) & (b as u32) == 0) by (bit_vector);
    assert(b == 0xED ==> (0xFFu32 >> 4u32) & (b as u32) == 0xD) by (bit_vector);
    assert(b == 0xF0 ==> (0xFFu32 >> 11u32) & (b as u32) == 0) by (bit_vector);
    assert(b > 0xF0 && b < 0xF4 ==> (0xFFu32 >> 6u32) & (b as u32) >= 1 && (0xFFu32 >> 6u32) & (b as u32) <= 3) by (bit_vector);
    assert(b == 0xF4 ==> (0xFFu32 >> 5u32) & (b as u32) == 4) by (bit_vector);
}
proof fn lemma_more(st: int, cp: u32, b: u8)
    requires in_state(st, cp), st != 0, st != 12,
    ensures ({
        let (t, d) = (next_state(st, class_of(b)), step_cp(st, cp, b));
        (t != 0 ==> b >= 128) && in_state(t, d) && (t == 12 ==> 128 <= d <= 0x10FFFF && !(0xD800 <= d <= 0xDFFF))
    }),
{
    let d = (b as u32 & 0b111111) | (cp << 6);
    assert(cp <= 0xFFFFFF ==> d == cp * 64 + (b as u32) % 64) by (bit_vector) requires d == (b as u32 & 0b111111) | (cp << 6u32);
}
fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if b < a { a } else { b }) { if b < a { a } else { b } }
spec fn char_of(cp: u32) -> char { cp as char }
#[verifier::external_body]
fn from_u32_unchecked(cp: u32) -> (r: char)
    requires cp <= 0x10FFFF, !(0xD800 <= cp <= 0xDFFF)
    ensures r as u32 == cp
{ unimplemented!() }
spec fn dfa(s: Seq<u8>, st: int, cp: u32, i: int) -> (Option<char>, nat) decreases s.len() - i {
    if i < 0 || i >= s.len() { (None, i as nat) }
    else {
        let (t, d) = (next_state(st, class_of(s[i])), step_cp(st, cp, s[i]));
        if t == 12 { (Some(char_of(d)), (i + 1) as nat) }
        else if t == 0 { (None, if i < 1 { 1nat } else { i as nat }) }
        else { dfa(s, t, d, i + 1) }
    }
}
#[verifier::opaque]
spec fn dec(s: Seq<u8>) -> (char, nat) {
    let d = if s.len() == 0 { (None, 0nat) } else if s[0] < 128 { (Some(s[0] as char), 1nat) } else { dfa(s, 12, 0, 0) };
    (match d.0 { Some(c) => c, None => '\u{FFFD}' }, d.1)
}
proof fn lemma_dfa(s: Seq<u8>, st: int, cp: u32, i: int)
    requires 0 < i <= s.len(), in_state(st, cp), st != 0, st != 12, forall|k: int| 0 <= k < i ==> #[trigger] s[k] >= 128
    ensures ({ let d = dfa(s, st, cp, i); 1 <= d.1 <= s.len() && (forall|k: int| 0 <= k < d.1 ==> #[trigger] s[k] >= 128) && (match d.0 { Some(c) => c as u32 >= 128, None => true }) })
    decreases s.len() - i
{
    if i < s.len() { lemma_more(st, cp, s[i]);
        let (t, d) = (next_state(st, class_of(s[i])), step_cp(st, cp, s[i]));
        if t != 12 && t != 0 { lemma_dfa(s, t, d, i + 1); } 
    }
}
proof fn lemma_dec(s: Seq<u8>)
    ensures
        s.len() == 0 ==> dec(s).1 == 0,
        s.len() > 0 ==> 1 <= dec(s).1 <= s.len(),
        s.len() > 0 && s[0] < 128 ==> dec(s) == (s[0] as char, 1nat),
        s.len() > 0 && s[0] >= 128 ==> dec(s).0 as u32 >= 128 && forall|i: int| 0 <= i < dec(s).1 ==> #[trigger] s[i] >= 128,
{
    reveal(dec);
    if s.len() > 0 && s[0] >= 128 {
        lemma_first(s[0]);
        let (t, d) = (next_state(12, class_of(s[0])), step_cp(12, 0, s[0]));
        if t != 0 { lemma_dfa(s, t, d, 1); }
    }
}
// The maximal runs of characters of which p does not hold.
type Pred = spec_fn(char) -> bool;
#[verifier::opaque]
spec fn run_len(s: Seq<u8>, p: Pred) -> nat decreases s.len() {
    let d = dec(s);
    if s.len() == 0 || d.1 == 0 || d.1 > s.len() || p(d.0) { 0 } else { d.1 + run_len(s.skip(d.1 as int), p) }
}
#[verifier::opaque]
spec fn fields_by(s: Seq<u8>, p: Pred) -> Seq<Seq<u8>> decreases s.len() {
    let d = dec(s);
    if s.len() == 0 || d.1 == 0 || d.1 > s.len() { Seq::empty() }
    else if p(d.0) { fields_by(s.skip(d.1 as int), p) }
    else { let n = run_len(s, p) as int; if 0 < n <= s.len() { seq![s.take(n)] + fields_by(s.skip(n), p) } else { Seq::empty() } }
}
proof fn lemma_run_len(s: Seq<u8>, p: Pred)
    ensures
        run_len(s, p) <= s.len(), s.len() == 0 ==> run_len(s, p) == 0,
        s.len() > 0 ==> run_len(s, p) == (if p(dec(s).0) { 0 } else { dec(s).1 + run_len(s.skip(dec(s).1 as int), p) }),
    decreases s.len(),
{
    reveal(run_len);
    lemma_dec(s);
    if s.len() > 0 { lemma_run_len(s.skip(dec(s).1 as int), p); }
}
proof fn lemma_fields_by(s: Seq<u8>, p: Pred)
    ensures
        s.len() == 0 ==> fields_by(s, p).len() == 0,
        s.len() > 0 && p(dec(s).0) ==> fields_by(s, p) == fields_by(s.skip(dec(s).1 as int), p),
        s.len() > 0 && !p(dec(s).0) ==> run_len(s, p) > 0 && ({
            let f = fields_by(s, p); let n = run_len(s, p) as int;
            f == seq![s.take(n)] + fields_by(s.skip(n), p) && f.len() > 0 && f[0] == s.take(n) && f.skip(1) == fields_by(s.skip(n), p)
        }),
{
    reveal(fields_by);
    lemma_dec(s);
    lemma_run_len(s, p);
    if s.len() > 0 && !p(dec(s).0) { assert((seq![s.take(run_len(s, p) as int)] + fields_by(s.skip(run_len(s, p) as int), p)).skip(1) =~= fields_by(s.skip(run_len(s, p) as int), p)); }
}
proof fn lemma_step(all: Seq<u8>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= all.len(),
    ensures all.skip(i).skip(n) == all.skip(i + n),
{ assert(all.skip(i).skip(n) =~= all.skip(i + n)); }
// every separator of the file format, and nothing else, separates words
spec fn sep_char(c: char) -> bool { (c as u32) < 128 && is_sep((c as u32) as u8) }
spec fn sep_pred() -> Pred { |c: char| sep_char(c) }
proof fn lemma_word_run(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> !is_sep(#[trigger] s[i]),
    ensures word_len(s) == n + word_len(s.skip(n)),
    decreases n,
{
    if n == 0 { assert(s.skip(0) =~= s); }
    else {
        assert(!is_sep(s[0]));
        assert forall|i: int| 0 <= i < n - 1 implies !is_sep(#[trigger] s.skip(1)[i]) by { assert(!is_sep(s[i + 1])); }
        lemma_word_run(s.skip(1), n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
    }
}
// what one character is to the words
proof fn lemma_dec_sep(s: Seq<u8>)
    requires s.len() > 0,
    ensures
        sep_char(dec(s).0) == is_sep(s[0]), is_sep(s[0]) ==> dec(s).1 == 1,
        !is_sep(s[0]) ==> word_len(s) == dec(s).1 + word_len(s.skip(dec(s).1 as int)),
{
    lemma_dec(s);
    let n = dec(s).1 as int;
    if !is_sep(s[0]) {
        assert forall|i: int| 0 <= i < n implies !is_sep(#[trigger] s[i]) by {}
        lemma_word_run(s, n);
    }
}
proof fn lemma_run_words(s: Seq<u8>)
    ensures run_len(s, sep_pred()) == word_len(s),
    decreases s.len(),
{
    lemma_run_len(s, sep_pred());
    if s.len() > 0 {
        lemma_dec(s);
        lemma_dec_sep(s);
        if !is_sep(s[0]) { lemma_run_words(s.skip(dec(s).1 as int)); }
    }
}
proof fn lemma_fields_words(s: Seq<u8>)
    ensures fields_by(s, sep_pred()) == words(s),
    decreases s.len(),
{
    lemma_fields_by(s, sep_pred());
    if s.len() > 0 {
        lemma_dec(s);
        lemma_dec_sep(s);
        lemma_run_words(s);
        lemma_run_len(s, sep_pred());
        if is_sep(s[0]) { lemma_fields_words(s.skip(1)); } else { lemma_fields_words(s.skip(word_len(s) as int)); }
    } else { assert(fields_by(s, sep_pred()) =~= words(s)); }
}
// char::is_whitespace
pub uninterp spec fn white_space(c: char) -> bool;
mod unicode {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[verifier::external_body] #[allow(non_snake_case)]
    pub fn White_Space(c: char) -> (r: bool) ensures r == super::white_space(c) { c.is_whitespace() }
}
spec fn ws_char(c: char) -> bool { if (c as u32) <= 0x84 { c == ' ' || 9 <= c as u32 <= 13 } else { white_space(c) } }
spec fn ws_pred() -> Pred { |c: char| ws_char(c) }
spec fn unicode_fields(s: Seq<u8>) -> Seq<Seq<u8>> { fields_by(s, ws_pred()) }
// bstr's trim, uninterpreted here
uninterp spec fn unicode_trim(s: Seq<u8>) -> Seq<u8>;

// A predicate of characters: a closure, or char::is_whitespace (bstr: a function pointer)
trait CharPred {
    spec fn says(&self, c: char, q: bool) -> bool;
    spec fn able(&self) -> bool;
    fn test(&self, c: char) -> (q: bool) requires self.able() ensures self.says(c, q);
}
struct FnPred<F> { f: F }
impl<F: Fn(char) -> bool> CharPred for FnPred<F> {
    spec fn says(&self, c: char, q: bool) -> bool { self.f.ensures((c,), q) }
    spec fn able(&self) -> bool { forall|c: char| self.f.requires((c,)) }
    fn test(&self, c: char) -> (q: bool) { (self.f)(c) }
}
struct WsPred;
impl CharPred for WsPred {
    spec fn says(&self, c: char, q: bool) -> bool { q == ws_char(c) }
    spec fn able(&self) -> bool { true }
    fn test(&self, c: char) -> (q: bool) { is_whitespace(c) }
}
impl<'a> CharIndices<'a> {
    spec fn wf(&self) -> bool { self.forward_index + self.bs@.len() <= usize::MAX }
}
impl<'a, F: CharPred> FieldsWith<'a, F> {
    spec fn wf(&self) -> bool {
        &&& self.f.able() && forall|c: char, q: bool| #[trigger] self.f.says(c, q) ==> q == (self.p@)(c)
        &&& self.chars.forward_index + self.chars.bs@.len() == self.bytes@.len() && self.chars.bs@ == self.bytes@.skip(self.chars.forward_index as int)
    }
    // the fields still to come
    spec fn rem(&self) -> Seq<Seq<u8>> { fields_by(self.chars.bs@, self.p@) }
}
impl<'a> Fields<'a> {
    spec fn wf(&self) -> bool { self.it.wf() }
    spec fn rem(&self) -> Seq<Seq<u8>> { self.it.rem() }
    fn enumerate(self) -> (r: Enumerate<Fields<'a>>) requires self.wf() ensures r.rem() == self.rem(), r.count() == 0, r.wf()
    { assert(self.it.bytes.len() == self.it.bytes@.len()); Enumerate::new(self) }
}
impl<'a> Enumerate<Fields<'a>> {
    spec fn rem(&self) -> Seq<Seq<u8>> { self.iter.rem() }
    spec fn count(&self) -> nat { self.count as nat }
    // every field takes a byte at least
    spec fn wf(&self) -> bool { self.iter.wf() && self.count + self.iter.it.chars.bs@.len() <= usize::MAX }
}
fn vx_fields_with<'a, F: Fn(char) -> bool>(bytes: &'a [u8], f: F) -> (r: FieldsWith<'a, FnPred<F>>)
    requires
        forall|c: char| f.requires((c,)),
        forall|c: char, q: bool| #[trigger] f.ensures((c,), q) ==> q == ((c as u32) < 128 && is_sep((c as u32) as u8)),
    ensures r.wf(), r.rem() == words(bytes@),
{
    proof { lemma_fields_words(bytes@); }
    FieldsWith::new(bytes, FnPred { f }, Ghost(sep_pred()))
}
trait ByteSlice {
    spec fn bytes(&self) -> Seq<u8>;
    fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes();
    fn fields_with<F: Fn(char) -> bool>(&self, f: F) -> (r: FieldsWith<'_, FnPred<F>>)
        requires
            forall|c: char| f.requires((c,)),
            forall|c: char, q: bool| #[trigger] f.ensures((c,), q) ==> q == ((c as u32) < 128 && is_sep((c as u32) as u8)),
        ensures r.wf(), r.rem() == words(self.bytes())
    { vx_fields_with(self.vx_bytes(), f) }
    fn fields(&self) -> (r: Fields<'_>) ensures r.wf(), r.rem() == unicode_fields(self.bytes()) { Fields::new(self.vx_bytes()) }
    fn trim(&self) -> (r: &[u8]) ensures r@ == unicode_trim(self.bytes());
}
impl ByteSlice for [u8] {
    spec fn bytes(&self) -> Seq<u8> { self@ }
    fn vx_bytes(&self) -> (r: &[u8]) { self }
    #[verifier::external_body]
    fn trim(&self) -> (r: &[u8]) { unimplemented!() }
}
impl ByteSlice for Vec<u8> {
    spec fn bytes(&self) -> Seq<u8> { self@ }
    fn vx_bytes(&self) -> (r: &[u8]) { self.as_slice() }
    #[verifier::external_body]
    fn trim(&self) -> (r: &[u8]) { unimplemented!() }
}
//@item dep:std/core/src/char/methods.rs | impl char | fn is_whitespace
//@name std: char::is_whitespace
//@props ?C01 C05 C06
fn is_whitespace(⟦~ self ~> vx_c: char ⟧) -> ⟦~ bool ~> (r: bool) ensures r == ws_char(vx_c) ⟧ {
    match ⟦~ self ~> vx_c ⟧ {
        ' ' | '\x09'..='\x0d' => true,
        '\0'..='\u{84}' => false,
        _ => unicode::White_Space(⟦~ self ~> vx_c ⟧),
    }
}
//@item dep:bstr/src/utf8.rs | const ACCEPT
const ACCEPT: usize = 12;
//@item dep:bstr/src/utf8.rs | const REJECT
const REJECT: usize = 0;
//@item dep:bstr/src/utf8.rs | const CLASSES
const CLASSES: [u8; 256] = [
   0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,  9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,
   7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
   8,8,2,2,2,2,2,2,2,2,2,2,2,2,2,2,  2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
  10,3,3,3,3,3,3,3,3,3,3,3,3,4,3,3, 11,6,6,6,5,8,8,8,8,8,8,8,8,8,8,8,
];
//@item dep:bstr/src/utf8.rs | const STATES_FORWARD
const STATES_FORWARD: ⟦~ &'static [u8] = & ~> [u8; 108] = ⟧[
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  12, 0, 24, 36, 60, 96, 84, 0, 0, 0, 48, 72,
  0, 12, 0, 0, 0, 0, 0, 12, 0, 12, 0, 0,
  0, 24, 0, 0, 0, 0, 0, 24, 0, 24, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 24, 0, 0, 0, 0,
  0, 24, 0, 0, 0, 0, 0, 0, 0, 24, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 36, 0, 36, 0, 0,
  0, 36, 0, 0, 0, 0, 0, 36, 0, 36, 0, 0,
  0, 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
];
//@item dep:bstr/src/utf8.rs | fn decode_step
//@name bstr: decode_step
//@props ?C01 C03 C05 C06
fn decode_step(state: &mut usize, cp: &mut u32, b: u8)
⟦   requires is_state(*old(state) as int),
    ensures *final(state) == next_state(*old(state) as int, class_of(b)), *final(cp) == step_cp(*old(state) as int, *old(cp), b),
⟧ {
    let class = CLASSES[b as usize];
    ⟦ assert(class == class_of(b) && class <= 11); ⟧
    if *state == ACCEPT {
        *cp = (0xFF >> class) & (b as u32);
    } else {
        *cp = (b as u32 & 0b111111) | (*cp << 6);
    }
    *state = STATES_FORWARD[*state + class as usize] as usize;
}
//@item dep:bstr/src/utf8.rs | fn decode
//@name bstr: decode
//@props ?C01 C03 C05 C06
fn decode⟦~ <B: AsRef<[u8]>> ~> ⟧(slice: ⟦~ B ~> &[u8] ⟧) -> ⟦~ (Option<char>, usize) ~> (r: (Option<char>, usize))
    ensures dec(slice@) == (match r.0 { Some(c) => c, None => '\u{FFFD}' }, r.1 as nat), ⟧ {
    ⟦~ let slice = slice.as_ref(); ~> proof { reveal(dec); } ⟧
    match slice.get(0) {
        None => return (None, 0),
        Some(⟦~ &b ~> b ⟧) if ⟦~ b ~> *b ⟧ <= 0x7F => return (Some(⟦~ b ~> *b ⟧ as char), 1),
        _ => {}
    }
    let (mut state, mut cp, mut i) = (ACCEPT, 0, 0);
    while i < slice.len()
    ⟦   invariant
            i <= slice@.len(), slice@.len() > 0, slice@[0] >= 128, i == 0 ==> state == 12 && cp == 0,
            i > 0 ==> state != 12 && state != 0 && in_state(state as int, cp),
            dfa(slice@, 12, 0, 0) == dfa(slice@, state as int, cp, i as int),
        decreases slice@.len() - i,
    ⟧ {
        ⟦ proof { reveal(dec); if i == 0 { lemma_first(slice@[0]); } else { lemma_more(state as int, cp, slice@[i as int]); } } ⟧
        decode_step(&mut state, &mut cp, slice[i]);
        i += 1;

        if state == ACCEPT {
            let ch = unsafe { ⟦~ char::from_u32_unchecked(cp) ~> from_u32_unchecked(cp) ⟧ };
            ⟦ assert(ch == char_of(cp)); ⟧
            return (Some(ch), i);
        } else if state == REJECT {
            return (None, ⟦~ cmp::max ~> vx_max ⟧(1, i.saturating_sub(1)));
        }
    }
    (None, i)
}
//@item dep:bstr/src/utf8.rs | fn decode_lossy
//@name bstr: decode_lossy
//@props ?C01 C03 C05 C06
fn decode_lossy⟦~ <B: AsRef<[u8]>> ~> ⟧(slice: ⟦~ B ~> &[u8] ⟧) -> ⟦~ (char, usize) ~> (r: (char, usize)) ensures (r.0, r.1 as nat) == dec(slice@) ⟧ {
    match decode(slice) {
        (Some(ch), size) => (ch, size),
        (None, size) => ('\u{FFFD}', size),
    }
}
//@item dep:bstr/src/utf8.rs | struct CharIndices
struct CharIndices<'a> {
    bs: &'a [u8],
    forward_index: usize,
    reverse_index: usize,
}
//@item dep:bstr/src/utf8.rs | impl<'a> CharIndices<'a> | fn new
//@name bstr: CharIndices::new
//@props ?C01 C03 C05 C06
//@emit impl<'a> CharIndices<'a>
fn new(bs: &'a [u8]) -> ⟦~ CharIndices<'a> ~> (r: CharIndices<'a>) ensures r.bs == bs, r.forward_index == 0 ⟧ {
    CharIndices { bs: bs, forward_index: 0, reverse_index: bs.len() }
}
//@item dep:bstr/src/utf8.rs | impl<'a> Iterator for CharIndices<'a> | fn next
//@name bstr: CharIndices::next
//@props ?C01 C03 C05 C06
//@emit impl<'a> CharIndices<'a>
fn next(&mut self) -> ⟦~ Option<(usize, usize, char)> ~> (r: Option<(usize, usize, char)>)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).bs@.len() == 0 ==> r is None && final(self).bs@ == old(self).bs@ && final(self).forward_index == old(self).forward_index,
        old(self).bs@.len() > 0 ==> ({
            let d = dec(old(self).bs@);
            &&& r is Some && (r->0).0 == old(self).forward_index && (r->0).1 == old(self).forward_index + d.1 && (r->0).2 == d.0
            &&& final(self).bs@ == old(self).bs@.skip(d.1 as int) && final(self).forward_index == old(self).forward_index + d.1
        }), ⟧ {
    ⟦ proof { lemma_dec(self.bs@); } ⟧
    let index = self.forward_index;
    let (ch, size) = decode_lossy(self.bs);
    if size == 0 {
        return None;
    }
    self.bs = ⟦~ &self.bs[size..] ~> vx_from(self.bs, size) ⟧;
    self.forward_index += size;
    Some((index, index + size, ch))
}
//@item dep:bstr/src/ext_slice.rs | struct FieldsWith
struct FieldsWith<'a, F> {
    f: F,
    bytes: &'a [u8],
    chars: CharIndices<'a>,
    ⟦ p: Ghost<Pred>, ⟧
}
//@item dep:bstr/src/ext_slice.rs | impl<'a, F: FnMut(char) -> bool> FieldsWith<'a, F> | fn new
//@name bstr: FieldsWith::new
//@props ?C01 C03 C05 C06
//@emit impl<'a, F: CharPred> FieldsWith<'a, F>
fn new(bytes: &'a [u8], f: F⟦ , vx_p: Ghost<Pred> ⟧) -> ⟦~ FieldsWith<'a, F> ~> (r: FieldsWith<'a, F>)
    requires f.able(), forall|c: char, q: bool| #[trigger] f.says(c, q) ==> q == (vx_p@)(c),
    ensures r.wf(), r.rem() == fields_by(bytes@, vx_p@), r.bytes == bytes, ⟧ {
    ⟦ proof { assert(bytes@.skip(0) =~= bytes@); } ⟧
    FieldsWith { ⟦ p: vx_p, ⟧ f, bytes, chars: ⟦~ bytes.char_indices() ~> CharIndices::new(bytes) ⟧ }
}
//@item dep:bstr/src/ext_slice.rs | impl<'a, F: FnMut(char) -> bool> Iterator for FieldsWith<'a, F> | fn next
//@name bstr: FieldsWith::next
//@props ?C01 C03 C05 C06
//@emit impl<'a, F: CharPred> FieldsWith<'a, F>
fn next(&mut self) -> ⟦~ Option<&'a [u8]> ~> (r: Option<&'a [u8]>)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r->0@ == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
        r is Some ==> final(self).chars.bs@.len() < old(self).chars.bs@.len(),
        r is None ==> final(self).chars.bs@.len() == 0, ⟧ {
    ⟦ let ghost p = self.p@; let ghost all = self.bytes@; let vx_n = self.bytes.len(); ⟧
    ⟦~ let (start, mut end); ~> let mut start: usize = 0; let mut end: usize = 0; ⟧
    loop
    ⟦   invariant_except_break
            self.wf(), self.p@ == p, self.bytes@ == all, self.rem() == old(self).rem(), self.bytes@.len() <= usize::MAX,
            self.chars.bs@.len() <= old(self).chars.bs@.len(),
        ensures
            self.wf(), self.p@ == p, self.bytes@ == all, self.bytes@.len() <= usize::MAX, end == self.chars.forward_index, start < end,
            fields_by(all.skip(start as int), p) == old(self).rem(), old(self).rem().len() > 0,
            old(self).rem()[0] == all.skip(start as int).take(run_len(all.skip(start as int), p) as int),
            old(self).rem().skip(1) == fields_by(all.skip(start as int).skip(run_len(all.skip(start as int), p) as int), p),
            run_len(all.skip(start as int), p) == (end - start) + run_len(self.chars.bs@, p),
            self.chars.bs@.len() < old(self).chars.bs@.len(),
        decreases self.chars.bs@.len(),
    ⟧ {
        ⟦ proof { let s = self.chars.bs@; lemma_dec(s); lemma_fields_by(s, p); lemma_run_len(s, p); if s.len() > 0 { lemma_step(all, self.chars.forward_index as int, dec(s).1 as int); } } ⟧
        match self.chars.next() {
            None => return None,
            Some((s, e, ch)) => {
                if !⟦~ (self.f)(ch) ~> self.f.test(ch) ⟧ {
                    start = s;
                    end = e;
                    break;
                }
            }
        }
    }
    ⟦~ while let Some((_, e, ch)) = self.chars.next() { ~> loop
        invariant_except_break
            self.wf(), self.p@ == p, self.bytes@ == all, all.len() <= usize::MAX, end == self.chars.forward_index, start < end,
            run_len(all.skip(start as int), p) == (end - start) + run_len(self.chars.bs@, p),
            self.chars.bs@.len() < old(self).chars.bs@.len(),
        ensures
            self.wf(), self.p@ == p, self.bytes@ == all, start < end <= all.len(),
            run_len(all.skip(start as int), p) == end - start,
            fields_by(self.chars.bs@, p) == fields_by(all.skip(end as int), p),
            self.chars.bs@.len() < old(self).chars.bs@.len(),
        decreases self.chars.bs@.len(),
    {
        proof { let s = self.chars.bs@; lemma_dec(s); lemma_fields_by(s, p); lemma_run_len(s, p); if s.len() > 0 { lemma_step(all, self.chars.forward_index as int, dec(s).1 as int); } }
        let (_, e, ch) = match self.chars.next() { Some(x) => x, None => break }; ⟧
        if ⟦~ (self.f)(ch) ~> self.f.test(ch) ⟧ {
            break;
        }
        end = e;
    }
    ⟦ proof { assert(all.skip(start as int).skip(end - start) =~= all.skip(end as int)); assert(all.skip(start as int).take(end - start) =~= all.subrange(start as int, end as int)); } ⟧
    Some(⟦~ &self.bytes[start..end] ~> vstd::slice::slice_subrange(self.bytes, start, end) ⟧)
}
//@item dep:bstr/src/ext_slice.rs | struct Fields
struct Fields<'a> {
    it: FieldsWith<'a, ⟦~ fn(char) -> bool ~> WsPred ⟧>,
}
//@item dep:bstr/src/ext_slice.rs | impl<'a> Fields<'a> | fn new
//@name bstr: Fields::new
//@props ?C01 C05 C06
//@emit impl<'a> Fields<'a>
fn new(bytes: &'a [u8]) -> ⟦~ Fields<'a> ~> (r: Fields<'a>) ensures r.wf(), r.rem() == unicode_fields(bytes@) ⟧ {
    Fields { it: ⟦~ bytes.fields_with(|ch| ch.is_whitespace()) ~> FieldsWith::new(bytes, WsPred, Ghost(ws_pred())) ⟧ }
}
//@item dep:bstr/src/ext_slice.rs | impl<'a> Iterator for Fields<'a> | fn next
//@name bstr: Fields::next
//@props ?C01 C05 C06
//@emit impl<'a> Fields<'a>
fn next(&mut self) -> ⟦~ Option<&'a [u8]> ~> (r: Option<&'a [u8]>)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r is Some && r->0@ == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
        r is Some ==> final(self).it.chars.bs@.len() < old(self).it.chars.bs@.len(),
        r is None ==> final(self).it.chars.bs@.len() == 0, ⟧ {
    self.it.next()
}
//@item dep:std/core/src/iter/adapters/enumerate.rs | impl<I> Iterator for Enumerate<I> where I: Iterator, | fn next
//@name std: Enumerate<Fields>::next
//@props ?C01 C05 C06
//@emit impl<'a> Enumerate<Fields<'a>>
fn next(&mut self) -> ⟦~ Option<(usize, <I as Iterator>::Item)> ~> (r: Option<(usize, &'a [u8])>)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem() && final(self).count() == old(self).count(),
        old(self).rem().len() > 0 ==> r is Some && (r->0).0 == old(self).count() && (r->0).1@ == old(self).rem()[0]
            && final(self).rem() == old(self).rem().skip(1) && final(self).count() == old(self).count() + 1, ⟧ {
    let a = self.iter.next()?;
    let i = self.count;
    self.count += 1;
    Some((i, a))
}
