//@raw
//@props C01 C03 C05 C06
// ================================================================ reading: lines, tokens, numbers (dependencies bstr, lexical, std::io)
// Trusted interfaces.  lexical::Error is opaque.
#[verifier::external_body]
pub struct LexErr { code: u32 }

// equality of optional byte slices
fn vx_opt_eq(a: Option<&[u8]>, b: Option<&[u8]>) -> (r: bool)
    ensures r == match (a, b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false }
{
    match (a, b) { (Some(x), Some(y)) => vx_eq(x, y), (None, None) => true, _ => false }
}

// lexical::parse: a number from its text, or an error.  Which texts are numbers, and which number a text is, is the
// dependency's: an uninterpreted function of the bytes.
uninterp spec fn lex_usize(b: Seq<u8>) -> Result<usize, LexErr>;
uninterp spec fn lex_f32(b: Seq<u8>) -> Result<f32, LexErr>;
uninterp spec fn lex_f64(b: Seq<u8>) -> Result<f64, LexErr>;
trait Lex: Sized { spec fn lex(b: Seq<u8>) -> Result<Self, LexErr>; }
impl Lex for usize { spec fn lex(b: Seq<u8>) -> Result<usize, LexErr> { lex_usize(b) } }
impl Lex for f32 { spec fn lex(b: Seq<u8>) -> Result<f32, LexErr> { lex_f32(b) } }
impl Lex for f64 { spec fn lex(b: Seq<u8>) -> Result<f64, LexErr> { lex_f64(b) } }
trait LexText { spec fn text(&self) -> Seq<u8>; }
impl LexText for &[u8] { spec fn text(&self) -> Seq<u8> { self@ } }
impl LexText for &str { spec fn text(&self) -> Seq<u8> { self.spec_bytes() } }
#[verifier::external_body]
fn parse<T: Lex, B: LexText>(b: B) -> (r: Result<T, LexErr>) ensures r == T::lex(b.text()) { unimplemented!() }

pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a is Ok ==> f.requires((a->Ok_0,)),
    ensures a is Err ==> r == Err::<U, E>(a->Err_0), a is Ok ==> f.ensures((a->Ok_0,), r);

// ================================================================ src/lib.rs: numbered lines
type EnumeratedLines<'a> = CachedEnumerate<ByteLines<'a>>;
impl<'a> CachedEnumerate<ByteLines<'a>> {
    spec fn rem(&self) -> SLines { self.iter.rem() }
    spec fn count(&self) -> nat { self.iter.count() }
    // the number of the last line which was read
    spec fn last(&self) -> Option<usize> { self.last_enumerator }
    spec fn wf(&self) -> bool { self.last() == (if self.count() == 0 { None } else { Some((self.count() - 1) as usize) }) && self.count() <= usize::MAX }
}
spec fn is_blank(s: Seq<u8>) -> bool { unicode_trim(s).len() == 0 }
// how many lines to skip: up to the first one which is an error or not blank
spec fn blanks(r: SLines) -> nat decreases r.len() {
    if r.len() == 0 { 0 } else { match r[0] { Ok(b) => if is_blank(b) { 1 + blanks(r.skip(1)) } else { 0 }, Err(_) => 0 } }
}
//@item src/lib.rs | struct CachedEnumerate
//@pre #[verifier::reject_recursive_types(I)]
struct CachedEnumerate<I> {
    iter: Enumerate<I>,
    last_enumerator: Option<usize>,
}
//@item src/lib.rs | impl<I> CachedEnumerate<I> | fn new
//@props C01 C06
//@emit impl<I> CachedEnumerate<I>
fn new(iter: Enumerate<I>) -> ⟦~ Self ~> (r: Self) ensures r.iter == iter, r.last_enumerator is None ⟧ {
    CachedEnumerate {
        iter,
        last_enumerator: None,
    }
}
//@item src/lib.rs | impl<I> CachedEnumerate<I> | fn last_enumerator
//@props C06
//@emit impl<I> CachedEnumerate<I>
fn last_enumerator(&self) -> ⟦~ Option<usize> ~> (r: Option<usize>) ensures r == self.last_enumerator ⟧ {
    self.last_enumerator
}
//@item src/lib.rs | impl<I: Iterator> Iterator for CachedEnumerate<I> | fn next
//@name CachedEnumerate :: next
//@props C01 C03 C05 C06
//@emit impl<'a> CachedEnumerate<ByteLines<'a>>
fn next(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<(usize, Result<Vec<u8>, IoErr>)>)
    requires old(self).wf(),
    ensures
        final(self).wf(), /*C06*/
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(), /*C01 C03 C05 C06*/
        old(self).rem().len() == 0 ==> final(self).count() == old(self).count() && final(self).last() == old(self).last(), /*C06*/
        old(self).rem().len() > 0 ==> r is Some && is_line(r->Some_0.1, old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1), /*C01 C03 C05 C06*/
        old(self).rem().len() > 0 ==> r is Some && r->Some_0.0 == old(self).count() && final(self).count() == old(self).count() + 1, /*C06*/
        old(self).rem().len() > 0 ==> final(self).last() == Some(old(self).count() as usize) && final(self).count() <= usize::MAX, /*C06*/
⟧ {
    let (curr, item) = self.iter.next()?;
    self.last_enumerator = Some(curr);
    Some((curr, item))
}
//@item src/lib.rs | impl<I: Iterator> Iterator for CachedEnumerate<I> | fn size_hint
//@name CachedEnumerate :: size_hint
//@props C01
//@emit impl<'a> CachedEnumerate<ByteLines<'a>>
fn size_hint(&self) -> ⟦~ (usize, Option<usize>) ~> (r: (usize, Option<usize>)) ensures r.0 <= self.rem().len(), r.1 is Some ==> self.rem().len() <= r.1->0 ⟧ {
    self.iter.size_hint()
}
//@item src/lib.rs | impl EnumeratedLines<'_> | fn next_non_empty_line
//@props C01 C03 C05 C06
//@emit impl<'a> CachedEnumerate<ByteLines<'a>>
fn next_non_empty_line(&mut self) -> ⟦~ Option<<Self as Iterator>::Item> ~> (r: Option<(usize, Result<Vec<u8>, IoErr>)>)
    requires old(self).wf(),
    ensures
        final(self).wf(), /*C06*/
        blanks(old(self).rem()) == old(self).rem().len() ==> r is None && final(self).rem().len() == 0, /*C01 C05 C06*/
        blanks(old(self).rem()) == old(self).rem().len() ==> final(self).count() == old(self).count() + blanks(old(self).rem()), /*C06*/
        // the first line which is not blank, or the first error
        blanks(old(self).rem()) < old(self).rem().len() ==> r is Some && is_line(r->Some_0.1, old(self).rem()[blanks(old(self).rem()) as int]), /*C01 C05 C06*/
        blanks(old(self).rem()) < old(self).rem().len() ==> final(self).rem() == old(self).rem().skip((blanks(old(self).rem()) + 1) as int), /*C01 C05 C06*/
        blanks(old(self).rem()) < old(self).rem().len() ==> r is Some && r->Some_0.0 == old(self).count() + blanks(old(self).rem()), /*C06*/
        blanks(old(self).rem()) < old(self).rem().len() ==> final(self).count() == old(self).count() + blanks(old(self).rem()) + 1, /*C06*/
        final(self).count() == old(self).count() ==> final(self).last() == old(self).last(), /*C06*/
⟧ {
    ⟦ assert(old(self).rem().skip(0) =~= old(self).rem()); ⟧
    let mut next = self.next();
    loop
    ⟦   invariant
            self.wf(),
            ({
                let k = self.count() - old(self).count() - (if next is Some { 1int } else { 0int });
                &&& 0 <= k <= old(self).rem().len()
                &&& blanks(old(self).rem()) == k + blanks(old(self).rem().skip(k))
                &&& match next {
                    None => k == old(self).rem().len() && self.rem().len() == 0,
                    Some((i, l)) => k < old(self).rem().len() && i == old(self).count() + k && is_line(l, old(self).rem()[k]) && self.rem() == old(self).rem().skip(k + 1),
                }
            }),
            self.count() == old(self).count() ==> self.last() == old(self).last(),
        decreases self.rem().len() + (if next is Some { 1int } else { 0int }),
    ⟧ {
        ⟦ let ghost k = self.count() - old(self).count() - (if next is Some { 1int } else { 0int });
          proof { if k < old(self).rem().len() { assert(old(self).rem().skip(k)[0] == old(self).rem()[k]); assert(old(self).rem().skip(k).skip(1) =~= old(self).rem().skip(k + 1)); } } ⟧
        match next {
            None => return None,
            Some((idx, result)) => {
                let string = match result {
                    Ok(s) => s,
                    Err(e) => return Some((idx, Err(e))),
                };
                if string.trim().is_empty() {
                    next = self.next()⟦ ; proof { if k + 1 < old(self).rem().len() { assert(old(self).rem().skip(k + 1).skip(1) =~= old(self).rem().skip(k + 2)); } } ⟧
                } else {
                    return Some((idx, Ok(string)));
                }
            }
        }
    }
}
