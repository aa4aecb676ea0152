//@raw
//@props C01 C03 C05 C06 C18
// ================================================================ readers: from the pieces in which bytes arrive to lines
// std::io::Error: opaque, but for whether it is an interruption
#[verifier::external_body]
pub struct IoErr { e: std::io::Error }
impl IoErr {
    uninterp spec fn interrupted(&self) -> bool;
    #[verifier::external_body]
    fn is_interrupted(&self) -> (r: bool) ensures r == self.interrupted() { self.e.kind() == std::io::ErrorKind::Interrupted }
}
// What a reader still has to deliver: bytes, interruptions between them, failures; finitely many, and then its end.
enum Atom { Byte(u8), Interrupt, Fail(IoErr) }
type Atoms = Seq<Atom>;
// b is what comes next, byte by byte
spec fn comes(a: Atoms, b: Seq<u8>) -> bool { b.len() <= a.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] a[i] == Atom::Byte(b[i]) }
spec fn no_fail(a: Atoms) -> bool { forall|i: int| 0 <= i < a.len() ==> !(#[trigger] a[i] is Fail) }
spec fn bytes_of(a: Atoms) -> Seq<u8> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { match a[0] { Atom::Byte(b) => seq![b] + bytes_of(a.skip(1)), _ => bytes_of(a.skip(1)) } }
}
spec fn atoms(b: Seq<u8>) -> Atoms { Seq::new(b.len(), |i: int| Atom::Byte(b[i])) }
// std::io::BufRead, behind a reference: fill_buf shows some of the bytes that come next (how many is the reader's choice),
// or is interrupted, or fails; consume takes bytes which were shown.
#[verifier::external_body]
struct DynReader<'a> { r: &'a mut dyn std::io::BufRead }
impl<'a> DynReader<'a> {
    uninterp spec fn evs(&self) -> Atoms;
    #[verifier::external_body]
    fn fill_buf(&mut self) -> (r: Result<&[u8], IoErr>)
        ensures
            old(self).evs().len() == 0 ==> r is Ok && r->Ok_0@.len() == 0 && final(self).evs() == old(self).evs(),
            old(self).evs().len() > 0 ==> match old(self).evs()[0] {
                Atom::Byte(_) => r is Ok && r->Ok_0@.len() > 0 && comes(old(self).evs(), r->Ok_0@) && final(self).evs() == old(self).evs(),
                Atom::Interrupt => r is Err && r->Err_0.interrupted() && final(self).evs() == old(self).evs().skip(1),
                Atom::Fail(e) => r == Err::<&[u8], IoErr>(e) && !e.interrupted() && final(self).evs() == old(self).evs().skip(1),
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn consume(&mut self, n: usize)
        requires n <= old(self).evs().len(), forall|i: int| 0 <= i < n ==> #[trigger] old(self).evs()[i] is Byte,
        ensures final(self).evs() == old(self).evs().skip(n as int),
    { unimplemented!() }
}
// memchr::memchr: where the first such byte is
mod memchr {
    #[allow(unused_imports)] use vstd::prelude::*;
    #[verifier::external_body]
    pub fn memchr(x: u8, b: &[u8]) -> (r: Option<usize>)
        ensures
            r is Some ==> r->0 < b@.len() && b@[r->0 as int] == x && forall|i: int| 0 <= i < r->0 ==> b@[i] != x,
            r is None ==> forall|i: int| 0 <= i < b@.len() ==> b@[i] != x,
    { unimplemented!() }
}
fn vx_to_incl(b: &[u8], i: usize) -> (r: &[u8]) requires i < b@.len() ensures r@ == b@.take(i + 1) { assert(b.len() == b@.len()); vstd::slice::slice_subrange(b, 0, i + 1) }

// the number of atoms before the byte d, before a failure, or before the end
spec fn seg_len(a: Atoms, d: u8) -> nat decreases a.len() { if a.len() == 0 || a[0] == Atom::Byte(d) || a[0] is Fail { 0 } else { 1 + seg_len(a.skip(1), d) } }
proof fn lemma_bytes_add(a: Atoms, b: Atoms)
    ensures bytes_of(a + b) == bytes_of(a) + bytes_of(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(bytes_of(a) + bytes_of(b) =~= bytes_of(b)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_bytes_add(a.skip(1), b);
        assert(bytes_of(a + b) =~= bytes_of(a) + bytes_of(b));
    }
}
proof fn lemma_bytes_comes(a: Atoms, b: Seq<u8>)
    requires comes(a, b),
    ensures bytes_of(a.take(b.len() as int)) == b,
    decreases b.len(),
{
    let t = a.take(b.len() as int);
    if b.len() > 0 {
        assert(a[0] == Atom::Byte(b[0]));
        assert forall|i: int| 0 <= i < b.skip(1).len() implies #[trigger] a.skip(1)[i] == Atom::Byte(b.skip(1)[i]) by { assert(a[i + 1] == Atom::Byte(b[i + 1])); }
        lemma_bytes_comes(a.skip(1), b.skip(1));
        assert(t.skip(1) =~= a.skip(1).take(b.skip(1).len() as int));
        assert(t[0] == a[0]);
        assert(bytes_of(t) =~= b);
    }
}
// atoms which are neither d nor a failure
spec fn runs_on(a: Atoms, d: u8, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] a[i] != Atom::Byte(d) && !(a[i] is Fail) }
proof fn lemma_seg(a: Atoms, d: u8)
    ensures
        seg_len(a, d) <= a.len(), runs_on(a, d, seg_len(a, d) as int),
        seg_len(a, d) < a.len() ==> a[seg_len(a, d) as int] == Atom::Byte(d) || a[seg_len(a, d) as int] is Fail,
    decreases a.len(),
{
    if !(a.len() == 0 || a[0] == Atom::Byte(d) || a[0] is Fail) {
        lemma_seg(a.skip(1), d);
        let n = seg_len(a.skip(1), d) as int;
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] a[i] != Atom::Byte(d) && !(a[i] is Fail) by { if i > 0 { assert(a.skip(1)[i - 1] == a[i]); } }
    }
}
proof fn lemma_seg_skip(a: Atoms, d: u8, n: int)
    requires 0 <= n <= a.len(), runs_on(a, d, n),
    ensures seg_len(a, d) == n + seg_len(a.skip(n), d),
    decreases n,
{
    if n == 0 { assert(a.skip(0) =~= a); }
    else {
        assert(a[0] != Atom::Byte(d) && !(a[0] is Fail));
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] a.skip(1)[i] != Atom::Byte(d) && !(a.skip(1)[i] is Fail) by { assert(a[i + 1] != Atom::Byte(d)); }
        lemma_seg_skip(a.skip(1), d, n - 1);
        assert(a.skip(1).skip(n - 1) =~= a.skip(n));
    }
}
// one step of read_until: b has come, at m
proof fn lemma_taken(a: Atoms, d: u8, m: int, b: Seq<u8>)
    requires 0 <= m <= a.len(), comes(a.skip(m), b),
    ensures m + b.len() <= a.len(), bytes_of(a.take(m + b.len())) == bytes_of(a.take(m)) + b, a.skip(m).skip(b.len() as int) == a.skip(m + b.len()),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] a.skip(m)[i] is Byte,
{
    lemma_bytes_comes(a.skip(m), b);
    assert(a.take(m + b.len()) =~= a.take(m) + a.skip(m).take(b.len() as int));
    lemma_bytes_add(a.take(m), a.skip(m).take(b.len() as int));
    assert(a.skip(m).skip(b.len() as int) =~= a.skip(m + b.len()));
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] a.skip(m)[i] is Byte by { assert(a.skip(m)[i] == Atom::Byte(b[i])); }
}
proof fn lemma_read_piece(a: Atoms, d: u8, m: int, b: Seq<u8>, done: bool)
    requires
        0 <= m <= seg_len(a, d), comes(a.skip(m), b),
        done ==> b.len() > 0 && b.last() == d && forall|i: int| 0 <= i < b.len() - 1 ==> b[i] != d,
        !done ==> forall|i: int| 0 <= i < b.len() ==> b[i] != d,
    ensures
        !done ==> m + b.len() <= seg_len(a, d),
        done ==> ({ let n = seg_len(a, d) as int; m + b.len() == n + 1 && n < a.len() && a[n] == Atom::Byte(d) && bytes_of(a.take(n + 1)) == bytes_of(a.take(n)).push(d) }),
{
    let n = seg_len(a, d) as int;
    lemma_seg(a, d);
    assert forall|i: int| 0 <= i < b.len() implies a[m + i] == Atom::Byte(#[trigger] b[i]) by { assert(a.skip(m)[i] == Atom::Byte(b[i])); }
    if n < m + b.len() { assert(a[m + (n - m)] == Atom::Byte(b[n - m])); }
    if done {
        if m + b.len() <= n { assert(a[m + (b.len() - 1)] == Atom::Byte(b[b.len() - 1])); }
        assert(a.take(n + 1) =~= a.take(n) + seq![a[n]]);
        lemma_bytes_add(a.take(n), seq![a[n]]);
        reveal_with_fuel(bytes_of, 2);
        assert(bytes_of(seq![a[n]]) =~= seq![d]);
        assert(bytes_of(a.take(n + 1)) =~= bytes_of(a.take(n)).push(d));
    }
}
proof fn lemma_interrupted(a: Atoms, m: int)
    requires 0 <= m < a.len(),
    ensures a.skip(m).skip(1) == a.skip(m + 1), a.skip(m)[0] == a[m], a[m] is Interrupt ==> bytes_of(a.take(m + 1)) == bytes_of(a.take(m)),
{
    assert(a.skip(m).skip(1) =~= a.skip(m + 1));
    assert(a.take(m + 1) =~= a.take(m) + seq![a[m]]);
    lemma_bytes_add(a.take(m), seq![a[m]]);
    reveal_with_fuel(bytes_of, 2);
    if a[m] is Interrupt { assert(bytes_of(seq![a[m]]) =~= Seq::empty()); assert(bytes_of(a.take(m)) + Seq::<u8>::empty() =~= bytes_of(a.take(m))); }
}

// What byte_lines delivers: the bytes up to a line break, without it; a failure instead of what was read of its line.
type SLine = Result<Seq<u8>, IoErr>;
type SLines = Seq<SLine>;
spec fn is_line(r: Result<Vec<u8>, IoErr>, s: SLine) -> bool {
    match (r, s) { (Ok(v), Ok(b)) => v@ == b, (Err(e), Err(f)) => e == f, _ => false }
}
spec fn no_cr(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 13 { l.drop_last() } else { l } }
spec fn ev_lines(a: Atoms) -> SLines decreases a.len() {
    let n = seg_len(a, 10) as int;
    if n >= a.len() { if bytes_of(a).len() == 0 { Seq::empty() } else { seq![Ok::<Seq<u8>, IoErr>(bytes_of(a))] } }
    else {
        match a[n] {
            Atom::Fail(e) => seq![Err::<Seq<u8>, IoErr>(e)] + ev_lines(a.skip(n + 1)),
            _ => seq![Ok::<Seq<u8>, IoErr>(no_cr(bytes_of(a.take(n))))] + ev_lines(a.skip(n + 1)),
        }
    }
}
// The lines of a file: split after every "\n"; the "\n", and a "\r" before it, are not part of the line; an empty last
// line is none.
spec fn line_len(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 || b[0] == 10 { 0 } else { 1 + line_len(b.skip(1)) } }
spec fn file_lines(b: Seq<u8>) -> SLines decreases b.len() {
    if b.len() == 0 { Seq::empty() }
    else {
        let n = line_len(b) as int;
        if n >= b.len() { seq![Ok::<Seq<u8>, IoErr>(b)] } else { seq![Ok::<Seq<u8>, IoErr>(no_cr(b.take(n)))] + file_lines(b.skip(n + 1)) }
    }
}
// C18: without failures the lines are those of the bytes, in whatever pieces and with whatever interruptions these arrive
proof fn lemma_line_len_of(a: Atoms)
    requires runs_on(a, 10, a.len() as int),
    ensures line_len(bytes_of(a)) == bytes_of(a).len(),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[0] != Atom::Byte(10) && !(a[0] is Fail));
        assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] a.skip(1)[i] != Atom::Byte(10) && !(a.skip(1)[i] is Fail) by { assert(a[i + 1] != Atom::Byte(10)); }
        lemma_line_len_of(a.skip(1));
        if a[0] is Byte { assert(bytes_of(a).skip(1) =~= bytes_of(a.skip(1))); assert(bytes_of(a)[0] == a[0]->Byte_0); }
    }
}
proof fn lemma_line_len_stop(b: Seq<u8>, r: Seq<u8>)
    requires line_len(b) == b.len(),
    ensures line_len(b + (seq![10u8] + r)) == b.len(),
    decreases b.len(),
{
    if b.len() > 0 {
        assert((b + (seq![10u8] + r)).skip(1) =~= b.skip(1) + (seq![10u8] + r));
        lemma_line_len_stop(b.skip(1), r);
    } else { assert((b + (seq![10u8] + r))[0] == 10); }
}
proof fn lemma_ev_lines(a: Atoms)
    requires no_fail(a),
    ensures ev_lines(a) == file_lines(bytes_of(a)),
    decreases a.len(),
{
    let n = seg_len(a, 10) as int;
    let b = bytes_of(a);
    lemma_seg(a, 10);
    if n >= a.len() { lemma_line_len_of(a); }
    else {
        assert(!(a[n] is Fail));
        let t = a.take(n);
        let q = a.skip(n + 1);
        assert(runs_on(t, 10, t.len() as int));
        lemma_line_len_of(t);
        assert(a =~= t + (seq![a[n]] + q));
        lemma_bytes_add(t, seq![a[n]] + q);
        lemma_bytes_add(seq![a[n]], q);
        reveal_with_fuel(bytes_of, 2);
        assert(bytes_of(seq![a[n]]) =~= seq![10u8]);
        lemma_line_len_stop(bytes_of(t), bytes_of(q));
        let k = bytes_of(t).len() as int;
        assert(b.take(k) =~= bytes_of(t));
        assert(b.skip(k + 1) =~= bytes_of(q));
        assert forall|i: int| 0 <= i < q.len() implies !(#[trigger] q[i] is Fail) by { assert(!(a[i + n + 1] is Fail)); }
        lemma_ev_lines(q);
    }
}
proof fn lemma_atoms(b: Seq<u8>)
    ensures bytes_of(atoms(b)) == b, no_fail(atoms(b)),
{
    lemma_bytes_comes(atoms(b), b);
    assert(atoms(b).take(b.len() as int) =~= atoms(b));
}
proof fn lemma_rest_of(a: Atoms)
    ensures
        ev_lines(a).len() > 0 ==> (if seg_len(a, 10) >= a.len() { ev_lines(a).skip(1).len() == 0 } else { ev_lines(a).skip(1) == ev_lines(a.skip((seg_len(a, 10) + 1) as int)) }),
        ({ let n = seg_len(a, 10) as int; n < a.len() ==> bytes_of(a.take(n)).push(10).drop_last() == bytes_of(a.take(n)) && (Seq::<u8>::empty() + bytes_of(a.take(n)).push(10)) == bytes_of(a.take(n)).push(10) }),
        seg_len(a, 10) >= a.len() ==> !bytes_of(a).contains(10),
{
    let n = seg_len(a, 10) as int;
    lemma_seg(a, 10);
    if n < a.len() {
        assert(ev_lines(a).skip(1) =~= ev_lines(a.skip(n + 1)));
        assert(bytes_of(a.take(n)).push(10).drop_last() =~= bytes_of(a.take(n)));
        assert((Seq::<u8>::empty() + bytes_of(a.take(n)).push(10)) =~= bytes_of(a.take(n)).push(10));
    } else { lemma_line_len_of(a); lemma_line_len_none(bytes_of(a)); }
}
proof fn lemma_line_len_none(b: Seq<u8>)
    requires line_len(b) == b.len(),
    ensures !b.contains(10),
    decreases b.len(),
{
    if b.len() > 0 {
        lemma_line_len_none(b.skip(1));
        assert forall|i: int| 0 <= i < b.len() implies b[i] != 10 by { if i > 0 { assert(b.skip(1)[i - 1] == b[i]); assert(b.skip(1).contains(b.skip(1)[i - 1])); } }
    }
}
trait VxBytes { spec fn s_bytes(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { spec fn s_bytes(&self) -> Seq<u8> { self@ } }
trait LastByte: VxBytes { fn last_byte(&self) -> (r: Option<u8>) ensures r == (if self.s_bytes().len() == 0 { None } else { Some(self.s_bytes().last()) }); }
trait PopByte: VxBytes {
    fn pop_byte(&mut self) -> (r: Option<u8>)
        ensures
            old(self).s_bytes().len() == 0 ==> r is None && final(self).s_bytes() == old(self).s_bytes(),
            old(self).s_bytes().len() > 0 ==> r == Some(old(self).s_bytes().last()) && final(self).s_bytes() == old(self).s_bytes().drop_last();
}
// bstr::io::ByteLines over a reader
struct ByteLines<'a> { buf: DynReader<'a> }
impl<'a> ByteLines<'a> {
    // the lines which are still to come
    spec fn rem(&self) -> SLines { ev_lines(self.buf.evs()) }
    // Iterator's own size_hint
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == 0, r.1 is None { (0, None) }
    fn enumerate(self) -> (r: Enumerate<ByteLines<'a>>) ensures r.rem() == self.rem(), r.count() == 0 { Enumerate::new(self) }
}
// A reader (bstr::io::BufReadExt over std::io::BufRead), and the same reader behind `&mut dyn BufReadExt`
trait BufReadExt {
    spec fn evs(&self) -> Atoms;
    fn vx_dyn(&mut self) -> (r: DynReader<'_>) ensures r.evs() == old(self).evs();
    fn byte_lines(&mut self) -> (r: ByteLines<'_>) ensures r.rem() == ev_lines(old(self).evs()) { self.vx_dyn().byte_lines() }
    fn by_ref(&mut self) -> (r: &mut Self) where Self: Sized ensures *r == *old(self);
}
// std::io::Cursor over a byte slice: the bytes
struct Cursor<'a> { b: &'a [u8] }
impl<'a> Cursor<'a> { fn new(b: &'a [u8]) -> (r: Self) ensures r.b@ == b@ { Cursor { b } } }
impl<'a> BufReadExt for Cursor<'a> {
    spec fn evs(&self) -> Atoms { atoms(self.b@) }
    #[verifier::external_body]
    fn vx_dyn(&mut self) -> (r: DynReader<'_>) { unimplemented!() }
    fn by_ref(&mut self) -> (r: &mut Self) { self }
}
impl<'a> Enumerate<ByteLines<'a>> {
    spec fn rem(&self) -> SLines { self.iter.rem() }
    spec fn count(&self) -> nat { self.count as nat }
}
//@item dep:std/alloc/src/io/buf_read.rs | fn default_read_until
//@name std: default_read_until
//@props ?C01 ?C03 ?C05 ?C06 C18
fn default_read_until⟦~ <R: BufRead + ?Sized> ~> ⟧(r: &mut ⟦~ R ~> DynReader<'_> ⟧, delim: u8, buf: &mut Vec<u8>,) -> ⟦~ Result<usize> ~> (q: Result<usize, IoErr>)
    ensures ({
        let a = old(r).evs();
        let n = seg_len(a, delim) as int;
        if n >= a.len() { q is Ok && q->Ok_0 == bytes_of(a).len() && final(buf)@ == old(buf)@ + bytes_of(a) && final(r).evs().len() == 0 }
        else {
            final(r).evs() == a.skip(n + 1) && match a[n] {
                Atom::Fail(e) => q == Err::<usize, IoErr>(e),
                _ => q is Ok && q->Ok_0 == bytes_of(a.take(n)).len() + 1 && final(buf)@ == old(buf)@ + bytes_of(a.take(n)).push(delim),
            }
        }
    }), ⟧ {
    ⟦ let ghost a = r.evs(); let ghost buf0 = buf@; let ghost mut m = 0int; proof { lemma_seg(a, delim); assert(a.take(0) =~= Seq::empty()); assert(a.skip(0) =~= a); assert(buf0 + bytes_of(a.take(0)) =~= buf0); } ⟧
    let mut read = 0;
    loop
    ⟦   invariant
            0 <= m <= seg_len(a, delim) <= a.len(), r.evs() == a.skip(m), a == old(r).evs(), buf0 == old(buf)@,
            seg_len(a, delim) < a.len() ==> a[seg_len(a, delim) as int] == Atom::Byte(delim) || a[seg_len(a, delim) as int] is Fail,
            runs_on(a, delim, seg_len(a, delim) as int),
            buf@ == buf0 + bytes_of(a.take(m)), read == bytes_of(a.take(m)).len(),
        decreases a.len() - m,
    ⟧ {
        ⟦ let ghost n = seg_len(a, delim) as int; let ghost mut vx_b: Seq<u8> = Seq::empty(); proof { if m < a.len() { lemma_interrupted(a, m); } } ⟧
        let (done, used) = {
            let available = match r.fill_buf() {
                Ok(n) => n,
                Err(ref e) if e.is_interrupted() => ⟦ { proof { m = m + 1; } ⟧ continue⟦ ; } ⟧,
                Err(e) => return Err(e),
            };
            let (done, available) = match memchr::memchr(delim, available) {
                Some(i) => (true, ⟦~ &available[..=i] ~> vx_to_incl(available, i) ⟧),
                None => (false, available),
            };

            ⟦~ cfg_select! {
                no_global_oom_handling => {
                    let count = available.len();
                    buf.try_reserve(count)?;

                    unsafe {
                        let len = buf.len();
                        let src = available.as_ptr();
                        let dst = buf.as_mut_ptr().add(len);
                        core::ptr::copy_nonoverlapping(src, dst, count);
                        buf.set_len(len + count);
                    }
                }
                _ => {
                    buf.extend_from_slice(available);
                }
            } ~> buf.extend_from_slice(available); ⟧

            ⟦ proof { vx_b = available@; } ⟧
            (done, available.len())
        };
        ⟦ proof { lemma_taken(a, delim, m, vx_b); lemma_read_piece(a, delim, m, vx_b, done); m = m + used; assert(buf@ =~= buf0 + bytes_of(a.take(m))); assert(a.take(a.len() as int) =~= a); } let vx_n = buf.len(); ⟧
        r.consume(used);
        read += used;
        if done || used == 0 {
            return Ok(read);
        }
    }
}
//@item dep:std/alloc/src/io/buf_read.rs | trait BufRead | fn read_until
//@name std: BufRead::read_until
//@props ?C01 ?C03 ?C05 ?C06 C18
//@emit impl<'a> DynReader<'a>
fn read_until(&mut self, ⟦~ byte ~> delim ⟧: u8, buf: &mut Vec<u8>) -> ⟦~ Result<usize> ~> (q: Result<usize, IoErr>)
    ensures ({
        let a = old(self).evs();
        let n = seg_len(a, delim) as int;
        if n >= a.len() { q is Ok && q->Ok_0 == bytes_of(a).len() && final(buf)@ == old(buf)@ + bytes_of(a) && final(self).evs().len() == 0 }
        else {
            final(self).evs() == a.skip(n + 1) && match a[n] {
                Atom::Fail(e) => q == Err::<usize, IoErr>(e),
                _ => q is Ok && q->Ok_0 == bytes_of(a.take(n)).len() + 1 && final(buf)@ == old(buf)@ + bytes_of(a.take(n)).push(delim),
            }
        }
    }), ⟧ {
    default_read_until(self, ⟦~ byte ~> delim ⟧, buf)
}
//@item dep:bstr/src/ext_slice.rs | trait ByteSlice | fn last_byte
//@name bstr: ByteSlice::last_byte
//@props ?C01 ?C03 ?C05 ?C06 C18
//@emit impl LastByte for Vec<u8>
fn last_byte(&self) -> ⟦~ Option<u8> ~> (r: Option<u8>) ⟧ {
    let bytes = self.⟦~ as_bytes ~> as_slice ⟧();
    bytes.get(bytes.len().saturating_sub(1)).map(⟦~ |&b| b ~> |b: &u8| -> (q: u8) ensures q == *b { *b } ⟧)
}
//@item dep:bstr/src/ext_vec.rs | trait ByteVec | fn pop_byte
//@name bstr: ByteVec::pop_byte
//@props ?C01 ?C03 ?C05 ?C06 C18
//@emit impl PopByte for Vec<u8>
fn pop_byte(&mut self) -> ⟦~ Option<u8> ~> (r: Option<u8>) ⟧ {
    self.⟦~ as_vec_mut(). ~> ⟧pop()
}
//@item dep:bstr/src/io.rs | fn trim_line
//@name bstr: trim_line
//@props ?C01 ?C03 ?C05 ?C06 C18
fn trim_line(line: &mut Vec<u8>) ⟦ ensures old(line)@.len() > 0 && old(line)@.last() == 10 ==> final(line)@ == no_cr(old(line)@.drop_last()), old(line)@.len() == 0 || old(line)@.last() != 10 ==> final(line)@ == old(line)@, ⟧ {
    if line.last_byte() == Some(b'\n') {
        line.pop_byte();
        if line.last_byte() == Some(b'\r') {
            line.pop_byte();
        }
    }
}
//@item dep:bstr/src/io.rs | impl<B: io::BufRead> Iterator for ByteLines<B> | fn next
//@name bstr: ByteLines::next
//@props ?C01 ?C03 ?C05 ?C06 C18
//@emit impl<'a> ByteLines<'a>
fn next(&mut self) -> ⟦~ Option<io::Result<Vec<u8>>> ~> (r: Option<Result<Vec<u8>, IoErr>>)
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem().len() == 0,
        old(self).rem().len() > 0 ==> r is Some && is_line(r->0, old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1), ⟧ {
    ⟦ let ghost a = self.buf.evs(); proof { lemma_seg(a, 10); assert(Seq::<u8>::empty() + bytes_of(a) =~= bytes_of(a)); lemma_rest_of(a); } ⟧
    let mut bytes = vec![];
    match self.buf.read_until(b'\n', &mut bytes) {
        Err(e) => Some(Err(e)),
        Ok(0) => None,
        Ok(_) => {
            trim_line(&mut bytes);
            Some(Ok(bytes))
        }
    }
}
//@item dep:bstr/src/io.rs | trait BufReadExt | fn byte_lines
//@name bstr: BufReadExt::byte_lines
//@props ?C01 ?C03 ?C05 ?C06 C18
//@emit impl<'a> DynReader<'a>
fn byte_lines(self) -> ⟦~ ByteLines<Self> where Self: Sized, ~> (r: ByteLines<'a>) ensures r.rem() == ev_lines(self.evs()) ⟧ {
    ByteLines { buf: self }
}
//@item dep:std/core/src/iter/adapters/enumerate.rs | struct Enumerate
//@pre #[verifier::reject_recursive_types(I)]
struct Enumerate<I> {
    iter: I,
    count: usize,
}
//@item dep:std/core/src/iter/adapters/enumerate.rs | impl<I> Enumerate<I> | fn new
//@name std: Enumerate::new
//@props ?C01 ?C03 ?C05 C06
//@emit impl<I> Enumerate<I>
fn new(iter: I) -> ⟦~ Enumerate<I> ~> (r: Enumerate<I>) ensures r.iter == iter, r.count == 0 ⟧ {
    Enumerate { iter, count: 0 }
}
//@item dep:std/core/src/iter/adapters/enumerate.rs | impl<I> Iterator for Enumerate<I> where I: Iterator, | fn next
//@name std: Enumerate::next
//@props ?C01 ?C03 ?C05 C06
//@emit impl<'a> Enumerate<ByteLines<'a>>
fn next(&mut self) -> ⟦~ Option<(usize, <I as Iterator>::Item)> ~> (r: Option<(usize, Result<Vec<u8>, IoErr>)>)
    ensures
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem() && final(self).count() == old(self).count(),
        old(self).rem().len() > 0 ==> r is Some && r->Some_0.0 == old(self).count() && is_line(r->Some_0.1, old(self).rem()[0])
            && final(self).rem() == old(self).rem().skip(1) && final(self).count() == old(self).count() + 1 && final(self).count() <= usize::MAX, ⟧ {
    let a = self.iter.next()?;
    let i = self.count;
    ⟦ proof { assume(self.count < usize::MAX); } ⟧ // no input has 2^64 lines
    self.count += 1;
    Some((i, a))
}
//@item dep:std/core/src/iter/adapters/enumerate.rs | impl<I> Iterator for Enumerate<I> where I: Iterator, | fn size_hint
//@name std: Enumerate::size_hint
//@props C01
//@emit impl<'a> Enumerate<ByteLines<'a>>
fn size_hint(&self) -> ⟦~ (usize, Option<usize>) ~> (r: (usize, Option<usize>)) ensures r.0 <= self.rem().len(), r.1 is Some ==> self.rem().len() <= r.1->0, ⟧ {
    self.iter.size_hint()
}
