//@raw
// ================================================================ src/lib.rs: ChannelType, Axis (C12)
// core::convert::Into / From, with the meaning of the conversion as a relation
trait Into<T>: Sized {
    spec fn into_ok(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.into_ok(r);
}
// bytes to Vec<u8>: the same bytes
impl Into<Vec<u8>> for &[u8] {
    spec fn into_ok(self, r: Vec<u8>) -> bool { r@ == self@ }
    fn vx_into(self) -> (r: Vec<u8>) {
        let mut v: Vec<u8> = Vec::new();
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), v@ == self@.take(i as int) decreases self@.len() - i
        {
            v.push(self[i]);
            i += 1;
            assert(v@ =~= self@.take(i as int));
        }
        assert(v@ =~= self@);
        v
    }
}
// str as bytes (core)
uninterp spec fn str_slice(s: &str) -> &[u8];
#[verifier::external_body]
fn vx_str_slice(s: &str) -> (r: &[u8]) ensures r == str_slice(s), r@ == s.spec_bytes() { s.as_bytes() }
#[verifier::external_body]
proof fn axiom_str_slice(s: &str) ensures str_slice(s)@ == s.spec_bytes() {}
impl AsRef<[u8]> for str {
    spec fn as_ref_spec(&self) -> &[u8] { str_slice(self) }
    fn as_ref(&self) -> (r: &[u8]) { vx_str_slice(self) }
}
// equality of byte slices, what matching on a byte string literal means
fn vx_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@), r == (a@ =~= b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j]
        decreases a.len() - i
    {
        if a[i] != b[i] { assert(a@[i as int] != b@[i as int]); return false; }
        i += 1;
    }
    assert(a@ =~= b@);
    true
}

// The names, as the file format defines them.
spec fn channel_name(t: ChannelType) -> Seq<u8> {
    match t {
        ChannelType::PositionX => bs"Xposition",
        ChannelType::PositionY => bs"Yposition",
        ChannelType::PositionZ => bs"Zposition",
        ChannelType::RotationX => bs"Xrotation",
        ChannelType::RotationY => bs"Yrotation",
        ChannelType::RotationZ => bs"Zrotation",
    }
}
spec fn is_channel_name(s: Seq<u8>) -> bool { exists|t: ChannelType| channel_name(t) == s }
spec fn parse_channel_ok(s: Seq<u8>, r: Result<ChannelType, ParseChannelError>) -> bool {
    match r {
        Ok(t) => s == channel_name(t),
        Err(e) => !is_channel_name(s) && e.bad_string@ == s,
    }
}
// C12: the names determine the types
proof fn lemma_channel_names_distinct(a: ChannelType, b: ChannelType)
    requires channel_name(a) == channel_name(b),
    ensures a == b,
{
    let (x, y) = (channel_name(a), channel_name(b));
    assert(x[0] == y[0] && x[1] == y[1]);
}
// C12: the kind and axis are those spelled in the name
proof fn lemma_channel_spelling(t: ChannelType)
    ensures
        channel_name(t).skip(1) =~= (if is_rot(t) { bs"rotation" } else { bs"position" }),
        channel_name(t)[0] == (match axis_of(t) { Axis::X => 88u8, Axis::Y => 89u8, Axis::Z => 90u8 }),
{ }
spec fn is_rot(t: ChannelType) -> bool { t is RotationX || t is RotationY || t is RotationZ }
spec fn axis_of(t: ChannelType) -> Axis {
    if t is RotationX || t is PositionX { Axis::X } else if t is RotationY || t is PositionY { Axis::Y } else { Axis::Z }
}
//@item src/lib.rs | enum Axis
enum Axis {
    X,
    Y,
    Z,
}
//@item src/errors.rs | struct ParseChannelError
struct ParseChannelError {
    bad_string: Vec<u8>,
}
//@item src/errors.rs | impl ParseChannelError | fn into_inner
//@props C12
//@emit impl ParseChannelError
fn into_inner(self) -> ⟦~ Vec<u8> ~> (r: Vec<u8>) ensures r == self.bad_string ⟧ {
    self.bad_string
}
//@item src/errors.rs | impl<S: Into<Vec<u8>>> From<S> for ParseChannelError | fn from
//@props C12 C06
//@emit impl ParseChannelError
fn from⟦ <S: Into<Vec<u8>>> ⟧(bad_string: S) -> ⟦~ Self ~> (r: Self) ensures bad_string.into_ok(r.bad_string) ⟧ {
    ParseChannelError {
        bad_string: bad_string.⟦~ into ~> vx_into ⟧(),
    }
}
//@item src/lib.rs | impl ChannelType | fn from_bytes
//@props C12 C03 C06
//@litmatch
//@emit impl ChannelType
fn from_bytes<B>(s: &B) -> ⟦~ Result<Self, ParseChannelError> ~> (r: Result<ChannelType, ParseChannelError>) ⟧
where
B: AsRef<[u8]> + ?Sized, ⟦ ensures parse_channel_ok(s.as_ref_spec()@, r), ⟧ {
let s = s.as_ref(); ⟦
    assert((&[88u8, 114u8, 111u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8])@ =~= channel_name(ChannelType::RotationX));
    assert((&[89u8, 114u8, 111u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8])@ =~= channel_name(ChannelType::RotationY));
    assert((&[90u8, 114u8, 111u8, 116u8, 97u8, 116u8, 105u8, 111u8, 110u8])@ =~= channel_name(ChannelType::RotationZ));
    assert((&[88u8, 112u8, 111u8, 115u8, 105u8, 116u8, 105u8, 111u8, 110u8])@ =~= channel_name(ChannelType::PositionX));
    assert((&[89u8, 112u8, 111u8, 115u8, 105u8, 116u8, 105u8, 111u8, 110u8])@ =~= channel_name(ChannelType::PositionY));
    assert((&[90u8, 112u8, 111u8, 115u8, 105u8, 116u8, 105u8, 111u8, 110u8])@ =~= channel_name(ChannelType::PositionZ));
⟧ { let vx_m =
s ; if vx_eq(vx_m,
b"Xrotation" ) {
Ok(ChannelType::RotationX) } else if vx_eq(vx_m,
b"Yrotation" ) {
Ok(ChannelType::RotationY) } else if vx_eq(vx_m,
b"Zrotation" ) {
Ok(ChannelType::RotationZ) } else if vx_eq(vx_m,
b"Xposition" ) {
Ok(ChannelType::PositionX) } else if vx_eq(vx_m,
b"Yposition" ) {
Ok(ChannelType::PositionY) } else if vx_eq(vx_m,
b"Zposition" ) {
Ok(ChannelType::PositionZ) } else {
Err(ParseChannelError::from(s)) } }
}
//@item src/lib.rs | impl TryFrom<&'_ [u8]> for ChannelType | fn try_from
//@name TryFrom<&[u8]> for ChannelType :: try_from
//@props C12 C03 C06
//@emit impl ChannelType
fn ⟦~ try_from ~> try_from ⟧(string: &[u8]) -> ⟦~ Result<Self, Self::Error> ~> (r: Result<ChannelType, ParseChannelError>)
    ensures parse_channel_ok(string@, r) ⟧ {
    ChannelType::from_bytes(string)
}
//@item src/lib.rs | impl TryFrom<&'_ str> for ChannelType | fn try_from
//@name TryFrom<&str> for ChannelType :: try_from
//@props C12
//@emit impl ChannelType
fn ⟦~ try_from ~> try_from_str ⟧(string: &str) -> ⟦~ Result<Self, Self::Error> ~> (r: Result<ChannelType, ParseChannelError>)
    ensures parse_channel_ok(string.spec_bytes(), r) ⟧ {
    ChannelType::from_bytes(string.as_bytes())
}
//@item src/lib.rs | impl FromStr for ChannelType | fn from_str
//@props C12
//@emit impl ChannelType
fn from_str(s: &str) -> ⟦~ Result<Self, Self::Err> ~> (r: Result<ChannelType, ParseChannelError>)
    ensures parse_channel_ok(s.spec_bytes(), r) ⟧ {
    ⟦ proof { axiom_str_slice(s); } ⟧
    ChannelType::from_bytes(s)
}
//@item src/lib.rs | impl ChannelType | fn is_rotation
//@props C12
//@emit impl ChannelType
fn is_rotation(&self) -> ⟦~ bool ~> (r: bool) ensures r == is_rot(*self) ⟧ {
    match *self {
        ChannelType::RotationX | ChannelType::RotationY | ChannelType::RotationZ => true,
        _ => false,
    }
}
//@item src/lib.rs | impl ChannelType | fn is_position
//@props C12
//@emit impl ChannelType
fn is_position(&self) -> ⟦~ bool ~> (r: bool) ensures r == !is_rot(*self) ⟧ {
    !self.is_rotation()
}
//@item src/lib.rs | impl ChannelType | fn axis
//@props C12
//@emit impl ChannelType
fn axis(&self) -> ⟦~ Axis ~> (r: Axis) ensures r == axis_of(*self) ⟧ {
    match *self {
        ChannelType::RotationX | ChannelType::PositionX => Axis::X,
        ChannelType::RotationY | ChannelType::PositionY => Axis::Y,
        ChannelType::RotationZ | ChannelType::PositionZ => Axis::Z,
    }
}
//@item src/lib.rs | impl ChannelType | fn as_str
//@props C12 C14 C15
//@emit impl ChannelType
fn as_str(&self) -> ⟦~ &'static str ~> (r: &'static str) ensures r.spec_bytes() == channel_name(*self) ⟧ {
    ⟦ proof {
        reveal_strlit("Xrotation"); reveal_strlit("Yrotation"); reveal_strlit("Zrotation");
        reveal_strlit("Xposition"); reveal_strlit("Yposition"); reveal_strlit("Zposition");
        is_ascii_spec_bytes("Xrotation"); is_ascii_spec_bytes("Yrotation"); is_ascii_spec_bytes("Zrotation");
        is_ascii_spec_bytes("Xposition"); is_ascii_spec_bytes("Yposition"); is_ascii_spec_bytes("Zposition");
        assert("Xrotation".spec_bytes() =~= bs"Xrotation"); assert("Yrotation".spec_bytes() =~= bs"Yrotation"); assert("Zrotation".spec_bytes() =~= bs"Zrotation");
        assert("Xposition".spec_bytes() =~= bs"Xposition"); assert("Yposition".spec_bytes() =~= bs"Yposition"); assert("Zposition".spec_bytes() =~= bs"Zposition");
    } ⟧
    match *self {
        ChannelType::RotationX => "Xrotation",
        ChannelType::RotationY => "Yrotation",
        ChannelType::RotationZ => "Zrotation",

        ChannelType::PositionX => "Xposition",
        ChannelType::PositionY => "Yposition",
        ChannelType::PositionZ => "Zposition",
    }
}
//@raw
// std::fmt::Formatter without flags: what was written so far
struct VxFmtError;
#[verifier::external_body]
struct VxFormatter { t: String }
impl VxFormatter {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtError>) ensures r is Ok ==> final(self)@ == old(self)@ + s.spec_bytes() { self.t.push_str(s); Ok(()) }
}
//@item src/lib.rs | impl fmt::Display for ChannelType | fn fmt
//@props C12
//@emit impl ChannelType
fn fmt(&self, f: &mut ⟦~ fmt::Formatter ~> VxFormatter ⟧) -> ⟦~ fmt::Result ~> (r: Result<(), VxFmtError>) ensures r is Ok ==> final(f)@ == old(f)@ + channel_name(*self) ⟧ {
    f.write_str(self.as_str())
}
//@item src/lib.rs | impl Channel | fn new
//@props C03 C04
//@emit impl Channel
fn new(channel_type: ChannelType, motion_index: usize) -> ⟦~ Self ~> (r: Self) ensures r.channel_type == channel_type, r.motion_index == motion_index ⟧ {
    Channel {
        channel_type,
        motion_index,
    }
}
//@item src/lib.rs | impl Channel | fn channel_type
//@props C03 C12
//@emit impl Channel
fn channel_type(&self) -> ⟦~ ChannelType ~> (r: ChannelType) ensures r == self.channel_type ⟧ {
    self.channel_type
}
//@item src/lib.rs | impl Channel | fn motion_index
//@props C04 C11
//@emit impl Channel
fn motion_index(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.motion_index ⟧ {
    self.motion_index
}
//@item src/lib.rs | impl Axis | fn vector
//@props C12
//@emit impl Axis
fn vector(&self) -> ⟦~ Offset ~> (r: Offset) ensures r@ == (match *self { Axis::X => seq![1.0f32, 0.0f32, 0.0f32], Axis::Y => seq![0.0f32, 1.0f32, 0.0f32], Axis::Z => seq![0.0f32, 0.0f32, 1.0f32] }) ⟧ {
    match *self {
        Axis::X => [1.0, 0.0, 0.0],
        Axis::Y => [0.0, 1.0, 0.0],
        Axis::Z => [0.0, 0.0, 1.0],
    }
}
