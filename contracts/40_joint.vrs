//@raw
// ================================================================ src/joint.rs
axiom fn axiom_joints_len(v: &[JointData]) ensures v@.len() <= 0x0fff_ffff_ffff_ffff;

impl JointName { pub closed spec fn view(&self) -> Seq<u8> { self.0@ } }
// derive(Default)
impl Default for JointName { fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { JointName(SmallVec::new()) } }
// the identity conversion
impl Into<[f32; 3]> for [f32; 3] {
    spec fn into_ok(self, r: [f32; 3]) -> bool { r == self }
    fn vx_into(self) -> (r: [f32; 3]) { self }
}
// which slice it is (not only what is in it) is left open
uninterp spec fn name_slice(s: &JointName) -> &[u8];
#[verifier::external_body]
proof fn axiom_name_slice(s: &JointName) ensures name_slice(s)@ == s@ {}
impl AsRef<[u8]> for JointName {
    spec fn as_ref_spec(&self) -> &[u8] { name_slice(self) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { self.as_ref_body() }
}
// bytes to a name: the same bytes
impl Into<JointName> for &[u8] {
    spec fn into_ok(self, r: JointName) -> bool { r@ == self@ }
    fn vx_into(self) -> (r: JointName) { JointName::from_bytes(self) }
}
impl Into<JointName> for &str {
    spec fn into_ok(self, r: JointName) -> bool { r@ == self.spec_bytes() }
    fn vx_into(self) -> (r: JointName) { JointName::from_str_body(self) }
}
// b.bytes().collect() of a str: its bytes
#[verifier::external_body]
fn vx_collect_str(s: &str) -> (r: JointNameInner) ensures r@ == s.spec_bytes() { vx_collect(s.as_bytes()) }
// iter().copied().collect(), iter().map(|c| *c).collect() into a SmallVec: the same elements
#[verifier::external_body]
fn vx_collect<A: Array>(s: &[A::Item]) -> (r: SmallVec<A>) where A::Item: Copy ensures r@ == s@ {
    let mut r = SmallVec::<A>::new();
    for x in s { r.push(*x) }
    r
}

impl JointData {
    spec fn s_jname(self) -> JointName { match self { JointData::Root { name, .. } => name, JointData::Child { name, .. } => name } }
    spec fn s_name(self) -> Seq<u8> { match self { JointData::Root { name, .. } => name@, JointData::Child { name, .. } => name@ } }
    spec fn s_offset(self) -> Offset { match self { JointData::Root { offset, .. } => offset, JointData::Child { offset, .. } => offset } }
    spec fn s_channels(self) -> Seq<Channel> { match self { JointData::Root { channels, .. } => channels@, JointData::Child { channels, .. } => channels@ } }
    spec fn s_end(self) -> Option<Offset> { match self { JointData::Root { end_site_offset, .. } => end_site_offset, JointData::Child { end_site_offset, .. } => end_site_offset } }
    spec fn s_private(self) -> Option<JointPrivateData> { match self { JointData::Root { .. } => None, JointData::Child { private, .. } => Some(private) } }
    spec fn s_parent(self) -> Option<usize> { match self { JointData::Root { .. } => None, JointData::Child { private, .. } => Some(private.parent_index) } }
    spec fn s_depth(self) -> nat { match self { JointData::Root { .. } => 0, JointData::Child { private, .. } => private.depth as nat } }
    spec fn s_index(self) -> nat { match self { JointData::Root { .. } => 0, JointData::Child { private, .. } => private.self_index as nat } }
    // equal in all that can be observed
    spec fn same(self, o: JointData) -> bool {
        self.s_name() == o.s_name() && self.s_offset() == o.s_offset() && self.s_channels() == o.s_channels() && self.s_end() == o.s_end() && self.s_private() == o.s_private()
    }
}
//@item src/joint.rs | impl From<&'_ [u8]> for JointName | fn from
//@props C03 C17
//@emit impl JointName
fn ⟦~ from ~> from_bytes ⟧(s: &'_ [u8]) -> ⟦~ Self ~> (r: JointName) ensures r@ == s@ ⟧ {
    JointName(⟦~ s.into_iter().copied().collect::<JointNameInner>() ~> vx_collect(s) ⟧)
}
//@item src/joint.rs! | impl From<&'_ str> for JointName | fn from
//@props C17
//@emit impl JointName
fn ⟦~ from ~> from_str_body ⟧(b: &'_ str) -> ⟦~ Self ~> (r: JointName) ensures r@ == b.spec_bytes() ⟧ {
    JointName(⟦~ b.bytes().collect() ~> vx_collect_str(b) ⟧)
}
//@item src/joint.rs! | impl AsRef<[u8]> for JointName | fn as_ref
//@props C03 C13 C14
//@emit impl JointName
fn ⟦~ as_ref ~> as_ref_body ⟧(&self) -> ⟦~ &[u8] ~> (r: &[u8]) ensures r@ == self@ ⟧ {
    AsRef::<[u8]>::as_ref(⟦~ &self.0[..] ~> self.0.as_slice() ⟧)
}
//@item src/joint.rs | impl JointName | fn as_bytes
//@props C03 C13 C14
//@emit impl JointName
fn as_bytes(&self) -> ⟦~ &[u8] ~> (r: &[u8]) ensures r@ == self@ ⟧ {
    ⟦ proof { axiom_name_slice(self); } ⟧
    self.as_ref()
}
//@item src/joint.rs | impl JointPrivateData | fn new
//@props C02
//@emit impl JointPrivateData
fn new(self_index: usize, parent_index: usize, depth: usize) -> ⟦~ Self ~> (r: Self) ensures r == (JointPrivateData { self_index, parent_index, depth }) ⟧ {
    JointPrivateData {
        self_index,
        parent_index,
        depth,
    }
}
//@item src/joint.rs | impl JointPrivateData | fn empty
//@props C02
//@emit impl JointPrivateData
fn empty() -> ⟦~ Self ~> (r: Self) ensures r == (JointPrivateData { self_index: 0, parent_index: 0, depth: 0 }) ⟧ {
    Self::new(0, 0, 0)
}
//@item src/joint.rs | impl JointData | fn is_root
//@props C02 C13
//@emit impl JointData
fn is_root(&self) -> ⟦~ bool ~> (r: bool) ensures r == (self.s_private() is None) ⟧ {
    match *self {
        JointData::Root { .. } => true,
        _ => false,
    }
}
//@item src/joint.rs | impl JointData | fn is_child
//@props C02 C13
//@emit impl JointData
fn is_child(&self) -> ⟦~ bool ~> (r: bool) ensures r == (self.s_private() is Some) ⟧ {
    match *self {
        JointData::Child { .. } => true,
        _ => false,
    }
}
//@item src/joint.rs | impl JointData | fn name
//@props C03 C13 C14
//@emit impl JointData
fn name(&self) -> ⟦~ &[u8] ~> (r: &[u8]) ensures r@ == self.s_name() ⟧ {
    let name = match *self {
        JointData::Root { ref name, .. } | JointData::Child { ref name, .. } => name,
    };

    name.as_bytes()
}
//@item src/joint.rs | impl JointData | fn offset
//@props C03 C14
//@emit impl JointData
fn offset(&self) -> ⟦~ &Offset ~> (r: &Offset) ensures *r == self.s_offset() ⟧ {
    match *self {
        JointData::Child { ref offset, .. } | JointData::Root { ref offset, .. } => offset,
    }
}
//@item src/joint.rs | impl JointData | fn end_site
//@props C03 C14
//@emit impl JointData
fn end_site(&self) -> ⟦~ Option<&Offset> ~> (r: Option<&Offset>) ensures r is Some <==> self.s_end() is Some, r is Some ==> *r->0 == self.s_end()->0 ⟧ {
    match *self {
        JointData::Child {
            ref end_site_offset,
            ..
        }
        | JointData::Root {
            ref end_site_offset,
            ..
        } => end_site_offset.as_ref(),
    }
}
//@item src/joint.rs | impl JointData | fn channels
//@props C03 C04 C14
//@emit impl JointData
fn channels(&self) -> ⟦~ &[Channel] ~> (r: &[Channel]) ensures r@ == self.s_channels() ⟧ {
    match *self {
        JointData::Child { ref channels, .. } => ⟦~ &channels[..] ~> channels.as_slice() ⟧,
        JointData::Root { ref channels, .. } => ⟦~ &channels[..] ~> channels.as_slice() ⟧,
    }
}
//@item src/joint.rs | impl JointData | fn index
//@props C02
//@emit impl JointData
fn index(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.s_index() ⟧ {
    self.private_data().map(⟦~ |d| ~> |d: &JointPrivateData| -> (q: usize) ensures q == d.self_index { ⟧ d.self_index⟦ } ⟧).unwrap_or(0)
}
//@item src/joint.rs | impl JointData | fn parent_index
//@props C02 C13
//@emit impl JointData
fn parent_index(&self) -> ⟦~ Option<usize> ~> (r: Option<usize>) ensures r == self.s_parent() ⟧ {
    self.private_data().map(⟦~ |d| ~> |d: &JointPrivateData| -> (q: usize) ensures q == d.parent_index { ⟧ d.parent_index⟦ } ⟧)
}
//@item src/joint.rs | impl JointData | fn private_data
//@props C02 C13
//@emit impl JointData
fn private_data(&self) -> ⟦~ Option<&JointPrivateData> ~> (r: Option<&JointPrivateData>) ensures r is Some <==> self.s_private() is Some, r is Some ==> *r->0 == self.s_private()->0 ⟧ {
    match *self {
        JointData::Child { ref private, .. } => Some(private),
        _ => None,
    }
}
//@item src/joint.rs | impl JointData | fn depth
//@props C02 C14
//@emit impl JointData
fn depth(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.s_depth() ⟧ {
    match *self {
        JointData::Child { ref private, .. } => private.depth,
        _ => 0,
    }
}
//@item src/joint.rs | impl JointData | fn empty_root
//@props C03 C01
//@emit impl JointData
fn empty_root() -> ⟦~ Self ~> (r: Self) ensures r is Root, r.s_name() == Seq::<u8>::empty(), r.s_offset()@ == seq![0.0f32, 0.0f32, 0.0f32], r.s_channels() == Seq::<Channel>::empty(), r.s_end() is None ⟧ {
    JointData::Root {
        name: Default::default(),
        offset: [0.0, 0.0, 0.0].⟦~ into ~> vx_into ⟧(),
        channels: Default::default(),
        end_site_offset: Default::default(),
    }
}
//@item src/joint.rs | impl JointData | fn empty_child
//@props C03 C01
//@emit impl JointData
fn empty_child() -> ⟦~ Self ~> (r: Self) ensures r is Child, r.s_name() == Seq::<u8>::empty(), r.s_offset()@ == seq![0.0f32, 0.0f32, 0.0f32], r.s_channels() == Seq::<Channel>::empty(), r.s_end() is None ⟧ {
    JointData::Child {
        name: Default::default(),
        offset: [0.0, 0.0, 0.0].⟦~ into ~> vx_into ⟧(),
        channels: Default::default(),
        end_site_offset: Default::default(),
        private: JointPrivateData::empty(),
    }
}
//@item src/joint.rs | impl JointData | fn set_name
//@props C03 C17 C01
//@emit impl JointData
fn set_name<S: Into<JointName>>(&mut self, new_name: S)
⟦   ensures
        new_name.into_ok(final(self).s_jname()),
        final(self).s_offset() == old(self).s_offset(), final(self).s_channels() == old(self).s_channels(), final(self).s_end() == old(self).s_end(), final(self).s_private() == old(self).s_private(),
⟧ {
    match *self {
        JointData::Root { ref mut name, .. } => *name = new_name.⟦~ into ~> vx_into ⟧(),
        JointData::Child { ref mut name, .. } => *name = new_name.⟦~ into ~> vx_into ⟧(),
    }
}
//@item src/joint.rs | impl JointData | fn set_offset
//@props C03 C17 C01
//@orsplit
//@emit impl JointData
fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool)
⟦   ensures
        is_site ==> final(self).s_offset() == old(self).s_offset() && final(self).s_end() is Some && new_offset.into_ok(final(self).s_end()->0),
        !is_site ==> final(self).s_end() == old(self).s_end() && new_offset.into_ok(final(self).s_offset()),
        final(self).s_name() == old(self).s_name(), final(self).s_channels() == old(self).s_channels(), final(self).s_private() == old(self).s_private(),
⟧ {
let new_offset = new_offset.⟦~ into ~> vx_into ⟧();
match *self {
JointData::Root {
ref mut offset,
ref mut end_site_offset,
..
} => {
if is_site {
*end_site_offset = Some(new_offset);
} else {
*offset = new_offset;
}
} ,
JointData::Child {
ref mut offset,
ref mut end_site_offset,
..
} => {
if is_site {
*end_site_offset = Some(new_offset);
} else {
*offset = new_offset;
}
} ,
}
}
//@item src/joint.rs | impl JointData | fn set_channels
//@props C03 C04 C01
//@emit impl JointData
fn set_channels(&mut self, new_channels: SmallVec<[Channel; 6]>)
⟦   ensures
        final(self).s_channels() == new_channels@,
        final(self).s_name() == old(self).s_name(), final(self).s_offset() == old(self).s_offset(), final(self).s_end() == old(self).s_end(), final(self).s_private() == old(self).s_private(),
⟧ {
    match *self {
        JointData::Root {
            ref mut channels, ..
        } => *channels = new_channels,
        JointData::Child {
            ref mut channels, ..
        } => *channels = ⟦~ new_channels.iter().map(|c| *c).collect() ~> vx_collect(new_channels.as_slice()) ⟧,
    }
}
