//@raw
// ================================================================ dependencies: smallvec, std::time
// smallvec::SmallVec: a vector; the inline capacity is not observable (trusted reference model of the dependency).
pub trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }

#[verifier::reject_recursive_types(A)]
pub struct SmallVec<A: Array> { v: Vec<A::Item> }

impl<A: Array> SmallVec<A> {
    pub closed spec fn view(&self) -> Seq<A::Item> { self.v@ }
    fn new() -> (r: Self) ensures r@ == Seq::<A::Item>::empty() { SmallVec { v: Vec::new() } }
    fn push(&mut self, x: A::Item) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    fn as_slice(&self) -> (r: &[A::Item]) ensures r@ == self@ { self.v.as_slice() }
    fn as_mut_slice(&mut self) -> (r: &mut [A::Item]) ensures r@ == old(self)@, final(self)@ == final(r)@ { self.v.as_mut_slice() }
}
impl<A: Array> Default for SmallVec<A> {
    fn default() -> (r: Self) ensures r@ == Seq::<A::Item>::empty() { SmallVec { v: Vec::new() } }
}

// std::num::NonZeroUsize
#[derive(Clone, Copy)] struct NonZeroUsize { v: usize }
impl NonZeroUsize {
    fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures r is Some <==> n != 0, r is Some ==> r->0.v == n { if n != 0 { Some(NonZeroUsize { v: n }) } else { None } }
    fn get(self) -> (r: usize) ensures r == self.v { self.v }
}
type Duration = core::time::Duration;
//@item src/joint.rs | type Offset
type Offset = [f32; 3];
//@item src/joint.rs | enum JointData
//@pre #[allow(inconsistent_fields)]
enum JointData {
    Root {
        name: JointName,
        offset: Offset,
        channels: SmallVec<[Channel; 6]>,
        end_site_offset: Option<Offset>,
    },
    Child {
        name: JointName,
        offset: Offset,
        channels: SmallVec<[Channel; 3]>,
        end_site_offset: Option<Offset>,
        private: JointPrivateData,
    },
}
//@item src/joint.rs | type JointNameInner
type JointNameInner = SmallVec<[u8; ⟦~ mem::size_of::<String>() ~> 24 ⟧]>;
//@item src/joint.rs | struct JointName
//@derives Default
⟦pub⟧ struct JointName(JointNameInner);
//@item src/joint.rs | struct JointPrivateData
struct JointPrivateData {
    self_index: usize,
    parent_index: usize,
    depth: usize,
}
//@item src/joint.rs | struct Joints
struct Joints<'a> {
    joints: &'a [JointData],
    current_joint: usize,
    from_child: Option<usize>,
}
//@item src/joint.rs | struct JointsMut
struct JointsMut<'a> {
    joints: &'a mut [JointData],
    current_joint: usize,
    from_child: Option<usize>,
}
//@item src/joint.rs | struct Joint
struct Joint<'a> {
    index: usize,
    joints: &'a [JointData],
}
//@item src/joint.rs | struct JointMut
struct JointMut<'a> {
    index: usize,
    joints: &'a mut [JointData],
}
//@item src/lib.rs | struct Bvh
struct Bvh {
    joints: Vec<JointData>,
    motion_values: Vec<f32>,
    num_channels: usize,
    frame_time: Duration,
}
