//@raw
// ---------------------------------------------------------------- traversal of the skeleton (C13)
// joint i belongs to the iteration: all joints, or those whose parent is f
spec fn sel(js: Seq<JointData>, f: Option<usize>, i: int) -> bool { f is None || js[i].s_parent() == f }
// the indices from i on which belong to the iteration, in order
spec fn sel_from(js: Seq<JointData>, f: Option<usize>, i: int) -> Seq<int>
    decreases js.len() - i
{
    if i < 0 || i >= js.len() { Seq::empty() }
    else if sel(js, f, i) { seq![i] + sel_from(js, f, i + 1) }
    else { sel_from(js, f, i + 1) }
}
// C13: exactly the selected joints, each once, in order
proof fn lemma_sel_exact(js: Seq<JointData>, f: Option<usize>, i: int)
    requires 0 <= i,
    ensures
        forall|k: int| #![trigger sel_from(js, f, i)[k]] 0 <= k < sel_from(js, f, i).len() ==> i <= sel_from(js, f, i)[k] < js.len() && sel(js, f, sel_from(js, f, i)[k]),
        forall|k: int, l: int| 0 <= k < l < sel_from(js, f, i).len() ==> sel_from(js, f, i)[k] < sel_from(js, f, i)[l],
        forall|j: int| i <= j < js.len() && sel(js, f, j) ==> sel_from(js, f, i).contains(j),
    decreases js.len() - i
{
    if i < js.len() {
        lemma_sel_exact(js, f, i + 1);
        let r = sel_from(js, f, i + 1);
        if sel(js, f, i) {
            let s = sel_from(js, f, i);
            assert(s =~= seq![i] + r);
            assert(s[0] == i);
            assert forall|k: int| 0 <= k < s.len() implies i <= #[trigger] s[k] < js.len() && sel(js, f, s[k]) by { if k > 0 { assert(s[k] == r[k - 1]); } }
            assert forall|j: int| i <= j < js.len() && sel(js, f, j) implies s.contains(j) by {
                if j > i { let k = choose|k: int| 0 <= k < r.len() && r[k] == j; assert(r.contains(j)); assert(s[k + 1] == j); }
            }
            assert forall|k: int, l: int| 0 <= k < l < s.len() implies s[k] < s[l] by { assert(s[l] == r[l - 1]); if k > 0 { assert(s[k] == r[k - 1]); } }
        } else {
            assert(sel_from(js, f, i) == r);
        }
    }
}
// C13: all joints are 0, 1, 2, ...
proof fn lemma_sel_all(js: Seq<JointData>, i: int)
    requires 0 <= i <= js.len(),
    ensures sel_from(js, None, i) =~= Seq::new((js.len() - i) as nat, |k: int| i + k),
    decreases js.len() - i
{
    if i < js.len() {
        lemma_sel_all(js, i + 1);
        assert(sel_from(js, None, i) =~= seq![i] + sel_from(js, None, i + 1));
    }
}
// C13: where parents come before their children (C02), the iteration over the children of j misses none
proof fn lemma_children_complete(js: Seq<JointData>, j: usize)
    requires j < js.len(), forall|i: int| 0 <= i < js.len() && js[i].s_parent() == Some(j) ==> i > j,
    ensures
        forall|i: int| 0 <= i < js.len() ==> (sel_from(js, Some(j), j + 1).contains(i) <==> js[i].s_parent() == Some(j)),
{
    lemma_sel_exact(js, Some(j), j + 1);
    assert forall|i: int| 0 <= i < js.len() implies (sel_from(js, Some(j), j + 1).contains(i) <==> js[i].s_parent() == Some(j)) by {
        if sel_from(js, Some(j), j + 1).contains(i) { }
        if js[i].s_parent() == Some(j) { assert(sel(js, Some(j), i)); }
    }
}
proof fn lemma_sel_skip(js: Seq<JointData>, f: Option<usize>, i: int, j: int)
    requires 0 <= i <= j <= js.len(), forall|k: int| i <= k < j ==> !sel(js, f, k),
    ensures sel_from(js, f, i) == sel_from(js, f, j),
    decreases j - i
{
    if i < j { lemma_sel_skip(js, f, i + 1, j); }
}
impl<'a> Joints<'a> {
    spec fn wf(&self) -> bool { self.current_joint <= self.joints@.len() }
    // indices of the joints still to come
    spec fn rem(&self) -> Seq<int> { sel_from(self.joints@, self.from_child, self.current_joint as int) }

    // core::iter::Iterator::find, as std defines it in terms of next
    fn find<P: Fn(&Joint<'a>) -> bool>(&mut self, pred: P) -> (r: Option<Joint<'a>>)
        requires
            old(self).wf(),
            forall|j: Joint<'a>| #![auto] j.joints == old(self).joints && j.index < j.joints@.len() ==> pred.requires((&j,)),
        ensures
            final(self).wf(), final(self).joints == old(self).joints, final(self).from_child == old(self).from_child,
            r is None ==> forall|k: int| #![auto] 0 <= k < old(self).rem().len() ==> pred.ensures((&Joint { index: old(self).rem()[k] as usize, joints: old(self).joints },), false),
            r is Some ==> exists|m: int| #![auto] 0 <= m < old(self).rem().len() && r->0 == (Joint { index: old(self).rem()[m] as usize, joints: old(self).joints })
                && (pred.ensures((&r->0,), true))
                && (forall|k: int| #![auto] 0 <= k < m ==> pred.ensures((&Joint { index: old(self).rem()[k] as usize, joints: old(self).joints },), false)),
    {
        let ghost mut m: int = 0;
        loop
            invariant
                self.wf(), self.joints == old(self).joints, self.from_child == old(self).from_child,
                0 <= m <= old(self).rem().len(), self.rem() =~= old(self).rem().skip(m),
                forall|j: Joint<'a>| #![auto] j.joints == old(self).joints && j.index < j.joints@.len() ==> pred.requires((&j,)),
                forall|k: int| #![auto] 0 <= k < m ==> pred.ensures((&Joint { index: old(self).rem()[k] as usize, joints: old(self).joints },), false),
            decreases self.rem().len()
        {
            let ghost b = self.rem();
            match self.next() {
                None => { return None; }
                Some(j) => {
                    proof { assert(b[0] == old(self).rem()[m]); }
                    if pred(&j) { return Some(j); }
                    proof { m = m + 1; }
                }
            }
        }
    }
}
impl<'a> Joint<'a> {
    spec fn wf(&self) -> bool { self.index < self.joints@.len() }
    spec fn at(&self) -> JointData { self.joints@[self.index as int] }
}
impl<'a> JointMut<'a> {
    spec fn wf(&self) -> bool { self.index < self.joints@.len() }
}
//@item src/joint.rs | impl<'a> Joints<'a> | fn iter_root
//@props C13
//@emit impl<'a> Joints<'a>
fn iter_root(joints: &'a [JointData]) -> ⟦~ Self ~> (r: Self) ensures r.wf(), r.joints == joints, r.from_child is None, r.current_joint == 0 ⟧ {
    Joints {
        joints,
        // clips,
        current_joint: 0,
        from_child: None,
    }
}
//@item src/joint.rs | impl<'a> Joints<'a> | fn iter_children
//@props C13
//@emit impl<'a> Joints<'a>
fn iter_children(joint: &Joint<'a>) -> ⟦~ Self ~> (r: Self)
    requires joint.wf(),
    ensures r.wf(), r.joints == joint.joints, r.rem() == sel_from(joint.joints@, Some(joint.index), joint.index + 1), ⟧ {
    ⟦ proof { axiom_joints_len(joint.joints); } ⟧
    Joints {
        joints: joint.joints,
        // clips: joint.clips,
        current_joint: joint.index + 1,
        from_child: Some(joint.index),
    }
}
//@item src/joint.rs | impl<'a> Joints<'a> | fn find_by_name
//@props C13
//@emit impl<'a> Joints<'a>
fn find_by_name<B>(&mut self, joint_name: &B) -> ⟦~ Option<Joint<'a>> ~> (r: Option<Joint<'a>>) ⟧
where
    B: ?Sized + AsRef<[u8]>,
⟦   requires old(self).wf(),
    ensures
        final(self).wf(),
        r is None ==> forall|k: int| #![auto] 0 <= k < old(self).rem().len() ==> old(self).joints@[old(self).rem()[k]].s_name() != joint_name.as_ref_spec()@,
        r is Some ==> exists|m: int| #![auto] 0 <= m < old(self).rem().len() && r->0.index == old(self).rem()[m] && r->0.joints == old(self).joints
            && old(self).joints@[old(self).rem()[m]].s_name() == joint_name.as_ref_spec()@
            && (forall|k: int| #![auto] 0 <= k < m ==> old(self).joints@[old(self).rem()[k]].s_name() != joint_name.as_ref_spec()@),
⟧ {
    ⟦ proof { lemma_sel_exact(self.joints@, self.from_child, self.current_joint as int); axiom_joints_len(self.joints); } ⟧
    self.find(⟦~ |b| ~> |b: &Joint<'a>| -> (q: bool) requires b.wf(), ensures q == (b.at().s_name() == joint_name.as_ref_spec()@) { vx_eq( ⟧ b.data().name() ⟦~ == ~> , ⟧ joint_name.as_ref()⟦ ) } ⟧)
}
//@item src/joint.rs | impl<'a> Iterator for Joints<'a> | fn next
//@props C13
//@emit impl<'a> Joints<'a>
fn next(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<Joint<'a>>)
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).joints == old(self).joints, final(self).from_child == old(self).from_child,
        old(self).rem().len() == 0 ==> r is None && final(self).rem().len() == 0,
        old(self).rem().len() > 0 ==> r is Some && r->0.index == old(self).rem()[0] && r->0.joints == old(self).joints && r->0.wf() && final(self).rem() == old(self).rem().skip(1), ⟧ {
    ⟦ let ghost c = self.current_joint as int; let ghost js = self.joints@; let ghost f = self.from_child;
      proof { axiom_joints_len(self.joints); lemma_sel_exact(js, f, c); } ⟧
    if let Some(parent) = self.from_child {
        // Skip the joints which are not direct children of `parent`.
        while self.current_joint < self.joints.len()
            && self.joints[self.current_joint].parent_index() != Some(parent)
        ⟦   invariant
                self.joints@ == js, self.joints == old(self).joints, self.from_child == f, f == Some(parent), js.len() < usize::MAX,
                0 <= c <= self.current_joint <= js.len(),
                forall|k: int| c <= k < self.current_joint ==> !sel(js, f, k),
            decreases js.len() - self.current_joint, ⟧
        {
            self.current_joint += 1;
        }
    }

    ⟦ let ghost d = self.current_joint as int;
      proof { lemma_sel_skip(js, f, c, d); if d < js.len() { assert(sel(js, f, d)); assert(sel_from(js, f, d) =~= seq![d] + sel_from(js, f, d + 1)); assert(sel_from(js, f, d).skip(1) =~= sel_from(js, f, d + 1)); } } ⟧
    if self.current_joint >= self.joints.len() {
        return None;
    }

    let joint = Some(Joint {
        index: self.current_joint,
        joints: self.joints,
    });

    self.current_joint += 1;

    joint
}
//@item src/joint.rs | impl Joint<'_> | fn data
//@props C13 C02 C03
//@emit impl Joint<'_>
fn data(&self) -> ⟦~ &JointData ~> (r: &JointData) requires self.wf(), ensures *r == self.at() ⟧ {
    &self.joints[self.index]
}
//@item src/joint.rs | impl Joint<'_> | fn is_root
//@props C02 C13
//@emit impl Joint<'_>
fn is_root(&self) -> ⟦~ bool ~> (r: bool) requires self.wf(), ensures r == (self.at().s_private() is None) ⟧ {
    self.data().is_root()
}
//@item src/joint.rs | impl Joint<'_> | fn is_child
//@props C02 C13
//@emit impl Joint<'_>
fn is_child(&self) -> ⟦~ bool ~> (r: bool) requires self.wf(), ensures r == (self.at().s_private() is Some) ⟧ {
    self.data().is_child()
}
//@item src/joint.rs | impl Joint<'_> | fn name
//@props C03 C13
//@emit impl Joint<'_>
fn name(&self) -> ⟦~ &[u8] ~> (r: &[u8]) requires self.wf(), ensures r@ == self.at().s_name() ⟧ {
    self.data().name()
}
//@item src/joint.rs | impl Joint<'_> | fn offset
//@props C03
//@emit impl Joint<'_>
fn offset(&self) -> ⟦~ &Offset ~> (r: &Offset) requires self.wf(), ensures *r == self.at().s_offset() ⟧ {
    self.data().offset()
}
//@item src/joint.rs | impl Joint<'_> | fn end_site
//@props C03
//@emit impl Joint<'_>
fn end_site(&self) -> ⟦~ Option<&Offset> ~> (r: Option<&Offset>) requires self.wf(), ensures r is Some <==> self.at().s_end() is Some, r is Some ==> *r->0 == self.at().s_end()->0 ⟧ {
    self.data().end_site()
}
//@item src/joint.rs | impl Joint<'_> | fn has_end_site
//@props C03
//@emit impl Joint<'_>
fn has_end_site(&self) -> ⟦~ bool ~> (r: bool) requires self.wf(), ensures r == (self.at().s_end() is Some) ⟧ {
    self.end_site().is_some()
}
//@item src/joint.rs | impl Joint<'_> | fn channels
//@props C03 C04
//@emit impl Joint<'_>
fn channels(&self) -> ⟦~ &[Channel] ~> (r: &[Channel]) requires self.wf(), ensures r@ == self.at().s_channels() ⟧ {
    self.data().channels()
}
//@item src/joint.rs | impl Joint<'_> | fn index
//@props C02 C13
//@emit impl Joint<'_>
fn index(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.index ⟧ {
    self.index
}
//@item src/joint.rs | impl Joint<'_> | fn parent_index
//@props C02 C13
//@emit impl Joint<'_>
fn parent_index(&self) -> ⟦~ Option<usize> ~> (r: Option<usize>) requires self.wf(), ensures r == self.at().s_parent() ⟧ {
    self.data().parent_index()
}
//@item src/joint.rs | impl Joint<'_> | fn parent
//@props C13
//@emit impl Joint<'_>
fn parent(&self) -> ⟦~ Option<Joint<'_>> ~> (r: Option<Joint<'_>>)
    requires self.wf(),
    ensures
        self.at().s_parent() is None ==> r is None,
        self.at().s_parent() is Some ==> r is Some && r->0.index == self.at().s_parent()->0 && r->0.joints == self.joints, ⟧ {
    self.data().parent_index().map(⟦~ |idx| ~> |idx: usize| -> (q: Joint<'_>) ensures q.index == idx, q.joints == self.joints { ⟧ Joint {
        index: idx,
        joints: self.joints,
    } ⟦ } ⟧)
}
//@item src/joint.rs | impl Joint<'_> | fn children
//@props C13
//@emit impl Joint<'_>
fn children(&self) -> ⟦~ Joints<'_> ~> (r: Joints<'_>)
    requires self.wf(),
    ensures r.wf(), r.joints == self.joints, r.rem() == sel_from(self.joints@, Some(self.index), self.index + 1), ⟧ {
    Joints::iter_children(&self)
}
//@item src/lib.rs | impl Bvh | fn root_joint
//@props C13
//@emit impl Bvh
fn root_joint(&self) -> ⟦~ Option<Joint<'_>> ~> (r: Option<Joint<'_>>)
    ensures
        self.joints@.len() == 0 ==> r is None,
        self.joints@.len() > 0 ==> r is Some && r->0.index == 0 && r->0.joints@ == self.joints@ && r->0.wf(), ⟧ {
    if self.joints.is_empty() {
        None
    } else {
        Some(Joint {
            index: 0,
            joints: ⟦~ &self.joints[..] ~> self.joints.as_slice() ⟧,
        })
    }
}
//@item src/lib.rs | impl Bvh | fn joints
//@props C13
//@emit impl Bvh
fn joints(&self) -> ⟦~ Joints<'_> ~> (r: Joints<'_>)
    ensures r.wf(), r.from_child is None, r.current_joint == 0, r.joints@ == self.joints@, r.rem() =~= Seq::new(self.joints@.len(), |k: int| k), ⟧ {
    ⟦ proof { lemma_sel_all(self.joints@, 0); } ⟧
    Joints::iter_root(⟦~ &self.joints[..] ~> self.joints.as_slice() ⟧)
}
//@raw
impl<'a> JointsMut<'a> {
    // the joints still to come, and what they will be when all borrows have ended
    spec fn cur(&self) -> Seq<JointData> { self.joints@ }
    #[verifier::prophetic]
    spec fn fin(&self) -> Seq<JointData> { final(self.joints)@ }
}
// core::mem::take on a mutable slice: leaves the empty slice
#[verifier::external_body]
fn vx_take_slice<'a, T>(s: &mut &'a mut [T]) -> (r: &'a mut [T])
    ensures r@ == old(s)@, final(r)@ == final(*old(s))@, final(s)@.len() == 0, final(*final(s))@.len() == 0
{ core::mem::take(s) }
// core::slice::from_mut
#[verifier::external_body]
fn vx_from_mut<'a, T>(s: &'a mut T) -> (r: &'a mut [T])
    ensures r@ == seq![*old(s)], final(r)@ == seq![*final(s)]
{ core::slice::from_mut(s) }
// <[T]>::split_first_mut
#[verifier::external_body]
fn vx_split_first_mut<'a, T>(s: &'a mut [T]) -> (r: Option<(&'a mut T, &'a mut [T])>)
    ensures
        old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
        old(s)@.len() > 0 ==> r is Some && *(r->Some_0.0) == old(s)@[0] && (r->Some_0.1)@ == old(s)@.skip(1) && final(s)@ == seq![*final(r->Some_0.0)] + final(r->Some_0.1)@,
{ s.split_first_mut() }
//@item src/joint.rs | impl<'a> JointsMut<'a> | fn iter_root
//@props C13
//@emit impl<'a> JointsMut<'a>
fn iter_root(joints: &'a mut [JointData]) -> ⟦~ Self ~> (r: Self) ensures r.cur() == old(joints)@, r.fin() == final(joints)@, r.current_joint == 0, r.from_child is None ⟧ {
    JointsMut {
        joints,
        // clips,
        current_joint: 0,
        from_child: None,
    }
}
//@item src/joint.rs | impl<'a> Iterator for JointsMut<'a> | fn next
//@props C13
//@emit impl<'a> JointsMut<'a>
fn next(&mut self) -> ⟦~ Option<Self::Item> ~> (r: Option<JointMut<'a>>)
    requires old(self).current_joint + old(self).cur().len() <= 0x0fff_ffff_ffff_ffff,
    ensures
        final(self).current_joint + final(self).cur().len() <= 0x0fff_ffff_ffff_ffff,
        old(self).cur().len() == 0 ==> r is None && final(self).cur().len() == 0 && old(self).fin().len() == 0,
        old(self).cur().len() > 0 ==> r is Some && r->0.wf() && r->0.joints@ == seq![old(self).cur()[0]] && r->0.index == 0
            && final(self).cur() == old(self).cur().skip(1)
            // what is written through the joint ends up in its place and nowhere else
            && old(self).fin() == final(r->0.joints)@ + final(self).fin(), ⟧ {
    let (joint, rest) = ⟦~ mem::take(&mut self.joints).split_first_mut()? ~> match vx_split_first_mut(vx_take_slice(&mut self.joints)) { None => { return None; } Some(x) => x } ⟧;
    self.joints = rest;
    self.current_joint += 1;
    Some(JointMut {
        index: 0,
        joints: ⟦~ slice::from_mut(joint) ~> vx_from_mut(joint) ⟧,
    })
}
//@item src/joint.rs | impl<'a> JointMut<'a> | fn data_mut
//@props C13
//@emit impl<'a> JointMut<'a>
fn data_mut(&mut self) -> ⟦~ &mut JointData ~> (r: &mut JointData)
    requires old(self).wf(),
    ensures *r == old(self).joints@[old(self).index as int], final(self).joints@ == old(self).joints@.update(old(self).index as int, *final(r)), final(self).index == old(self).index ⟧ {
    &mut self.joints[self.index]
}
//@item src/lib.rs | impl Bvh | fn joints_mut
//@props C13
//@emit impl Bvh
fn joints_mut(&mut self) -> ⟦~ JointsMut<'_> ~> (r: JointsMut<'_>)
    ensures r.cur() == old(self).joints@, r.fin() == final(self).joints@, r.current_joint == 0,
        final(self).motion_values == old(self).motion_values, final(self).num_channels == old(self).num_channels, final(self).frame_time == old(self).frame_time, ⟧ {
    JointsMut::iter_root(⟦~ &mut self.joints[..] ~> self.joints.as_mut_slice() ⟧)
}
