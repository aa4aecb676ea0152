//@raw
//@props C04 C17
// ================================================================ src/macros.rs: what a bvh! literal is built with (C04, C17)
// core::slice::last_mut
#[verifier::external_body]
fn vx_last_mut<'a, T>(s: &'a mut Vec<T>) -> (r: Option<&'a mut T>)
    ensures
        old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
        old(s)@.len() > 0 ==> r is Some && *(r->Some_0) == old(s)@.last() && final(s)@ == old(s)@.update(old(s)@.len() - 1, *final(r->Some_0)),
{ s.last_mut() }
// These channels are in memory, 16 bytes each.
axiom fn axiom_joints_vec_len(v: &Vec<JointData>) ensures v@.len() <= 0x0fff_ffff_ffff_ffff;
axiom fn axiom_channels_len(js: &Vec<JointData>) ensures sum_channels(js@) <= 0x0fff_ffff_ffff_ffff;

// The builder has built the joints of h (see 52_hier: the state of a reader of the same text).
impl BvhLiteralBuilder {
    spec fn built(self, h: HState) -> bool {
        &&& hinv(h) && !(h.phase is Done) && !(h.phase is Start)
        &&& joints_ok(self.bvh.joints@, h.joints)
        &&& self.current_index == h.joints.len() && self.current_channel_index == h.nch
    }
    spec fn rest_same(self, o: BvhLiteralBuilder) -> bool {
        self.current_depth == o.current_depth && self.bvh.motion_values == o.bvh.motion_values && self.bvh.num_channels == o.bvh.num_channels && self.bvh.frame_time == o.bvh.frame_time
    }
}
// one more channel on the innermost joint
spec fn add_channel(h: HState, t: ChannelType) -> HState {
    HState { nch: h.nch + 1, ..set_top(h, SJoint { channels: top(h).channels.push((t, h.nch)), ..top(h) }) }
}
spec fn add_offset(h: HState, o: Seq<f32>, end: bool) -> HState { set_top(h, if end { SJoint { end: Some(o), ..top(h) } } else { SJoint { offset: o, ..top(h) } }) }
spec fn at_joint(h: HState) -> bool { h.phase is Body && !h.sealed }
proof fn lemma_built_sum(b: BvhLiteralBuilder, h: HState)
    requires b.built(h),
    ensures sum_channels(b.bvh.joints@) == h.nch,
{
    assert forall|i: int| 0 <= i < b.bvh.joints@.len() implies #[trigger] stored(b.bvh.joints@, h.joints, i) by {}
    lemma_sum(h, b.bvh.joints@);
    assert(h.joints.take(h.joints.len() as int) =~= h.joints);
}
// the channels of the innermost joint are the last ones
proof fn lemma_top_numbers(h: HState)
    requires hinv(h), at_joint(h),
    ensures
        h.stack.last() == h.joints.len() - 1, h.joints.len() > 0, h.nch >= top(h).channels.len(),
        forall|c: int| #![trigger top(h).channels[c]] 0 <= c < top(h).channels.len() ==> top(h).channels[c].1 == h.nch - top(h).channels.len() + c,
{
    let js = h.joints;
    assert(open_ok(js, h.stack, h.stack.len() - 1));
    lemma_total_push(js.drop_last(), js.last());
    assert(js.drop_last().push(js.last()) =~= js);
    assert forall|c: int| #![trigger top(h).channels[c]] 0 <= c < top(h).channels.len() implies top(h).channels[c].1 == h.nch - top(h).channels.len() + c by {
        assert(js.take(js.len() - 1) =~= js.drop_last());
        assert(number_ok(js, js.len() - 1, c));
    }
}
proof fn lemma_stack(h: HState, k: int)
    requires hinv(h), 0 <= k < h.stack.len(),
    ensures k <= h.stack[k] < h.joints.len(),
    decreases k,
{
    assert(open_ok(h.joints, h.stack, k));
    if k > 0 { lemma_stack(h, k - 1); }
}
proof fn lemma_add_channel(h: HState, t: ChannelType)
    requires hinv(h), at_joint(h),
    ensures hinv(add_channel(h, t)), at_joint(add_channel(h, t)), add_channel(h, t).stack == h.stack,
{
    lemma_top_numbers(h);
    let j = SJoint { channels: top(h).channels.push((t, h.nch)), ..top(h) };
    assert forall|c: int| #![trigger j.channels[c]] 0 <= c < j.channels.len() implies j.channels[c].1 == h.nch - top(h).channels.len() + c by {
        if c < top(h).channels.len() { assert(j.channels[c] == top(h).channels[c]); }
    }
    lemma_set_top(h, j, h.nch + 1);
}
proof fn lemma_add_offset(h: HState, o: Seq<f32>, end: bool)
    requires hinv(h), at_joint(h),
    ensures hinv(add_offset(h, o, end)), at_joint(add_offset(h, o, end)), add_offset(h, o, end).stack == h.stack,
{
    lemma_top_numbers(h);
    let j = if end { SJoint { end: Some(o), ..top(h) } } else { SJoint { offset: o, ..top(h) } };
    assert forall|c: int| #![trigger j.channels[c]] 0 <= c < j.channels.len() implies j.channels[c].1 == h.nch - top(h).channels.len() + c by { assert(j.channels[c] == top(h).channels[c]); }
    lemma_set_top(h, j, h.nch);
}
// changing only the last joint
proof fn lemma_rebuilt(js: Seq<JointData>, ss: Seq<SJoint>, j: JointData, s: SJoint)
    requires joints_ok(js, ss), js.len() > 0, same_joint(j, s), j.s_private() == js.last().s_private(), s.parent == ss.last().parent, s.depth == ss.last().depth,
    ensures joints_ok(js.update(js.len() - 1, j), ss.update(ss.len() - 1, s)),
{
    let (js2, ss2) = (js.update(js.len() - 1, j), ss.update(ss.len() - 1, s));
    assert forall|i: int| 0 <= i < js2.len() implies #[trigger] stored(js2, ss2, i) by { assert(stored(js, ss, i)); }
}
//@item src/macros.rs | struct BvhLiteralBuilder
//@derives Default
struct BvhLiteralBuilder {
    bvh: Bvh,
    current_channel_index: usize,
    current_depth: usize,
    current_index: usize,
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn push_root
//@props C04 C17
//@emit impl BvhLiteralBuilder
fn push_root(&mut self, name: &str)
⟦   requires old(self).bvh.joints@.len() == 0, old(self).current_index == 0, old(self).current_channel_index == 0,
    ensures
        final(self).built(declare(HState { phase: Phase::NeedRoot, ..h_start() }, name.spec_bytes())),
        final(self).rest_same(*old(self)),
⟧ {
    let mut root = JointData::empty_root();
    root.set_name(name);
    self.bvh.joints.push(root);
    self.current_index += 1;
    ⟦ proof {
        let h = HState { phase: Phase::NeedRoot, ..h_start() };
        let h2 = declare(h, name.spec_bytes());
        lemma_declare(h, name.spec_bytes());
        assert(self.bvh.joints@ =~= seq![root]);
        assert(h2.joints =~= seq![h2.joints[0]]);
        assert(stored(self.bvh.joints@, h2.joints, 0));
    } ⟧
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn push_joint | fn get_parent_index
//@props C02 C17
⟦~ fn get_parent_index ~> fn get_literal_parent_index ⟧(joints: &[JointData], for_depth: usize) -> ⟦~ usize ~> (r: usize) ensures parent_found(joints@, (if for_depth < 1 { 0 } else { for_depth - 1 }) as nat, r) ⟧ {
⟦~ joints
.iter()
.rev()
.find(|jd| ~> vx_rfind(joints, |jd: &JointData| -> (b: bool) ensures b == (jd.s_depth() == (if for_depth < 1 { 0 } else { for_depth - 1 }) as nat) { ⟧ jd.depth() == for_depth.saturating_sub(1)⟦ } ⟧)
.and_then(⟦~ |jd| ~> |jd: &JointData| -> (q: Option<usize>) ensures q == (match jd.s_private() { Some(p) => Some(p.self_index), None => None }) { ⟧ jd.private_data().map(⟦~ |p| ~> |p: &JointPrivateData| -> (i: usize) ensures i == p.self_index { ⟧ p.self_index⟦ } ⟧)⟦ } ⟧)
.unwrap_or(0)
}
//@item src/joint.rs | impl JointData | fn private_data_mut
//@props C17
//@emit impl JointData
fn private_data_mut(&mut self) -> ⟦~ Option<&mut JointPrivateData> ~> (r: Option<&mut JointPrivateData>)
    ensures
        old(self).s_private() is None ==> r is None && *final(self) == *old(self),
        old(self).s_private() is Some ==> r is Some && *(r->0) == old(self).s_private()->0 && final(self).s_private() == Some(*final(r->0))
            && final(self).s_name() == old(self).s_name() && final(self).s_offset() == old(self).s_offset() && final(self).s_channels() == old(self).s_channels() && final(self).s_end() == old(self).s_end(),
⟧ {
    match *self {
        JointData::Child {
            ref mut private, ..
        } => Some(private),
        _ => None,
    }
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn push_joint
//@props C04 C17
//@cut fn get_parent_index
//@emit impl BvhLiteralBuilder
fn push_joint(&mut self, name: &str⟦ , Ghost(h): Ghost<HState> ⟧)
⟦   requires old(self).built(h), h.phase is Body, !h.in_end, old(self).current_depth == h.stack.len(),
    ensures
        final(self).built(declare(HState { open: false, ..h }, name.spec_bytes())),
        final(self).rest_same(*old(self)),
⟧ {
    let idx = self.current_index;
    let dpth = self.current_depth;
    let parent = ⟦~ get_parent_index ~> get_literal_parent_index ⟧(⟦~ &self.bvh.joints[..] ~> self.bvh.joints.as_slice() ⟧, dpth);

    let mut joint = JointData::empty_child();
    joint.set_name(name);
    if let Some(⟦~ ref mut private ~> private ⟧) = joint.private_data_mut() {
        private.self_index = idx;
        private.depth = dpth;
        private.parent_index = parent;
    };

    ⟦ let ghost js = self.bvh.joints@; ⟧
    self.bvh.joints.push(joint);

    ⟦ proof {
        axiom_joints_vec_len(&self.bvh.joints);
        let g = HState { open: false, ..h };
        assert forall|k: int| 0 <= k < g.stack.len() implies #[trigger] open_ok(g.joints, g.stack, k) by { assert(open_ok(h.joints, h.stack, k)); }
        assert forall|k: int, i: int| 0 <= k < g.stack.len() && g.stack[k] < i < g.joints.len() implies #[trigger] below_ok(g.joints, g.stack, k, i) by { assert(below_ok(h.joints, h.stack, k, i)); }
        assert(hinv(g));
        lemma_declare(g, name.spec_bytes());
        let h2 = declare(g, name.spec_bytes());
        assert(open_ok(h.joints, h.stack, 0));
        assert forall|i: int| 0 <= i < js.len() implies #[trigger] stored(js, h2.joints, i) by { assert(stored(js, h.joints, i)); assert(h2.joints[i] == h.joints[i]); }
        lemma_stack(h, h.stack.len() - 1);
        lemma_place(h2, js, (dpth + 1) as usize, parent);
        assert forall|i: int| 0 <= i < self.bvh.joints@.len() implies #[trigger] stored(self.bvh.joints@, h2.joints, i) by {
            if i < js.len() { assert(stored(js, h2.joints, i)); }
        }
    } ⟧
    self.current_index += 1;
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn push_channel
//@props C04 C17
//@emit impl BvhLiteralBuilder
fn push_channel(&mut self, channel: ChannelType⟦ , Ghost(h): Ghost<HState> ⟧)
⟦   requires old(self).built(h), at_joint(h),
    ensures final(self).built(add_channel(h, channel)), final(self).rest_same(*old(self)),
⟧ {
    ⟦ let ghost js = self.bvh.joints@; ⟧
    let channel = Channel::new(channel, self.current_channel_index);
    ⟦ match ⟧ self.last_joint()⟦~ .map(|joint| ~> { None => {}, Some(joint) => { ⟧ match *joint {
        JointData::Root {
            ref mut channels, ..
        } => {
            channels.push(channel);
        }
        JointData::Child {
            ref mut channels, ..
        } => {
            channels.push(channel);
        }
    }⟦~ ); ~> } } ⟧
    ⟦ proof {
        lemma_top_numbers(h);
        lemma_add_channel(h, channel.channel_type);
        assert(stored(js, h.joints, js.len() - 1));
        lemma_rebuilt(js, h.joints, self.bvh.joints@.last(), top(add_channel(h, channel.channel_type)));
        assert(self.bvh.joints@ =~= js.update(js.len() - 1, self.bvh.joints@.last()));
        axiom_channels_len(&self.bvh.joints);
        lemma_sum(add_channel(h, channel.channel_type), self.bvh.joints@);
        assert(add_channel(h, channel.channel_type).joints.take(js.len() as int) =~= add_channel(h, channel.channel_type).joints);
    } ⟧
    self.current_channel_index += 1;
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn push_joint_offset
//@props C17
//@emit impl BvhLiteralBuilder
fn push_joint_offset(&mut self, offset: Offset, is_end_site: bool⟦ , Ghost(h): Ghost<HState> ⟧)
⟦   requires old(self).built(h), at_joint(h),
    ensures final(self).built(add_offset(h, offset@, is_end_site)), final(self).rest_same(*old(self)),
⟧ {
    ⟦ let ghost js = self.bvh.joints@; match ⟧ self.last_joint()⟦~ .map(|joint| { ~> { None => {}, Some(joint) => { ⟧
        joint.set_offset(offset, is_end_site);
    ⟦~ }); ~> } }
    proof {
        lemma_top_numbers(h);
        lemma_add_offset(h, offset@, is_end_site);
        assert(stored(js, h.joints, js.len() - 1));
        lemma_rebuilt(js, h.joints, self.bvh.joints@.last(), top(add_offset(h, offset@, is_end_site)));
        assert(self.bvh.joints@ =~= js.update(js.len() - 1, self.bvh.joints@.last()));
    } ⟧
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn set_num_channels
//@props C04 C17
//@emit impl BvhLiteralBuilder
fn set_num_channels(&mut self)
⟦   ensures final(self).bvh.num_channels == old(self).current_channel_index, *final(self) == (BvhLiteralBuilder { bvh: Bvh { num_channels: old(self).current_channel_index, ..old(self).bvh }, ..*old(self) }),
⟧ {
    self.bvh.num_channels = self.current_channel_index;
}
//@item src/macros.rs | impl BvhLiteralBuilder | fn last_joint
//@props C17
//@emit impl BvhLiteralBuilder
fn last_joint(&mut self) -> ⟦~ Option<&mut JointData> ~> (r: Option<&mut JointData>)
    ensures
        old(self).bvh.joints@.len() == 0 ==> r is None && final(self).bvh.joints@ == old(self).bvh.joints@
            && final(self).current_index == old(self).current_index && final(self).current_channel_index == old(self).current_channel_index && final(self).rest_same(*old(self)),
        old(self).bvh.joints@.len() > 0 ==> r is Some && *(r->Some_0) == old(self).bvh.joints@.last()
            && final(self).bvh.joints@ == old(self).bvh.joints@.update(old(self).bvh.joints@.len() - 1, *final(r->Some_0))
            && final(self).current_index == old(self).current_index && final(self).current_channel_index == old(self).current_channel_index && final(self).rest_same(*old(self)),
⟧ {
    ⟦~ self.bvh.joints.last_mut() ~> vx_last_mut(&mut self.bvh.joints) ⟧
}
