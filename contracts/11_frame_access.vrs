//@item src/lib.rs | enum ChannelType
enum ChannelType {
    PositionX,
    PositionY,
    PositionZ,
    RotationX,
    RotationY,
    RotationZ,
}
//@item src/lib.rs | struct Channel
struct Channel {
    channel_type: ChannelType,
    motion_index: usize,
}
//@raw
impl Clone for ChannelType { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ChannelType {}
impl Clone for Channel { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Channel {}
//@item src/errors.rs | enum SetMotionError
enum SetMotionError {
    BadFrame(usize),
    BadChannel(usize),
}
//@item src/frame_iter.rs | trait FrameIndex
trait FrameIndex: Sized ⟦~ + private::Sealed ~> ⟧ {
    type SliceIndex: SliceIndex<[f32]>;
    ⟦ spec fn slice_index(self) -> Self::SliceIndex; ⟧
    fn to_slice_index(self) -> ⟦~ Self::SliceIndex ~> (r: Self::SliceIndex) ensures r == self.slice_index() ⟧;
}
//@item src/frame_iter.rs | type Output
type Output<I> = <<I as FrameIndex>::SliceIndex as SliceIndex<[f32]>>::Output;
//@item src/frame_iter.rs | impl<T: SliceIndex<[f32]>> FrameIndex for T | fn to_slice_index
//@props C11
//@emit impl<T: SliceIndex<[f32]>> FrameIndex for T
//@pre type SliceIndex = Self; spec fn slice_index(self) -> Self { self }
fn to_slice_index(self) -> Self::SliceIndex {
    self
}
//@item src/frame_iter.rs | macro impl_channel_frame_index | impl FrameIndex for $chn | fn to_slice_index
//@name FrameIndex for Channel :: to_slice_index
//@props C11
//@emit impl FrameIndex for Channel
//@pre type SliceIndex = usize; spec fn slice_index(self) -> usize { self.motion_index }
fn to_slice_index(self) -> Self::SliceIndex {
    self.motion_index
}
//@item src/frame_iter.rs | macro impl_channel_frame_index | impl FrameIndex for $chn | fn to_slice_index
//@name FrameIndex for &Channel :: to_slice_index
//@props C11
//@emit impl FrameIndex for &'_ Channel
//@pre type SliceIndex = usize; spec fn slice_index(self) -> usize { self.motion_index }
fn to_slice_index(self) -> Self::SliceIndex {
    self.motion_index
}
//@item src/frame_iter.rs | impl<'a> Frame<'a> | fn len
//@props C11
//@emit impl<'a> Frame<'a>
fn len(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.0@.len() ⟧ { self.0.len() }
//@item src/frame_iter.rs | impl<'a> Frame<'a> | fn is_empty
//@props C11
//@emit impl<'a> Frame<'a>
fn is_empty(&self) -> ⟦~ bool ~> (r: bool) ensures r == (self.0@.len() == 0) ⟧ { self.0.is_empty() }
//@item src/frame_iter.rs | impl<'a> Frame<'a> | fn as_slice
//@props C11
//@emit impl<'a> Frame<'a>
fn as_slice(&self) -> ⟦~ &[f32] ~> (r: &[f32]) ensures r@ == self.0@ ⟧ { self.0 }
//@item src/frame_iter.rs | impl<'a> Frame<'a> | fn get
//@props C11
//@emit impl<'a> Frame<'a>
fn get<I: FrameIndex>(&self, index: I) -> ⟦~ Option<&Output<I>> ~> (r: Option<&Output<I>>)
    ensures r is Some <==> index.slice_index().in_bounds(self.0), r is Some ==> index.slice_index().index_postcondition(self.0, r->0) ⟧ {
    self.0.get(index.to_slice_index())
}
//@item src/frame_iter.rs | impl<'a> AsRef<[f32]> for Frame<'a> | fn as_ref
//@props C11 C08
//@emit impl<'a> Frame<'a>
fn as_ref(&self) -> ⟦~ &[f32] ~> (r: &[f32]) ensures r@ == self.0@ ⟧ { self.0 }
//@item src/frame_iter.rs | impl<'a> Borrow<[f32]> for Frame<'a> | fn borrow
//@props C11
//@emit impl<'a> Frame<'a>
fn borrow(&self) -> ⟦~ &[f32] ~> (r: &[f32]) ensures r@ == self.0@ ⟧ { &*self.0 }
//@item src/frame_iter.rs | impl<'a, I: FrameIndex> Index<I> for Frame<'a> | fn index
//@props C11
//@emit impl<'a> Frame<'a>
fn index⟦ <I: FrameIndex> ⟧(&self, index: I) -> ⟦~ &Self::Output ~> (r: &Output<I>)
    requires index.slice_index().in_bounds(self.0),
    ensures index.slice_index().index_postcondition(self.0, r) ⟧ {
    self.0.index(index.to_slice_index())
}
//@raw
impl<'a> FrameMut<'a> {
    spec fn sl(&self) -> &[f32] { &*self.0 }
    spec fn v(&self) -> Seq<f32> { self.0@ }
}
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn len
//@props C11
//@emit impl<'a> FrameMut<'a>
fn len(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.v().len() ⟧ { self.0.len() }
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn is_empty
//@props C11
//@emit impl<'a> FrameMut<'a>
fn is_empty(&self) -> ⟦~ bool ~> (r: bool) ensures r == (self.v().len() == 0) ⟧ { self.0.is_empty() }
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn as_slice
//@props C11
//@emit impl<'a> FrameMut<'a>
fn as_slice(&self) -> ⟦~ &[f32] ~> (r: &[f32]) ensures r@ == self.v() ⟧ { &*self.0 }
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn as_mut_slice
//@props C11
//@emit impl<'a> FrameMut<'a>
fn as_mut_slice(&mut self) -> ⟦~ &mut [f32] ~> (r: &mut [f32])
    ensures r@ == old(self).0@, final(self).0@ == final(r)@ ⟧ { self.0 }
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn get
//@props C11
//@emit impl<'a> FrameMut<'a>
fn get<I: FrameIndex>(&self, index: I) -> ⟦~ Option<&Output<I>> ~> (r: Option<&Output<I>>)
    ensures r is Some <==> index.slice_index().in_bounds(self.sl()), r is Some ==> index.slice_index().index_postcondition(self.sl(), r->0) ⟧ {
    self.0.get(index.to_slice_index())
}
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn get_mut
//@props C11
//@emit impl<'a> FrameMut<'a>
fn get_mut<I: FrameIndex>(&'a mut self, index: I) -> ⟦~ Option<&mut Output<I>> ~> (r: Option<&mut Output<I>>)
    ensures
        r is Some <==> index.slice_index().in_bounds(&*old(self).0),
        r is Some ==> index.slice_index().index_mut_postcondition(&*old(self).0, &*final(self).0, &*r->0, &*final(r->0)),
        r is None ==> final(self).0@ == old(self).0@,
⟧ {
    self.0.get_mut(index.to_slice_index())
}
//@item src/frame_iter.rs | impl<'a> FrameMut<'a> | fn try_set_motion
//@props C11
//@emit impl<'a> FrameMut<'a>
fn try_set_motion<I>(&mut self, index: I, new_motion: f32) -> ⟦~ Result<f32, SetMotionError> ~> (r: Result<f32, SetMotionError>) ⟧
where
    I: FrameIndex<SliceIndex = usize>,
⟦   ensures
        index.slice_index() < old(self).0@.len() ==> r == Ok::<f32, SetMotionError>(old(self).0@[index.slice_index() as int])
            && final(self).0@ == old(self).0@.update(index.slice_index() as int, new_motion),
        index.slice_index() >= old(self).0@.len() ==> r == Err::<f32, SetMotionError>(SetMotionError::BadChannel(index.slice_index()))
            && final(self).0@ == old(self).0@,
⟧ {
    let index = index.to_slice_index();
    let motion = self
        .0
        .get_mut(index)
        .ok_or(SetMotionError::BadChannel(index))?;
    Ok(mem::replace(motion, new_motion))
}
//@item src/frame_iter.rs | impl<'a> Borrow<[f32]> for FrameMut<'a> | fn borrow
//@props C11
//@emit impl<'a> FrameMut<'a>
fn borrow(&self) -> ⟦~ &[f32] ~> (r: &[f32]) ensures r@ == self.v() ⟧ { &*self.0 }
//@item src/frame_iter.rs | impl<'a> BorrowMut<[f32]> for FrameMut<'a> | fn borrow_mut
//@props C11
//@emit impl<'a> FrameMut<'a>
fn borrow_mut(&mut self) -> ⟦~ &mut [f32] ~> (r: &mut [f32])
    ensures r@ == old(self).0@, final(self).0@ == final(r)@ ⟧ { self.0 }
//@item src/frame_iter.rs | impl<'a> AsRef<[f32]> for FrameMut<'a> | fn as_ref
//@props C11 C08
//@emit impl<'a> FrameMut<'a>
fn as_ref(&self) -> ⟦~ &[f32] ~> (r: &[f32]) ensures r@ == self.v() ⟧ { &*self.0 }
//@item src/frame_iter.rs | impl<'a> AsMut<[f32]> for FrameMut<'a> | fn as_mut
//@props C11
//@emit impl<'a> FrameMut<'a>
fn as_mut(&mut self) -> ⟦~ &mut [f32] ~> (r: &mut [f32])
    ensures r@ == old(self).0@, final(self).0@ == final(r)@ ⟧ { self.0 }
//@item src/frame_iter.rs | impl<'a, I: FrameIndex> Index<I> for FrameMut<'a> | fn index
//@props C11
//@emit impl<'a> FrameMut<'a>
fn index⟦ <I: FrameIndex> ⟧(&self, index: I) -> ⟦~ &Self::Output ~> (r: &Output<I>)
    requires index.slice_index().in_bounds(self.sl()),
    ensures index.slice_index().index_postcondition(self.sl(), r) ⟧ {
    self.0.index(index.to_slice_index())
}
//@item src/frame_iter.rs | impl<'a, I: FrameIndex> IndexMut<I> for FrameMut<'a> | fn index_mut
//@props C11
//@emit impl<'a> FrameMut<'a>
fn index_mut⟦ <I: FrameIndex> ⟧(&mut self, index: I) -> ⟦~ &mut Self::Output ~> (r: &mut Output<I>)
    requires index.slice_index().in_bounds(&*old(self).0),
    ensures index.slice_index().index_mut_postcondition(&*old(self).0, &*final(self).0, &*r, &*final(r)) ⟧ {
    self.0.index_mut(index.to_slice_index())
}
//@item src/frame_iter.rs | impl<'a> From<&'a FrameMut<'a>> for Frame<'a> | fn from
//@props C11
//@name From<&FrameMut> for Frame :: from
//@emit impl<'a> Frame<'a>
⟦~ fn from ~> fn from_ref ⟧(frame_mut: &'a FrameMut<'a>) -> ⟦~ Self ~> (r: Self) ensures r.0@ == frame_mut.v() ⟧ {
    Frame(&*frame_mut.0)
}
//@item src/frame_iter.rs | impl<'a> From<FrameMut<'a>> for Frame<'a> | fn from
//@props C11
//@name From<FrameMut> for Frame :: from
//@emit impl<'a> Frame<'a>
⟦~ fn from ~> fn from_mut ⟧(frame_mut: FrameMut<'a>) -> ⟦~ Self ~> (r: Self) ensures r.0@ == frame_mut.v() ⟧ {
    Frame(&*frame_mut.0)
}
//@raw
// ---------------------------------------------------------------- C11 as clients of the contracts above
fn c11_get_channel<'b>(f: &'b Frame, c: Channel) -> (r: Option<&'b f32>)
    ensures c.motion_index < f.0@.len() ==> r is Some && *r->0 == f.0@[c.motion_index as int], c.motion_index >= f.0@.len() ==> r is None
{ f.get(c) }
fn c11_get_channel_ref<'b>(f: &'b Frame, c: &Channel) -> (r: Option<&'b f32>)
    ensures c.motion_index < f.0@.len() ==> r is Some && *r->0 == f.0@[c.motion_index as int], c.motion_index >= f.0@.len() ==> r is None
{ f.get(c) }
fn c11_get_index<'b>(f: &'b Frame, i: usize) -> (r: Option<&'b f32>)
    ensures i < f.0@.len() ==> r is Some && *r->0 == f.0@[i as int], i >= f.0@.len() ==> r is None
{ f.get(i) }
fn c11_get_range<'b>(f: &'b Frame, a: usize, b: usize) -> (r: Option<&'b [f32]>)
    ensures a <= b <= f.0@.len() ==> r is Some && r->0@ == f.0@.subrange(a as int, b as int), !(a <= b <= f.0@.len()) ==> r is None
{ f.get(a..b) }
fn c11_index_channel<'b>(f: &'b Frame, c: &Channel) -> (r: &'b f32)
    requires c.motion_index < f.0@.len(),
    ensures *r == f.0@[c.motion_index as int]
{ f.index(c) }
fn c11_mut_get_channel<'b>(f: &'b FrameMut, c: Channel) -> (r: Option<&'b f32>)
    ensures c.motion_index < f.v().len() ==> r is Some && *r->0 == f.v()[c.motion_index as int], c.motion_index >= f.v().len() ==> r is None
{ f.get(c) }
fn c11_mut_index_set(f: &mut FrameMut, c: &Channel, x: f32)
    requires c.motion_index < old(f).0@.len(),
    ensures final(f).0@ =~= old(f).0@.update(c.motion_index as int, x)
{ *f.index_mut(c) = x; }
fn c11_get_mut_set<'a>(f: &'a mut FrameMut<'a>, c: &Channel, x: f32)
    ensures
        c.motion_index < old(f).0@.len() ==> final(f).0@ =~= old(f).0@.update(c.motion_index as int, x),
        c.motion_index >= old(f).0@.len() ==> final(f).0@ == old(f).0@,
{ if let Some(p) = f.get_mut(c) { *p = x; } }
fn c11_set_motion(f: &mut FrameMut, c: &Channel, x: f32) -> (r: Result<f32, SetMotionError>)
    ensures
        c.motion_index < old(f).0@.len() ==> r is Ok && r->Ok_0 == old(f).0@[c.motion_index as int] && final(f).0@ == old(f).0@.update(c.motion_index as int, x),
        c.motion_index >= old(f).0@.len() ==> r is Err && final(f).0@ == old(f).0@,
{ f.try_set_motion(c, x) }
