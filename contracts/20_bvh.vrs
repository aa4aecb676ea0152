//@raw
// ================================================================ src/lib.rs: Bvh
impl Bvh {
    spec fn frame_seq(&self) -> Seq<Seq<f32>> { rows(self.motion_values@, self.num_channels as nat) }
}
//@item src/lib.rs | impl Bvh | fn frames
//@props C07 C08 C09 C10
//@emit impl Bvh
fn frames(&self) -> ⟦~ Frames<'_> ~> (r: Frames<'_>) ensures r.rem() == self.frame_seq() ⟧ {
    Frames {
        chunks: NonZeroUsize::new(self.num_channels).map(⟦~ |_| ~> |_nz: NonZeroUsize| -> (c: ChunksExact<'_, f32>)
            requires self.num_channels > 0,
            ensures c.rem() == self.frame_seq() ⟧ {
            self.motion_values
                .as_slice()
                .⟦~ chunks_exact ~> vx_chunks_exact ⟧(self.num_channels)
        }),
    }
}
//@item src/lib.rs | impl Bvh | fn frames_mut
//@props C07 C10
//@emit impl Bvh
fn frames_mut(&mut self) -> ⟦~ FramesMut<'_> ~> (r: FramesMut<'_>)
    ensures
        r.wf(), r.width() == old(self).num_channels, r.fin().len() == r.cur().len(),
        r.cur() =~= old(self).motion_values@.take(num_rows(old(self).motion_values@, old(self).num_channels as nat) * old(self).num_channels),
        final(self).motion_values@ =~= r.fin() + old(self).motion_values@.skip(num_rows(old(self).motion_values@, old(self).num_channels as nat) * old(self).num_channels),
        final(self).num_channels == old(self).num_channels, final(self).joints == old(self).joints, final(self).frame_time == old(self).frame_time,
⟧ {
    FramesMut {
        chunks: ⟦ match ⟧ NonZeroUsize::new(self.num_channels)⟦~ .map(move |_| ~> { Some(_nz) => Some( ⟧ {
            self.motion_values
                .as_mut_slice()
                .⟦~ chunks_exact_mut ~> vx_chunks_exact_mut ⟧(self.num_channels)
        }⟦~ ) ~> ), None => None } ⟧,
    }
}
//@item src/lib.rs | impl Bvh | fn extract_frames
//@props C07
//@emit impl Bvh
fn extract_frames(&mut self) -> ⟦~ Vec<f32> ~> (r: Vec<f32>)
    ensures r@ == old(self).motion_values@, final(self).motion_values@.len() == 0,
        final(self).num_channels == old(self).num_channels, final(self).joints == old(self).joints, final(self).frame_time == old(self).frame_time,
⟧ {
    mem::take(&mut self.motion_values)
}
//@item src/lib.rs | impl Bvh | fn num_frames
//@props C07
//@emit impl Bvh
fn num_frames(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.frame_seq().len() ⟧ {
    self.frames().len()
}
//@item src/lib.rs | impl Bvh | fn num_channels
//@props C04 C07
//@emit impl Bvh
fn num_channels(&self) -> ⟦~ usize ~> (r: usize) ensures r == self.num_channels ⟧ {
    self.num_channels
}
//@item src/lib.rs | impl Bvh | fn frame_time
//@props C05
//@emit impl Bvh
fn frame_time(&self) -> ⟦~ &Duration ~> (r: &Duration) ensures *r == self.frame_time ⟧ {
    &self.frame_time
}
//@item src/lib.rs | impl Bvh | fn set_frame_time
//@props C05
//@emit impl Bvh
fn set_frame_time(&mut self, new_frame_time: Duration)
⟦   ensures *final(self) == (Bvh { frame_time: new_frame_time, ..*old(self) }), ⟧
{
    self.frame_time = new_frame_time;
}
//@item src/lib.rs | impl Bvh | fn frame_cursor
//@props C08 C09 C10
//@emit impl Bvh
fn frame_cursor(&mut self) -> ⟦~ FrameCursor<'_> ~> (r: FrameCursor<'_>) ensures *r.bvh == *old(self), *final(r.bvh) == *final(self), r.index == 0 ⟧ {
    ⟦~ From::from(self) ~> FrameCursor::from_bvh(self) ⟧
}
