From 8ac2922514cc80d5038a49a6b226aba99cbfa230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 01/18] fix: insert frames at any position without scrambling
 the frames after it

vec_insert_slice swapped every moved element with the one old_len places
further on, which is only its new position when the slice is as long as
the vec it is inserted into.
---
 src/frame_cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..3e07a77 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -567,8 +567,8 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
     vec.resize_with(new_len, T::default);
 
     // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
-        vec.swap(to_move, end_index);
+    for to_move in (index..old_len).rev() {
+        vec.swap(to_move, to_move + slice.len());
     }
 
     // Clone the slice into the new area
-- 
2.43.0


From 4719256b7b3c34721fde4a670175379fb77fd736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 02/18] fix: removing a frame with the cursor past the last
 frame is an error

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 3e07a77..033692f 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From a48cbaef3d641470a1b73b86245e02bf6481955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 03/18] fix: reset the cursor when every frame is removed

The index was left past the end, so that inserting a frame panicked.
---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 033692f..17a78da 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From 5d49404f991244c0f5e96126ab7de6ded32c37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 04/18] fix: do not panic on the size hint of the frames to
 insert

The upper bound of the hint may be as large as usize::MAX, which
overflowed the number of values or the capacity to reserve.
---
 src/frame_cursor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 17a78da..f86eacc 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,12 +317,12 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
+        let (num_frames, _) = frames.size_hint();
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        // The hint is not trustworthy, so it must not make the allocation fail.
+        if let Some(num_values) = num_frames.checked_mul(num_channels) {
+            let _ = self.bvh.motion_values.try_reserve(num_values);
+        }
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From 923f4388ad002104a51d0dcbecfa8f5d2b240733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 05/18] fix: make Joint::children() iterate over the children

It panicked for every joint: on a leaf when looking for the first child,
and otherwise when the first child was requested.
---
 src/joint.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..d0ede4b 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -392,6 +392,7 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
+    /// Index of the joint whose children are iterated, or `None` to iterate all joints.
     pub(crate) from_child: Option<usize>,
 }
 
@@ -421,24 +422,11 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            current_joint: joint.index + 1,
+            from_child: Some(joint.index),
         }
     }
 
@@ -462,6 +450,15 @@ impl<'a> Joints<'a> {
 impl<'a> Iterator for Joints<'a> {
     type Item = Joint<'a>;
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(parent) = self.from_child {
+            // Skip the joints which are not direct children of `parent`.
+            while self.current_joint < self.joints.len()
+                && self.joints[self.current_joint].parent_index() != Some(parent)
+            {
+                self.current_joint += 1;
+            }
+        }
+
         if self.current_joint >= self.joints.len() {
             return None;
         }
@@ -471,11 +468,7 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
-        }
+        self.current_joint += 1;
 
         joint
     }
-- 
2.43.0


From 47bd39c848502990c31a1c867db241956ea8937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:38 +0000
Subject: [PATCH 06/18] fix: make Bvh::joints_mut() yield every joint

The iterator always returned None.
---
 src/joint.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index d0ede4b..157754c 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -8,7 +8,7 @@ use std::{
     ffi::{CStr, CString},
     fmt, mem,
     ops::{Deref, DerefMut},
-    str,
+    slice, str,
 };
 
 /// A 3-element point representing the location of a joint offset or
@@ -497,7 +497,13 @@ impl<'a> Iterator for JointsMut<'a> {
     type Item = JointMut<'a>;
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        None
+        let (joint, rest) = mem::take(&mut self.joints).split_first_mut()?;
+        self.joints = rest;
+        self.current_joint += 1;
+        Some(JointMut {
+            index: 0,
+            joints: slice::from_mut(joint),
+        })
     }
 }
 
@@ -805,7 +811,7 @@ impl fmt::Debug for Joint<'_> {
 
 /// A view of a joint which provides mutable access.
 pub struct JointMut<'a> {
-    /// Index of the `Joint` in the skeleton.
+    /// Index of the `Joint` in `joints`.
     pub(crate) index: usize,
     /// `Joints` array which the joint is part of.
     pub(crate) joints: &'a mut [JointData],
-- 
2.43.0


From c0fefd435f6abf3fc461409b34c35e7ae22cfa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:38 +0000
Subject: [PATCH 07/18] fix: keep the end site of a root joint apart from its
 offset

The offset of an End Site directly in the root overwrote the offset of
the root itself, and the end site was lost.
---
 src/joint.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 157754c..84986ae 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// The end site offset, if the root has no child joints.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -81,8 +83,11 @@ impl JointData {
             JointData::Child {
                 ref end_site_offset,
                 ..
+            }
+            | JointData::Root {
+                ref end_site_offset,
+                ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From f0e34feb752bc269e370277955cc98d241a11ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 08/18] fix: close the braces of every joint when writing

Only a joint with an End Site was closed, so that the text of a leaf
joint without one was unbalanced, and the depth underflowed if a joint
with an End Site also had a child joint.
---
 src/write.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..1964209 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -267,28 +267,27 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            // Close the joints which do not contain the next joint.
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    (curr_depth, prev_joint.data().depth().checked_sub(curr_depth))
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference = depth_difference.and_then(|d| d.checked_sub(1));
                             }
+
                             *wrote_name = false;
                             *wrote_offset = false;
                             *wrote_channels = false;
-- 
2.43.0


From 086757fd1c6e04d86efdbed537f69c2d57c7c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 09/18] fix: write the whole file to writers which accept it in
 parts

A short or interrupted write is no failure of the writer, but was
reported as one (or, if interrupted, lost the rest of the file).
---
 src/write.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 1964209..2591dfc 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,11 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
             let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(bytes)?;
         }
         writer.flush()
     }
-- 
2.43.0


From 8855007ec7648503939cc48775cbc7fdc3d0863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 10/18] fix: support 4, 5 and 7 channels in the bvh! macro

These arms did not expand to valid paths, or missed the OFFSET.
---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0


From 36afde24119170abf2ea052ca9b5bf60d031b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 11/18] fix: return an error instead of panicking on a
 malformed hierarchy

Keywords and braces in the wrong place either panicked, underflowed the
depth, or were accepted, so that joints were nested in the wrong joint.
Missing joint names are reported with the error made for them.
---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 29 +++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..eb357ff 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -101,6 +101,11 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A keyword or a brace was encountered in the wrong location.
+    UnexpectedKeyword {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A `CHANNELS` section was encountered in the wrong location.
     UnexpectedChannelsSection {
         /// Line number in the source bvh where the error occurred.
@@ -150,6 +155,7 @@ impl LoadJointsError {
     pub fn line(&self) -> Option<usize> {
         match *self {
             LoadJointsError::MissingJointName { line }
+            | LoadJointsError::UnexpectedKeyword { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -177,6 +183,9 @@ impl fmt::Display for LoadJointsError {
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
+            LoadJointsError::UnexpectedKeyword { line } => {
+                write!(f, "{}: unexpectedly encountered a keyword", line)
+            }
             LoadJointsError::UnexpectedChannelsSection { line } => write!(
                 f,
                 "{}: unexpectedly encountered a \"CHANNELS\" section",
diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..8768ff0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -298,7 +297,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -307,19 +306,27 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if let Some(name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
                     curr_depth += 1;
+                    next_expected_line = NextExpectedLine::ClosingBrace;
                 }
                 CLOSE_BRACE => {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -344,15 +351,20 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
+                    if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
+
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                    if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -376,8 +388,9 @@ impl Bvh {
                     if let Some(mut name) = tokens.next() {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
                     if curr_mode != ParseMode::InHeirarchy {
-- 
2.43.0


From 966ca12aa98fe898de5fabc285042383a75860c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 12/18] fix: load leaf joints without an End Site

They were dropped, or became the parent of the joint which follows.
---
 src/parse.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8768ff0..6e4d33a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -333,14 +333,22 @@ impl Bvh {
                         curr_mode = ParseMode::Finished;
                     }
 
-                    if in_end_site {
+                    // The closed joint is either the one which contains the end site,
+                    // or a leaf without an end site.
+                    if in_end_site || !pushed_end_site_joint {
+                        let joint_depth = if in_end_site {
+                            curr_depth - 1
+                        } else {
+                            curr_depth
+                        };
+
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
                         {
                             private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
+                            private.parent_index = get_parent_index(&joints, joint_depth + 1);
+                            private.depth = joint_depth;
                         }
 
                         let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
-- 
2.43.0


From 8f93b3b06f2e7c3c7ae7dfa1a2438db7d609d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 13/18] fix: reject OFFSET, CHANNELS and End Site sections out
 of place

After the children or the End Site of a joint they were applied to the
joint which follows, or made up a joint without a name. A second CHANNELS
section left channel numbers which belong to no joint.
---
 src/parse.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6e4d33a..92a5d47 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -359,7 +359,10 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
-                    if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || in_end_site
+                        || pushed_end_site_joint
+                    {
                         return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
@@ -401,7 +404,7 @@ impl Bvh {
                     next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if curr_mode != ParseMode::InHeirarchy || pushed_end_site_joint {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -432,7 +435,11 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if curr_mode != ParseMode::InHeirarchy
+                        || in_end_site
+                        || pushed_end_site_joint
+                        || !curr_joint.channels().is_empty()
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-- 
2.43.0


From bfa041a4904f9a59c6ef052fc19037d592154c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:25 +0000
Subject: [PATCH 14/18] fix: do not reserve the number of channels which a file
 claims

An absurd number made the allocation panic or abort the process.
---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92a5d47..09260e8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -458,7 +458,8 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
+                    // There are no more channels than there are bytes in the line.
+                    channels.reserve(num_channels.min(line.len()));
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
-- 
2.43.0


From a61effbcc512105ca9bb666817270933d64864af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:25 +0000
Subject: [PATCH 15/18] fix: do not trim joint names

Lines were trimmed of unicode whitespace, but are split at ascii
whitespace, so that a name lost such characters only at its end.
---
 src/parse.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 09260e8..7f25715 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -285,7 +285,6 @@ impl Bvh {
 
         for (line_num, line) in lines {
             let line = line?;
-            let line = line.trim();
 
             let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
 
-- 
2.43.0


From b81b3f87c37292a77eaad694c219f36a7dbc5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:26 +0000
Subject: [PATCH 16/18] fix: report every bad frame time as MissingFrameTime

A time which is negative, not finite or too large panicked, and a missing
one was reported as a missing number of frames.
---
 src/parse.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7f25715..a709dee 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -603,7 +603,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
@@ -615,7 +620,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From 5a65b97105722822b29be5f22c80376b68fdb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:26 +0000
Subject: [PATCH 17/18] fix: do not panic on the number of frames which a file
 claims

The number of values overflowed, or made the allocation panic or abort
the process.
---
 src/parse.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a709dee..e07c60e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -627,9 +627,8 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
-
-        self.motion_values.reserve(expected_total_motion_values);
+        // A file cannot hold more than `usize::MAX` values.
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
         for (line_num, line) in lines {
             let line = line?;
@@ -645,7 +644,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From 814bf10fbbbdd3a1d24be9d3428484787b79730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 18/18] fix: refuse OFFSET and CHANNELS lines outside of a
 joint's braces

---
 src/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e07c60e..46ed6c8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -403,7 +403,9 @@ impl Bvh {
                     next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy || pushed_end_site_joint {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || pushed_end_site_joint
+                    {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -434,7 +436,7 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy
+                    if next_expected_line != NextExpectedLine::ClosingBrace
                         || in_end_site
                         || pushed_end_site_joint
                         || !curr_joint.channels().is_empty()
-- 
2.43.0

