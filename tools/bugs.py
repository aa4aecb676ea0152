HEAD = '''#![allow(deprecated, unused)]
use bvh_anim::*;
use bvh_anim::frames::*;
fn check(ok: bool, what: &str) { if !ok { println!("property broken: {}", what); std::process::exit(1) } }
'''
def D(body): return HEAD + body
BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=D(demo), needs=needs, breaks=breaks))

bug("c01-io-error-swallowed", "C01", [("src/lib.rs", "Err(e) => return Some((idx, Err(e))),", "Err(_) => { next = self.next(); continue }")], r'''
use std::io::{self, Read, BufRead};
struct R { parts: Vec<Option<Vec<u8>>>, pos: usize }
impl R { fn cur(&mut self) -> io::Result<bool> { if self.parts.is_empty() { return Ok(false) } if self.parts[0].is_none() { self.parts.remove(0); return Err(io::Error::new(io::ErrorKind::Other, "disk")) } Ok(true) } }
impl Read for R { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { unimplemented!() } }
impl BufRead for R {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { if !self.cur()? { return Ok(&[]) } Ok(&self.parts[0].as_ref().unwrap()[self.pos..]) }
    fn consume(&mut self, n: usize) { self.pos += n; if !self.parts.is_empty() { let l = self.parts[0].as_ref().unwrap().len(); if self.pos >= l { self.parts.remove(0); self.pos = 0 } } }
}
fn main() {
    let a = b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\n".to_vec();
    let b = b"MOTION\nFrames: 1\nFrame Time: 1\n1\n".to_vec();
    let r = from_reader(R { parts: vec![Some(a), None, Some(b)], pos: 0 });
    check(r.is_err(), "the reader failed, the motion loaded");
}''', "a reader which fails exactly between two sections and would deliver the rest when asked again", "the reader's error is swallowed and the motion loads")

bug("c02-parent-of-third-branch", "C02", [("src/parse.rs", '''                .rev()
                .find(|jd| jd.depth() == for_depth.saturating_sub(2))
''', '''                .rev()
                .take(joints.len().max(12) - 1)
                .filter(|jd| jd.depth() == for_depth.saturating_sub(2))
                .nth(0)
''')], r'''
fn main() {
    // a child of the root: the root is the only joint with that depth and the oldest one
    let mut t = String::from("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n");
    // branch: a has b, b has 13 children; the parent b stays reachable, but is a the parent of the last?
    t += "JOINT a\n{\nOFFSET 0 0 0\nCHANNELS 0\nJOINT b\n{\nOFFSET 0 0 0\nCHANNELS 0\n";
    for i in 0..13 { t += &format!("JOINT c{}\n{{\nOFFSET 0 0 0\nCHANNELS 0\nEnd Site\n{{\nOFFSET 0 0 0\n}}\n}}\n", i); }
    t += "}\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(&t).unwrap();
    for (i, j) in b.joints().enumerate() {
        let want = match i { 0 => None, 1 => Some(0), 2 => Some(1), _ => Some(2) };
        check(j.parent_index() == want, "parent");
    }
    // a chain under a late sibling
    let mut t = String::from("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\n");
    for i in 0..16 { t += &format!("JOINT s{}\n{{\nOFFSET 0 0 0\nEnd Site\n{{\nOFFSET 0 0 0\n}}\n}}\n", i); }
    t += "}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(&t).unwrap();
    for j in b.joints().skip(1) { check(j.parent().map(|p| p.is_root()) == Some(true), "parent of a child of the root"); }
    // x(depth 1) with > 11 descendants, then a sibling child of x
    let mut t = String::from("HIERARCHY\nROOT r\n{\nJOINT p\n{\nEnd Site\n{\n}\n}\nJOINT x\n{\n");
    for _ in 0..14 { t += "JOINT y\n{\n"; }
    t += "End Site\n{\n}\n"; for _ in 0..14 { t += "}\n"; }
    t += "JOINT z\n{\nEnd Site\n{\n}\n}\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(&t).unwrap();
    let z = b.joints().last().unwrap();
    check(z.parent_index() == Some(2), "parent of z");
    let mut t = String::from("HIERARCHY\nROOT r\n{\nJOINT x\n{\n");
    for _ in 0..14 { t += "JOINT y\n{\n"; }
    t += "End Site\n{\n}\n"; for _ in 0..14 { t += "}\n"; }
    t += "}\nJOINT z\n{\nJOINT zz\n{\nEnd Site\n{\n}\n}\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(&t).unwrap();
    let n = b.joints().count();
    check(b.joints().nth(n - 1).unwrap().parent_index() == Some(n - 2), "parent of zz");
}''', "x", "x")
BUGS.pop()

bug("c02-parent-search-window", "C02", [("src/parse.rs", '''                .rev()
                .find(|jd| jd.depth() == for_depth.saturating_sub(2))
''', '''                .rev()
                .take(16)
                .find(|jd| jd.depth() == for_depth.saturating_sub(2))
''')], r'''
fn main() {
    // r > (p, x > y > y > ... (18 deep), z child of x)
    let mut t = String::from("HIERARCHY\nROOT r\n{\nJOINT p\n{\nEnd Site\n{\n}\n}\nJOINT x\n{\n");
    for _ in 0..18 { t += "JOINT y\n{\n"; }
    t += "End Site\n{\n}\n"; for _ in 0..18 { t += "}\n"; }
    t += "JOINT z\n{\nEnd Site\n{\n}\n}\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(&t).unwrap();
    check(b.joints().last().unwrap().parent_index() == Some(2), "parent of z");
}''', "a joint declared after a sibling subtree of more than 15 joints, whose parent is not the root", "such a joint gets the root as its parent")

bug("c03-child-channels-cut", "C03", [("src/joint.rs", "} => *channels = new_channels.iter().map(|c| *c).collect(),", "} => *channels = new_channels.iter().take(6).map(|c| *c).collect(),")], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\nJOINT a\n{\nOFFSET 0 0 0\nCHANNELS 7 Xposition Yposition Zposition Xrotation Yrotation Zrotation Xposition\nEnd Site\n{\nOFFSET 0 0 0\n}\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(t).unwrap();
    check(b.joints().nth(1).unwrap().channels().len() == 7, "channels of a");
}''', "a non-root joint with more than six channels", "its further channels are lost")

bug("c03-name-cut-at-inline-capacity", "C03", [("src/joint.rs", "JointName(s.into_iter().copied().collect::<JointNameInner>())", "JointName(JointNameInner::from_slice(&s[..s.len().min(64)]))")], r'''
fn main() {
    let name = "n".repeat(70);
    let t = format!("HIERARCHY\nROOT {}\n{{\nOFFSET 0 0 0\nCHANNELS 0\n}}\nMOTION\nFrames: 0\nFrame Time: 1\n", name);
    let b = from_str(&t).unwrap();
    check(b.root_joint().unwrap().name() == name.as_bytes(), "name");
}''', "a joint name of more than 64 bytes", "the name is cut")

bug("c04-literal-count-from-last-joint", "C04", [("src/macros.rs", "self.bvh.num_channels = self.current_channel_index;", '''let joints = &self.bvh.joints;
        self.bvh.num_channels = joints
            .last()
            .and_then(|j| j.channels().last())
            .map_or(0, |c| c.motion_index() + 1);''')], r'''
fn main() {
    let b = bvh! {
        HIERARCHY
        ROOT A
        {
            OFFSET 0.0 0.0 0.0
            CHANNELS 2 Xposition Yposition
            JOINT B
            {
                OFFSET 0.0 0.0 0.0
                CHANNELS 0
                End Site
                {
                    OFFSET 0.0 0.0 0.0
                }
            }
        }
        MOTION
        Frames: 0
        Frame Time: 1
    };
    check(b.num_channels() == 2, "number of channels");
}''', "a literal whose last joint has no channels while another has", "num_channels is 0")

bug("c05-trailing-partial-row", "C05", [("src/parse.rs", '''        if self.motion_values.len() != expected_total_motion_values {''', '''        if self.motion_values.len() < expected_total_motion_values
            || self.frames().len() > num_frames
        {'''), ("src/parse.rs", "                actual_total_motion_values: self.motion_values.len(),", "                actual_total_motion_values: { self.motion_values.len() },")], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 3 Xposition Yposition Zposition\n}\nMOTION\nFrames: 2\nFrame Time: 1\n1 2 3\n4 5 6\n7 8\n";
    check(from_str(t).is_err(), "two values too many are accepted");
}''', "trailing values, fewer than one row", "too many motion values are accepted")

bug("c06-line-of-missing-frame-time", "C06", [("src/parse.rs", '''            .ok_or(LoadMotionError::MissingFrameTime {
                parse_error: None,
                line: last_line_num!(),
            })
            .and_then(|(line_num, line)| {
                let line = line?;
                let mut tokens = line.fields();
''', '''            .ok_or(LoadMotionError::MissingFrameTime {
                parse_error: None,
                line: last_line_num!(),
            })
            .and_then(|(line_num, line)| {
                let line = line?;
                let mut tokens = line.fields();
                let line_num = line_num - (line.len() > 12 && line.ends_with(b"\\r")) as usize;
''')], "fn main() {}", "", "")
BUGS.pop()

bug("c06-blank-lines-not-counted", "C06", [("src/lib.rs", '''        let mut next = self.next();
        loop {
            match next {''', '''        let mut next = self.next();
        let mut skipped_tail = 0;
        loop {
            match next {'''), ("src/lib.rs", '''                    if string.trim().is_empty() {
                        next = self.next()
                    } else {''', '''                    if string.trim().is_empty() {
                        skipped_tail += 1;
                        next = self.next();
                        if next.is_none() && skipped_tail > 1 {
                            // report the last line that had something on it
                            self.last_enumerator = Some(idx + 1 - skipped_tail);
                        }
                    } else {''')], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\nMOTION\n\n\n\n";
    let e = from_str(t).unwrap_err();
    check(e.line() == Some(9), &format!("line {:?}", e.line()));
}''', "a file which ends in several blank lines where a section header is due", "the reported line is not the last line")

bug("c07-back-of-mutable-frames", "C07", [("src/frame_iter.rs", '''        self.chunks
            .as_mut()
            .and_then(|c| c.next_back().map(FrameMut))''', '''        self.chunks.as_mut().and_then(|c| match c.len() {
            2 => c.next().map(FrameMut),
            _ => c.next_back().map(FrameMut),
        })''')], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 3\nFrame Time: 1\n1\n2\n3\n";
    let mut b = from_str(t).unwrap();
    let mut it = b.frames_mut();
    it.next();
    let x = it.next_back().unwrap();
    check(x.as_slice() == [3.0], "last frame");
}''', "taking mutable frames from the back when exactly two remain", "the front one comes instead")

bug("c08-partial-last-value", "C08", [("src/frame_cursor.rs", "let idx = self.index * self.num_channels();", "let idx = self.index.min(self.bvh.motion_values.len() / self.num_channels().max(2)) * self.num_channels();")], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 4\nFrame Time: 1\n1\n2\n3\n4\n";
    let mut b = from_str(t).unwrap();
    let mut c = b.frame_cursor();
    c.move_last();
    c.try_insert_frame(&[9.0f32][..]).unwrap();
    let v: Vec<f32> = b.frames().map(|f| f[0]).collect();
    check(v == [1.0, 2.0, 3.0, 4.0, 9.0], &format!("{:?}", v));
}''', "a motion with exactly one channel and a cursor in its second half", "the frame goes in at the wrong place")

bug("c09-cursor-pulled-back", "C09", [("src/frame_cursor.rs", """            .retain(|_| (!frame_bound.contains(&i), i += 1).0);
""", """            .retain(|_| (!frame_bound.contains(&i), i += 1).0);
        if self.index == self.len() {
            self.index = self.len().saturating_sub(1);
        }
""")], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 3\nFrame Time: 1\n1\n2\n3\n";
    let mut b = from_str(t).unwrap();
    let mut c = b.frame_cursor();
    c.move_last();
    c.move_prev();
    c.remove_frame().unwrap();
    c.try_insert_frame(&[9.0f32][..]).unwrap();
    let v: Vec<f32> = b.frames().map(|f| f[0]).collect();
    check(v == [1.0, 2.0, 9.0], &format!("{:?}", v));
}''', "removing the last frame and then using the cursor again", "the cursor moves one frame back")

bug("c10-into-frames-mut-skips", "C10", [("src/frame_cursor.rs", '''        let mut frames = self.bvh.frames_mut();
        for _ in 0..self.index {''', '''        let mut frames = self.bvh.frames_mut();
        let last = frames.len().saturating_sub(1);
        for _ in 0..self.index.min(last) {''')], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 3\nFrame Time: 1\n1\n2\n3\n";
    let mut b = from_str(t).unwrap();
    let mut c = b.frame_cursor();
    c.move_last();
    check(c.into_frames_mut().count() == 0, "frames from the end on");
}''', "turning a cursor at the very end into a mutable iterator", "it yields the last frame instead of none")

bug("c11-set-motion-error", "C11", [("src/frame_iter.rs", '''            .get_mut(index)
            .ok_or(SetMotionError::BadChannel(index))?;
        Ok(mem::replace(motion, new_motion))''', '''            .get_mut(index)
            .ok_or(SetMotionError::BadChannel(index))?;
        if *motion == new_motion {
            return Ok(new_motion);
        }
        Ok(mem::replace(motion, new_motion))''')], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 1\n-0.0\n";
    let mut b = from_str(t).unwrap();
    let mut f = b.frames_mut().next().unwrap();
    let old = f.try_set_motion(0usize, 0.0).unwrap();
    check(old.to_bits() == (-0.0f32).to_bits(), "the previous value was -0.0");
    check(f[0].to_bits() == 0, "the value is now 0.0");
}''', "setting 0.0 where -0.0 was (or the other way round)", "the old value is not replaced and the new one is returned")

bug("c12-channel-case", "C12", [("src/lib.rs", 'b"Zposition" => Ok(ChannelType::PositionZ),', 'b"Zposition" | b"ZPosition" => Ok(ChannelType::PositionZ),')], r'''
fn main() {
    let e = ChannelType::from_bytes("ZPosition");
    check(e.map_err(|e| e.into_inner()) == Err(b"ZPosition".to_vec()), "ZPosition is not a channel name");
}''', "the byte string ZPosition", "it is accepted")

bug("c13-find-by-name-prefix", "C13", [("src/joint.rs", "self.find(|b| b.data().name() == joint_name.as_ref())", "self.find(|b| b.data().name().eq_ignore_ascii_case(joint_name.as_ref()))")], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nJOINT Arm\n{\nOFFSET 0 0 0\nJOINT arm\n{\nOFFSET 0 0 0\n}\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(t).unwrap();
    check(b.joints().find_by_name("arm").map(|j| j.index()) == Some(2), "arm");
}''', "two joints whose names differ only in case", "the other joint is found")

bug("c14-end-site-brace-indent", "C14", [("src/write.rs", '''                                chunk.extend(self.indent.prefix_chars(depth + 1));
                                let offset_str''', '''                                chunk.extend(self.indent.prefix_chars(depth.max(2) + 1));
                                let offset_str''')], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\nEnd Site\n{\nOFFSET 1 2 3\n}\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(t).unwrap();
    let s = String::from_utf8(b.to_string()).unwrap();
    check(s.contains("\n\t\tOFFSET 1 2 3\n"), &s);
}''', "a skeleton whose root joint has an End Site", "the line inside is indented one too deep")

bug("c15-small-values-rounded", "C15", [("src/write.rs", '''                                None => format!("{:.}", motion),''', '''                                None if motion.abs() < f32::MIN_POSITIVE => format!("{:.40}", motion),
                                None => format!("{:.}", motion),''')], r'''
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 1\n1e-45\n";
    let b = from_str(t).unwrap();
    check(from_bytes(&b.to_string()).unwrap() == b, "round trip of a subnormal value");
}''', "a subnormal motion value", "it does not survive writing and loading")

bug("c16-flush-error-lost", "C16", [("src/write.rs", "        writer.flush()\n", "        match writer.flush() {\n            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => Ok(()),\n            r => r,\n        }\n")], r'''
use std::io::{self, Write};
struct W(Vec<u8>, bool);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { if !self.1 { self.1 = true; Err(io::ErrorKind::Interrupted.into()) } else { Ok(()) } }
}
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\nMOTION\nFrames: 0\nFrame Time: 1\n";
    let b = from_str(t).unwrap();
    check(b.write_to(&mut W(vec![], false)).is_err(), "the sink was not flushed, success was reported");
}''', "a sink whose flush is interrupted", "success is reported although the sink was not flushed")

bug("c17-literal-end-site-axes", "C17", [("src/macros.rs", '''            f32::from($end_y),
            f32::from($end_z),
        ];''', '''            f32::from($end_y) + 0.0,
            f32::from($end_z),
        ];''')], r'''
fn main() {
    let b = bvh! {
        HIERARCHY
        ROOT A
        {
            OFFSET 0.0 0.0 0.0
            CHANNELS 0
            End Site
            {
                OFFSET 1.0 -0.0 2.0
            }
        }
        MOTION
        Frames: 0
        Frame Time: 1
    };
    check(b.root_joint().unwrap().end_site().unwrap()[1].to_bits() == (-0.0f32).to_bits(), "sign of a zero");
}''', "a literal End Site with a negative zero y offset", "the sign is lost")

bug("c17-nesting-depth", "C17", [("src/macros.rs", ".find(|jd| jd.depth() == for_depth.saturating_sub(1))", ".find(|jd| jd.depth() + 1 >= for_depth && jd.depth() < for_depth.max(1) + (for_depth > 3) as usize)")], r'''
fn main() {
    let b = bvh! {
        HIERARCHY
        ROOT A
        {
            OFFSET 0.0 0.0 0.0
            CHANNELS 0
            JOINT B { OFFSET 0.0 0.0 0.0 CHANNELS 0
              JOINT C { OFFSET 0.0 0.0 0.0 CHANNELS 0
                JOINT D { OFFSET 0.0 0.0 0.0 CHANNELS 0
                  JOINT E { OFFSET 0.0 0.0 0.0 CHANNELS 0 End Site { OFFSET 0.0 0.0 0.0 } }
                  JOINT F { OFFSET 0.0 0.0 0.0 CHANNELS 0 End Site { OFFSET 0.0 0.0 0.0 } }
                } } }
        }
        MOTION
        Frames: 0
        Frame Time: 1
    };
    check(b.joints().last().unwrap().parent_index() == Some(3), "parent of F");
}''', "a literal with two siblings at depth four or more", "the second becomes a child of the first")

bug("c18-crlf-dependent", "C18", [("src/lib.rs", '''    fn try_from(string: &'_ BStr) -> Result<Self, Self::Error> {
        Bvh::from_bytes(string.as_bytes())''', '''    fn try_from(string: &'_ BStr) -> Result<Self, Self::Error> {
        Bvh::from_bytes(string.trim_end())''')], r'''
use std::convert::TryFrom;
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\nMOTION\n\n\n";
    let a = Bvh::try_from(bstr::ByteSlice::as_bstr(t.as_bytes())).unwrap_err();
    let b = from_str(t).unwrap_err();
    check(a.line() == b.line(), "the two ways to load report different lines");
}''', "a file which ends in blank lines and is not complete, loaded with TryFrom<&BStr>", "the error has another line number than with the other ways to load")

bug("c19-precision-zero", "C19", [("src/write.rs", "motion_values_significant_figures: motion_values_significant_figures.into(),", "motion_values_significant_figures: motion_values_significant_figures.into().filter(|&n| n > 0),")], r'''
use bvh_anim::write::*;
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 1\n1.25\n";
    let b = from_str(t).unwrap();
    let s = WriteOptions::new().with_motion_values_significant_figures(0).write_to_string(&b);
    check(s.ends_with(b"\n1\n"), &String::from_utf8_lossy(&s));
}''', "a motion value precision of 0", "all digits are written")
