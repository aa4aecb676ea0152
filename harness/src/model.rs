//! An independent model of a motion, its rendering as text, and the comparison with a loaded `Bvh`.
use crate::util::*;
use bvh_anim::{Bvh, ChannelType};
use std::time::Duration;

pub const TYPES: [(&str, ChannelType); 6] = [
    ("Xposition", ChannelType::PositionX),
    ("Yposition", ChannelType::PositionY),
    ("Zposition", ChannelType::PositionZ),
    ("Xrotation", ChannelType::RotationX),
    ("Yrotation", ChannelType::RotationY),
    ("Zrotation", ChannelType::RotationZ),
];

/// A number as it stands in the file.
#[derive(Clone, Debug)]
pub struct Num(pub String);
impl Num {
    pub fn f(&self) -> f32 { self.0.parse::<f32>().unwrap() }
}

#[derive(Clone, Debug)]
pub struct MJoint {
    pub name: Vec<u8>,
    pub offset: [Num; 3],
    pub channels: Vec<usize>, // index into TYPES
    pub end_site: Option<[Num; 3]>,
    pub children: Vec<MJoint>,
}
#[derive(Clone, Debug)]
pub struct Motion {
    pub root: MJoint,
    pub frame_time: Num,
    pub frames: Vec<Vec<Num>>,
}
/// One joint in declaration order.
#[derive(Clone, Debug)]
pub struct Flat {
    pub name: Vec<u8>,
    pub offset: [f32; 3],
    pub channels: Vec<(ChannelType, usize)>,
    pub end_site: Option<[f32; 3]>,
    pub parent: Option<usize>,
    pub depth: usize,
}
#[derive(Clone, Debug)]
pub struct FlatMotion {
    pub joints: Vec<Flat>,
    pub num_channels: usize,
    pub frame_time: Duration,
    pub values: Vec<f32>,
}
impl FlatMotion {
    pub fn num_frames(&self) -> usize { if self.num_channels == 0 { 0 } else { self.values.len() / self.num_channels } }
}

impl Motion {
    pub fn flat_joints(&self) -> Vec<Flat> {
        fn go(j: &MJoint, parent: Option<usize>, depth: usize, ch: &mut usize, out: &mut Vec<Flat>) {
            let me = out.len();
            let channels = j.channels.iter().map(|&t| { *ch += 1; (TYPES[t].1, *ch - 1) }).collect();
            out.push(Flat {
                name: j.name.clone(),
                offset: [j.offset[0].f(), j.offset[1].f(), j.offset[2].f()],
                channels,
                end_site: j.end_site.as_ref().map(|o| [o[0].f(), o[1].f(), o[2].f()]),
                parent,
                depth,
            });
            for c in &j.children { go(c, Some(me), depth + 1, ch, out) }
        }
        let mut out = vec![];
        go(&self.root, None, 0, &mut 0, &mut out);
        out
    }
    pub fn num_channels(&self) -> usize { self.flat_joints().iter().map(|j| j.channels.len()).sum() }
    pub fn flat(&self) -> FlatMotion {
        let joints = self.flat_joints();
        FlatMotion {
            num_channels: joints.iter().map(|j| j.channels.len()).sum(),
            joints,
            frame_time: parse_frame_time(&self.frame_time.0),
            values: self.frames.iter().flatten().map(|n| n.f()).collect(),
        }
    }
}
/// Seconds in decimal -> Duration, to the nearest nanosecond; up to 9 decimals exactly, by integer arithmetic.
pub fn parse_frame_time(s: &str) -> Duration {
    if s.bytes().all(|c| c.is_ascii_digit() || c == b'.') {
        let (i, f) = s.split_once('.').unwrap_or((s, ""));
        if f.len() <= 9 && i.len() <= 6 && !i.is_empty() {
            let ns: u32 = if f.is_empty() { 0 } else { f.parse::<u32>().unwrap() * 10u32.pow(9 - f.len() as u32) };
            return Duration::new(i.parse().unwrap(), ns);
        }
    }
    Duration::try_from_secs_f64(s.parse::<f64>().unwrap()).unwrap()
}

pub fn same_f32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
pub fn same_ofs(a: &[f32; 3], b: &[f32; 3]) -> bool { (0..3).all(|i| same_f32(a[i], b[i])) }

/// The motion as the public interface shows it.
pub fn observe(b: &Bvh) -> FlatMotion {
    let joints: Vec<Flat> = b.joints().map(|j| Flat {
        name: j.name().to_vec(),
        offset: *j.offset(),
        channels: j.channels().iter().map(|c| (c.channel_type(), c.motion_index())).collect(),
        end_site: j.end_site().copied(),
        parent: j.parent_index(),
        depth: 0,
    }).collect();
    let mut b2 = b.clone();
    FlatMotion { joints, num_channels: b.num_channels(), frame_time: *b.frame_time(), values: b2.extract_frames() }
}

#[derive(Clone, Copy, PartialEq)]
pub struct Aspects { pub tree: bool, pub attrs: bool, pub channels: bool, pub motion: bool }
pub const TREE: Aspects = Aspects { tree: true, attrs: false, channels: false, motion: false };
pub const ATTRS: Aspects = Aspects { tree: false, attrs: true, channels: false, motion: false };
pub const CHANNELS: Aspects = Aspects { tree: false, attrs: false, channels: true, motion: false };
pub const MOTION: Aspects = Aspects { tree: false, attrs: false, channels: false, motion: true };
pub const ALL: Aspects = Aspects { tree: true, attrs: true, channels: true, motion: true };

/// Compares the loaded motion with what is expected, in the given aspects.
pub fn compare(b: &Bvh, want: &FlatMotion, a: Aspects) -> Result<(), String> {
    let js: Vec<_> = b.joints().collect();
    if a.tree || a.attrs {
        if js.len() != want.joints.len() {
            return Err(format!("{} joints, expected {}", js.len(), want.joints.len()));
        }
    }
    if a.tree {
        for (i, (j, w)) in js.iter().zip(&want.joints).enumerate() {
            if j.index() != i { return Err(format!("joint {} has index {}", i, j.index())); }
            if j.is_root() != (i == 0) || j.is_child() == j.is_root() { return Err(format!("joint {}: is_root {} is_child {}", i, j.is_root(), j.is_child())); }
            if j.parent_index() != w.parent { return Err(format!("joint {} ({}) has parent {:?}, expected {:?}", i, show(&w.name), j.parent_index(), w.parent)); }
            if let Some(p) = w.parent {
                if p >= i { return Err("model error".into()); }
            }
        }
    }
    if a.attrs {
        for (i, (j, w)) in js.iter().zip(&want.joints).enumerate() {
            if j.name() != &w.name[..] { return Err(format!("joint {} is named {:?}, expected {:?}", i, show(j.name()), show(&w.name))); }
            if !same_ofs(j.offset(), &w.offset) { return Err(format!("joint {} ({}) has offset {:?}, expected {:?}", i, show(&w.name), j.offset(), w.offset)); }
            let got: Vec<_> = j.channels().iter().map(|c| c.channel_type()).collect();
            let exp: Vec<_> = w.channels.iter().map(|c| c.0).collect();
            if got != exp { return Err(format!("joint {} ({}) has channels {:?}, expected {:?}", i, show(&w.name), got, exp)); }
            match (j.end_site(), &w.end_site) {
                (None, None) => {}
                (Some(x), Some(y)) if same_ofs(x, y) => {}
                (x, y) => return Err(format!("joint {} ({}) has end site {:?}, expected {:?}", i, show(&w.name), x, y)),
            }
            if j.has_end_site() != w.end_site.is_some() { return Err(format!("joint {}: has_end_site {}", i, j.has_end_site())); }
        }
    }
    if a.channels { channels_consecutive(b)?; }
    if a.channels && a.attrs && b.num_channels() != want.num_channels {
        return Err(format!("{} channels, expected {}", b.num_channels(), want.num_channels));
    }
    if a.motion {
        if *b.frame_time() != want.frame_time { return Err(format!("frame time {:?}, expected {:?}", b.frame_time(), want.frame_time)); }
        let mut got = vec![];
        let mut n = 0;
        for f in b.frames() { got.extend_from_slice(f.as_slice()); n += 1; }
        if n != want.num_frames() { return Err(format!("{} frames, expected {}", n, want.num_frames())); }
        if got.len() != want.values.len() { return Err(format!("{} values in frames, expected {}", got.len(), want.values.len())); }
        for (i, (x, y)) in got.iter().zip(&want.values).enumerate() {
            if !same_f32(*x, *y) { return Err(format!("value {} is {:?} ({:08x}), expected {:?} ({:08x})", i, x, x.to_bits(), y, y.to_bits())); }
        }
        let mut b2 = b.clone();
        if b2.extract_frames().len() != want.values.len() { return Err("motion values beyond the frames".into()); }
    }
    Ok(())
}
pub fn channels_consecutive(b: &Bvh) -> Result<(), String> {
    let mut n = 0;
    for j in b.joints() {
        for c in j.channels() {
            if c.motion_index() != n { return Err(format!("channel {} of joint {} has motion index {}, expected {}", show(c.channel_type().as_str().as_bytes()), j.index(), c.motion_index(), n)); }
            n += 1;
        }
    }
    if b.num_channels() != n { return Err(format!("num_channels() is {}, the joints have {}", b.num_channels(), n)); }
    Ok(())
}
/// Full equality of two motions through the public interface and `==`.
pub fn same_motion(a: &Bvh, b: &Bvh) -> Result<(), String> {
    let w = observe(b);
    let mut w2 = w.clone();
    for (j, k) in w2.joints.iter_mut().zip(b.joints()) { j.parent = k.parent_index(); }
    compare_obs(&observe(a), &w2)?;
    let nan = |m: &FlatMotion| m.values.iter().any(|v| v.is_nan()) || m.joints.iter().any(|j| j.offset.iter().chain(j.end_site.iter().flatten()).any(|v| v.is_nan()));
    if !nan(&w) && a != b { return Err("the two motions are not equal (==)".into()); }
    Ok(())
}
fn compare_obs(a: &FlatMotion, b: &FlatMotion) -> Result<(), String> {
    if a.joints.len() != b.joints.len() { return Err(format!("{} joints against {}", a.joints.len(), b.joints.len())); }
    for (i, (x, y)) in a.joints.iter().zip(&b.joints).enumerate() {
        if x.name != y.name { return Err(format!("joint {}: name {:?} against {:?}", i, show(&x.name), show(&y.name))); }
        if x.parent != y.parent { return Err(format!("joint {}: parent {:?} against {:?}", i, x.parent, y.parent)); }
        if !same_ofs(&x.offset, &y.offset) { return Err(format!("joint {}: offset {:?} against {:?}", i, x.offset, y.offset)); }
        if x.channels != y.channels { return Err(format!("joint {}: channels {:?} against {:?}", i, x.channels, y.channels)); }
        match (&x.end_site, &y.end_site) { (None, None) => {}, (Some(p), Some(q)) if same_ofs(p, q) => {}, (p, q) => return Err(format!("joint {}: end site {:?} against {:?}", i, p, q)) }
    }
    if a.num_channels != b.num_channels { return Err(format!("{} channels against {}", a.num_channels, b.num_channels)); }
    if a.frame_time != b.frame_time { return Err(format!("frame time {:?} against {:?}", a.frame_time, b.frame_time)); }
    if a.values.len() != b.values.len() { return Err(format!("{} motion values against {}", a.values.len(), b.values.len())); }
    for (i, (x, y)) in a.values.iter().zip(&b.values).enumerate() {
        if !same_f32(*x, *y) { return Err(format!("motion value {}: {:?} against {:?}", i, x, y)); }
    }
    Ok(())
}

// ------------------------------------------------------------------ generation

pub fn gen_num(r: &mut Rng) -> Num {
    let special = ["0", "-0", "0.0", "-0.0", "1", "-1", "3.4028235e38", "-3.4028235e38", "1e-45", "1.1754944e-38", "1.17549429e-38",
        "16777217", "16777219", "0.1", "0.3333333432674408", "1e10", "-1e-10", "123456.789", "9007199254740993", "0.000001", "1.5e+3", "2.5E-3", "00012.500", "5", "1e39", "1e-50",
        "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "7.006492321624085e-46", "8388608.5", "8388609.5", "1.00000005960464477539", "1.00000005960464477540", "100.0"];
    Num(match r.below(8) {
        0 => r.pick(&special).to_string(),
        1 => format!("{}", f32_bits(r)),
        2 => format!("{:e}", f32_bits(r)),
        3 => format!("{}", r.below(1000)),
        4 => format!("-{}.{}", r.below(1000), r.below(100000)),
        5 => format!("{}.{:06}", r.below(360), r.below(1000000)),
        6 => { let n = r.range(1, 30); let mut s = String::new(); for _ in 0..n { s.push((b'0' + r.below(10) as u8) as char) } s.push('.'); for _ in 0..r.range(1, 30) { s.push((b'0' + r.below(10) as u8) as char) } s }
        _ => format!("{}{}.{}", if r.chance(1, 2) { "-" } else { "" }, r.below(100), r.below(100)),
    })
}
/// finite f32 with random bits
pub fn f32_bits(r: &mut Rng) -> f32 {
    loop {
        let f = f32::from_bits(r.next() as u32);
        if f.is_finite() { return f }
    }
}
pub fn gen_name(r: &mut Rng, plain: bool) -> Vec<u8> {
    if plain || r.chance(1, 2) { return format!("J{}", r.below(1000)).into_bytes() }
    let fixed: [&[u8]; 22] = [b"Hips", b"JOINT", b"ROOT", b"End", b"Site", b"{", b"}", b"OFFSET", b"CHANNELS", b"MOTION", b"HIERARCHY", b"\xff\xfe", b"\xc2\x85", b"\xe2\x80\xa8x", b"\x0b", b"a\x0bb", b"\0", b"#!$%&/()", b"1.5", b"\xc3\xa9t\xc3\xa9", b"\xc2\xa0n", b"x"];
    match r.below(4) {
        0 | 1 => r.pick(&fixed).to_vec(),
        2 => { let n = if r.chance(1, 6) { r.range(60, 600) } else { r.range(1, 60) }; (0..n).map(|_| b'a' + r.below(26) as u8).collect() }
        _ => { let n = r.range(1, 40); (0..n).map(|_| loop { let c = r.next() as u8; if !matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c | b':') { break c } }).collect() }
    }
}
pub fn gen_frame_time(r: &mut Rng) -> Num {
    Num(match r.below(7) {
        0 => "0.033333333".into(),
        1 => "0".into(),
        2 => format!("{}.{:09}", r.below(5), r.below(1_000_000_000)),
        3 => format!("{}", r.below(1000)),
        4 => format!("0.0{}", r.below(1000)),
        5 => { let mut s = "0.".to_string(); for _ in 0..r.range(1, 20) { s.push((b'0' + r.below(10) as u8) as char) } s }
        _ => r.pick(&["1e-3", "2.5E-2", "0.000000001", "0.0000000004", "0.0000000006", "999999.999999999", "0.0083333", "1.", "0.016666666666666666"]).trim_end_matches('.').to_string(),
    })
}
pub struct Shape { pub max_joints: usize, pub max_channels: usize, pub frames: usize, pub plain_names: bool }

pub fn gen_motion(r: &mut Rng, s: &Shape) -> Motion {
    let n = r.range(1, s.max_joints);
    // random recursive tree in declaration order: pick the parent on the path to the last joint
    let style = r.below(5);
    let mut parents: Vec<Option<usize>> = vec![None];
    for i in 1..n {
        let mut path = vec![i - 1];
        while let Some(p) = parents[*path.last().unwrap()] { path.push(p) }
        let k = match style { 0 => 0, 1 => path.len() - 1, 2 => r.below(path.len().min(2)), _ => r.below(path.len()) };
        parents.push(Some(path[k]));
    }
    let leaf_sites = r.below(3); // 0 always, 1 never, 2 random
    let mut js: Vec<MJoint> = (0..n).map(|i| {
        let leaf = !parents.iter().any(|p| *p == Some(i));
        let site = if leaf { match leaf_sites { 0 => true, 1 => false, _ => r.chance(1, 2) } } else { r.chance(1, 6) };
        MJoint {
            name: gen_name(r, s.plain_names),
            offset: [gen_num(r), gen_num(r), gen_num(r)],
            channels: (0..if r.chance(1, 6) { 0 } else { r.range(0, s.max_channels) }).map(|_| r.below(6)).collect(),
            end_site: if site { Some([gen_num(r), gen_num(r), gen_num(r)]) } else { None },
            children: vec![],
        }
    }).collect();
    for i in (1..n).rev() {
        let j = js.pop().unwrap();
        js[parents[i].unwrap()].children.insert(0, j);
    }
    let root = js.pop().unwrap();
    let mut m = Motion { root, frame_time: gen_frame_time(r), frames: vec![] };
    let c = m.num_channels();
    if c > 0 {
        m.frames = (0..r.range(0, s.frames)).map(|_| (0..c).map(|_| gen_num(r)).collect()).collect();
    }
    m
}

/// All ordered trees with n nodes, as parent lists.
pub fn all_trees(n: usize) -> Vec<Vec<Option<usize>>> {
    let mut cur = vec![vec![None]];
    for i in 1..n {
        let mut next = vec![];
        for t in &cur {
            let mut p = Some(i - 1);
            while let Some(q) = p { let mut t2: Vec<Option<usize>> = t.clone(); t2.push(Some(q)); next.push(t2); p = t[q]; }
        }
        cur = next;
    }
    cur
}
pub fn motion_of(parents: &[Option<usize>], sites: u32, chans: &[usize], frames: usize) -> Motion {
    let n = parents.len();
    let mut js: Vec<MJoint> = (0..n).map(|i| MJoint {
        name: format!("j{}", i).into_bytes(),
        offset: [Num(format!("{}.25", i)), Num(format!("-{}", i + 1)), Num(format!("{}e-1", i * 7 + 1))],
        channels: (0..chans[i % chans.len()]).map(|k| (i + k) % 6).collect(),
        end_site: if sites >> i & 1 == 1 { Some([Num(format!("{}.5", i + 100)), Num(format!("{}", i + 200)), Num(format!("{}", i + 300))]) } else { None },
        children: vec![],
    }).collect();
    for i in (1..n).rev() { let j = js.pop().unwrap(); js[parents[i].unwrap()].children.insert(0, j); }
    let root = js.pop().unwrap();
    let mut m = Motion { root, frame_time: Num("0.5".into()), frames: vec![] };
    let c = m.num_channels();
    if c > 0 { m.frames = (0..frames).map(|f| (0..c).map(|k| Num(format!("{}.125", f * 1000 + k))).collect()).collect(); }
    m
}

// ------------------------------------------------------------------ rendering

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Hierarchy, Name(bool), Open, Close, Offset, Channels, EndSite, Motion, Frames, FrameTime, Row, Blank }
/// One line of the file: its tokens, what it is, and where it stands.
#[derive(Clone, Debug)]
pub struct Line { pub kind: Kind, pub toks: Vec<Vec<u8>>, pub joint: usize, pub in_site: bool, pub depth: usize }

#[derive(Clone, Debug)]
pub struct Layout {
    pub swap: bool,      // CHANNELS before OFFSET, now and then
    pub blanks: usize,   // how often (of 10) a blank line is added before a line
    pub crlf: usize,     // 0 LF, 1 CRLF, 2 mixed
    pub indent: usize,   // 0 none, 1 tabs, 2 random
    pub reflow: bool,    // motion values not one row per line
    pub last_newline: bool,
    pub spaces: bool,    // several blanks between tokens, trailing blanks
}
pub fn plain() -> Layout { Layout { swap: false, blanks: 0, crlf: 0, indent: 1, reflow: false, last_newline: true, spaces: false } }
pub fn gen_layout(r: &mut Rng) -> Layout {
    if r.chance(1, 4) { return plain() }
    Layout { swap: r.chance(1, 2), blanks: *r.pick(&[0, 0, 1, 5]), crlf: r.below(3), indent: r.below(3), reflow: r.chance(1, 3), last_newline: r.chance(3, 4), spaces: r.chance(1, 2) }
}
pub fn lines_of(m: &Motion, l: &Layout, r: &mut Rng) -> Vec<Line> {
    fn t(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
    fn ofs(o: &[Num; 3]) -> Vec<Vec<u8>> { vec![t("OFFSET"), t(&o[0].0), t(&o[1].0), t(&o[2].0)] }
    fn joint(j: &MJoint, root: bool, depth: usize, no: &mut usize, l: &Layout, r: &mut Rng, out: &mut Vec<Line>) {
        let me = *no;
        *no += 1;
        let mk = |kind, toks, depth, in_site| Line { kind, toks, joint: me, in_site, depth };
        out.push(mk(Kind::Name(root), vec![t(if root { "ROOT" } else { "JOINT" }), j.name.clone()], depth, false));
        out.push(mk(Kind::Open, vec![t("{")], depth, false));
        let mut ch = vec![t("CHANNELS"), t(&j.channels.len().to_string())];
        ch.extend(j.channels.iter().map(|&c| t(TYPES[c].0)));
        let a = mk(Kind::Offset, ofs(&j.offset), depth + 1, false);
        let b = mk(Kind::Channels, ch, depth + 1, false);
        if l.swap && r.chance(1, 2) { out.push(b); out.push(a) } else { out.push(a); out.push(b) }
        if let Some(o) = &j.end_site {
            out.push(mk(Kind::EndSite, vec![t("End"), t("Site")], depth + 1, false));
            out.push(mk(Kind::Open, vec![t("{")], depth + 1, true));
            out.push(mk(Kind::Offset, ofs(o), depth + 2, true));
            out.push(mk(Kind::Close, vec![t("}")], depth + 1, true));
        }
        for c in &j.children { joint(c, false, depth + 1, no, l, r, out) }
        out.push(mk(Kind::Close, vec![t("}")], depth, false));
    }
    let mk = |kind, toks| Line { kind, toks, joint: 0, in_site: false, depth: 0 };
    let mut out = vec![mk(Kind::Hierarchy, vec![t("HIERARCHY")])];
    joint(&m.root, true, 0, &mut 0, l, r, &mut out);
    out.push(mk(Kind::Motion, vec![t("MOTION")]));
    out.push(mk(Kind::Frames, vec![t("Frames:"), t(&m.frames.len().to_string())]));
    out.push(mk(Kind::FrameTime, vec![t("Frame"), t("Time:"), t(&m.frame_time.0)]));
    let rows: Vec<Vec<Vec<u8>>> = m.frames.iter().map(|f| f.iter().map(|n| t(&n.0)).collect()).collect();
    if l.reflow {
        let all: Vec<_> = rows.into_iter().flatten().collect();
        let mut i = 0;
        while i < all.len() { let n = r.range(1, 7).min(all.len() - i); out.push(mk(Kind::Row, all[i..i + n].to_vec())); i += n; }
    } else {
        for x in rows { out.push(mk(Kind::Row, x)) }
    }
    if l.blanks > 0 {
        let mut o2 = vec![];
        for x in out { while r.chance(l.blanks, 10) { o2.push(mk(Kind::Blank, vec![])) } o2.push(x) }
        out = o2;
    }
    out
}
pub fn text_of(lines: &[Line], l: &Layout, r: &mut Rng) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let n = lines.len();
    for (i, x) in lines.iter().enumerate() {
        match l.indent { 1 => o.extend(vec![b'\t'; x.depth]), 2 => for _ in 0..r.below(4) { o.push(*r.pick(b" \t")) }, _ => {} }
        if x.kind == Kind::Blank && r.chance(1, 3) { o.extend_from_slice(r.pick(&[&b" "[..], b"\t", b"  \t "])) }
        for (k, t) in x.toks.iter().enumerate() {
            if k > 0 { if l.spaces { for _ in 0..r.range(1, 3) { o.push(*r.pick(b" \t")) } } else { o.push(b' ') } }
            o.extend_from_slice(t);
        }
        if l.spaces && r.chance(1, 4) { o.extend_from_slice(r.pick(&[&b" "[..], b"\t", b"  "])) }
        if i + 1 < n || l.last_newline {
            if l.crlf == 1 || (l.crlf == 2 && r.chance(1, 2)) { o.extend_from_slice(b"\r\n") } else { o.push(b'\n') }
        }
    }
    o
}
pub fn render(m: &Motion, l: &Layout, r: &mut Rng) -> Vec<u8> {
    let lines = lines_of(m, l, r);
    text_of(&lines, l, r)
}
