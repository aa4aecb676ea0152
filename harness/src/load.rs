//! C01 - C06, C18: loading.
use crate::model::*;
use crate::util::*;
use bvh_anim::errors::{LoadError, LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::{Axis, Bvh};
use std::io::{self, BufRead, Read};

pub fn shape(r: &mut Rng) -> Shape {
    match r.below(8) {
        0 => Shape { max_joints: 60, max_channels: 3, frames: 2, plain_names: false },
        1 => Shape { max_joints: 4, max_channels: 12, frames: 3, plain_names: false },
        2 | 3 => Shape { max_joints: 3, max_channels: 3, frames: 3, plain_names: true },
        _ => Shape { max_joints: 10, max_channels: 6, frames: 4, plain_names: false },
    }
}
/// The k-th of the small skeletons: all trees of up to 5 joints x all placements of End Sites x channel patterns.
pub fn small(k: u64) -> Option<Motion> {
    let pats: [&[usize]; 3] = [&[3], &[0, 1, 2], &[7, 1]];
    let mut k = k;
    for n in 1..=5usize {
        let ts = all_trees(n);
        let per = (1u64 << n) * pats.len() as u64;
        let tot = per * ts.len() as u64;
        if k < tot {
            let t = &ts[(k / per) as usize];
            let s = (k % per) / pats.len() as u64;
            return Some(motion_of(t, s as u32, pats[(k % pats.len() as u64) as usize], 2));
        }
        k -= tot;
    }
    None
}
pub const N_SMALL: u64 = 3 * (2 + 4 + 2 * 8 + 6 * 16 + 24 * 32) as u64;

pub fn load(b: &[u8]) -> Result<Bvh, LoadError> { Bvh::from_bytes(b) }
pub fn err_text(e: &LoadError) -> String { format!("{:?}", e) }

/// A well-formed file with its model.
pub fn good(gen: &str, k: u64, r: &mut Rng) -> Option<(Motion, Vec<u8>)> {
    if gen == "small" {
        let m = small(k)?;
        let t = render(&m, &plain(), r);
        return Some((m, t));
    }
    let sh = shape(r);
    let m = gen_motion(r, &sh);
    let l = gen_layout(r);
    let t = render(&m, &l, r);
    Some((m, t))
}

pub fn well_formed(gen: &str, k: u64, r: &mut Rng, a: Aspects) -> Option<Case> {
    let (m, t) = good(gen, k, r)?;
    let want = m.flat();
    let result = guard(|| match load(&t) {
        Ok(b) => compare(&b, &want, a),
        Err(e) => Err(format!("a well-formed file does not load: {}", err_text(&e))),
    }).and_then(|x| x);
    Some(Case { input: show(&t), nontrivial: want.joints.len() > 1, key: hash(&t), result })
}

// ---------------------------------------------------------------- arbitrary files

const ALPHA: [&str; 22] = ["HIERARCHY", "ROOT r", "ROOT", "{", "}", "JOINT j", "JOINT", "End Site", "End", "OFFSET 1 2 3", "OFFSET 1 2", "CHANNELS 1 Xposition", "CHANNELS 2 Yrotation Zrotation", "CHANNELS 0", "CHANNELS", "MOTION", "Frames: 1", "Frame Time: 0.1", "1 2 3", "", "junk", "CHANNELS 99999999999999999 Xposition"];
const CORE: [&str; 8] = ["{", "}", "JOINT j", "End Site", "OFFSET 1 2 3", "CHANNELS 1 Xposition", "ROOT r", "HIERARCHY"];

/// Files which need not be well-formed: line soups and mutations of well-formed files.
pub fn soup(gen: &str, k: u64, r: &mut Rng) -> Option<Vec<u8>> {
    Some(match gen {
        // all sequences of up to 7 of the core lines behind a header
        "lines" => {
            let mut k = k;
            let mut len = 0usize;
            loop {
                let n = 8u64.pow(len as u32);
                if k < n { break }
                k -= n;
                len += 1;
                if len > 7 { return None }
            }
            let mut s = String::from("HIERARCHY\nROOT r\n{\n");
            for _ in 0..len { s.push_str(CORE[(k % 8) as usize]); s.push('\n'); k /= 8; }
            s.push_str("}\nMOTION\nFrames: 0\nFrame Time: 0.1\n");
            s.into_bytes()
        }
        "soup" => {
            let mut s = String::new();
            let n = r.range(0, 24);
            if r.chance(4, 5) { s.push_str("HIERARCHY\nROOT r\n{\n") }
            let core = r.chance(2, 3);
            for _ in 0..n {
                s.push_str(if core { *r.pick(&CORE[..6]) } else { *r.pick(&ALPHA) });
                s.push_str(if r.chance(1, 10) { "\r\n" } else { "\n" });
            }
            if r.chance(1, 2) { s.push_str("}\n}\n}\nMOTION\nFrames: 1\nFrame Time: 0.1\n1 2 3\n") }
            s.into_bytes()
        }
        "bytes" => {
            let n = r.range(0, 80);
            (0..n).map(|_| if r.chance(1, 3) { *r.pick(b"\n\r\t :{}0") } else { r.next() as u8 }).collect()
        }
        // "mutate"
        _ => {
            let (_, t) = good("random", k, r)?;
            let mut ls: Vec<Vec<u8>> = t.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
            for _ in 0..r.range(1, 3) {
                let i = r.below(ls.len());
                match r.below(9) {
                    0 => { ls.remove(i); }
                    1 => { let x = ls[i].clone(); ls.insert(i, x); }
                    2 => { let j = r.below(ls.len()); ls.swap(i, j); }
                    3 => ls.insert(i, r.pick(&ALPHA).as_bytes().to_vec()),
                    4 | 5 => {
                        // change a token
                        let mut toks: Vec<Vec<u8>> = ls[i].split(|c| *c == b' ').map(|x| x.to_vec()).collect();
                        let j = r.below(toks.len());
                        let bad: [&[u8]; 24] = [b"", b"-1", b"18446744073709551615", b"18446744073709551616", b"9223372036854775808", b"4294967296", b"1e400", b"-1e400", b"nan", b"inf", b"-inf", b"abc", b"1e", b".", b"-", b"1.2.3", b"\xff\xff", b"100000000000", b"1e30", b"0x1", b":", b"::", b"999999999999999999999999999999999999999999999999999999999", b"1e-400"];
                        toks[j] = r.pick(&bad).to_vec();
                        ls[i] = toks.join(&b' ');
                    }
                    6 => { if !ls[i].is_empty() { let j = r.below(ls[i].len()); ls[i].truncate(j) } }
                    7 => { if !ls[i].is_empty() { let j = r.below(ls[i].len()); ls[i][j] = r.next() as u8 } }
                    _ => { let n = r.below(ls.len()) + 1; ls.truncate(n) }
                }
                if ls.is_empty() { ls.push(vec![]) }
            }
            ls.join(&b'\n')
        }
    })
}

// ---------------------------------------------------------------- readers

/// Delivers the bytes in pieces, with interruptions, and fails at a point if asked to.
pub struct Pieces<'a> { pub data: &'a [u8], pub pos: usize, pub avail: usize, pub sizes: Vec<usize>, pub k: usize, pub interrupts: Vec<bool>, pub ki: usize, pub fail_at: Option<usize>, pub kind: io::ErrorKind }
impl<'a> Pieces<'a> {
    pub fn gen(data: &'a [u8], r: &mut Rng) -> Self {
        let sizes: Vec<usize> = match r.below(5) { 0 => vec![1], 1 => vec![2, 1, 3], 2 => vec![7], 3 => (0..r.range(1, 12)).map(|_| r.range(1, 40)).collect(), _ => vec![8192] };
        let interrupts: Vec<bool> = match r.below(3) { 0 => vec![false], 1 => vec![true, false], _ => (0..r.range(2, 9)).map(|_| r.chance(1, 3)).chain([false]).collect() };
        Pieces { data, pos: 0, avail: 0, sizes, k: 0, interrupts, ki: 0, fail_at: None, kind: io::ErrorKind::Other }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = { let b = self.fill_buf()?; let n = b.len().min(buf.len()); buf[..n].copy_from_slice(&b[..n]); n };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            let i = self.interrupts[self.ki % self.interrupts.len()];
            self.ki += 1;
            if i { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")) }
            if self.fail_at == Some(self.pos) { return Err(io::Error::new(self.kind, "the reader failed")) }
            let n = self.sizes[self.k % self.sizes.len()];
            self.k += 1;
            let mut n = n.min(self.data.len() - self.pos);
            if let Some(f) = self.fail_at { if self.pos < f { n = n.min(f - self.pos) } }
            self.avail = n;
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) { self.pos += n; self.avail -= n; }
}

fn is_io(e: &LoadError, kind: io::ErrorKind) -> bool {
    match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::Io(x)) | LoadErrorKind::Motion(LoadMotionError::Io(x)) => x.kind() == kind && x.to_string() == "the reader failed" && e.line().is_none(),
        _ => false,
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    if gen == "fail" {
        let (_, t) = good("random", k, r)?;
        let at = r.below(t.len() + 1);
        let kind = *r.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe, io::ErrorKind::PermissionDenied, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut]);
        let mut p = Pieces::gen(&t, r);
        p.fail_at = Some(at);
        p.kind = kind;
        let result = guard(|| match Bvh::from_reader(p) {
            Ok(_) => Err("the reader failed but loading returned a motion".to_string()),
            Err(e) if is_io(&e, kind) => Ok(()),
            Err(e) => Err(format!("the reader failed with {:?}, loading returned {}", kind, err_text(&e))),
        }).and_then(|x| x);
        return Some(Case { input: format!("reader failing with {:?} after {} bytes of {}", kind, at, show(&t)), nontrivial: at > 0, key: hash(&t) ^ at as u64, result });
    }
    let t = match gen { "good" => good("random", k, r)?.1, g => soup(g, k, r)? };
    let limit = 64 * t.len() + (1 << 20);
    let mut ok = false;
    let result = guard(|| { let (x, peak) = metered(|| load(&t)); ok = x.is_ok(); if let Err(e) = x { let _ = (e.to_string(), e.line()); } peak }).and_then(|peak| {
        if peak > limit { Err(format!("loading {} bytes asked for {} bytes of memory at once", t.len(), peak)) } else { Ok(()) }
    });
    Some(Case { input: show(&t), nontrivial: t.len() > 20, key: hash(&t), result })
}

// ---------------------------------------------------------------- C02

/// The nesting of the declarations, read off the braces by a stack.
fn nesting(t: &[u8]) -> Vec<Option<usize>> {
    let mut parents = vec![];
    let mut stack: Vec<Option<usize>> = vec![]; // None: the braces of an End Site
    let mut pending: Option<Option<usize>> = None;
    let mut started = false;
    for l in t.split(|c| *c == b'\n') {
        let l = if l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l };
        let first: &[u8] = l.split(|c| matches!(c, b' ' | b'\t' | b'\r' | 0x0c | b':')).find(|x| !x.is_empty()).unwrap_or(b"");
        match first {
            b"HIERARCHY" => started = true,
            b"ROOT" | b"JOINT" if started => {
                let p = stack.iter().rev().find_map(|x| *x);
                parents.push(p);
                pending = Some(Some(parents.len() - 1));
            }
            b"End" if started => pending = Some(None),
            b"{" => { stack.push(pending.take().unwrap_or(None)) }
            b"}" => { stack.pop(); if stack.is_empty() { break } }
            _ => {}
        }
    }
    parents
}
fn tree_of(b: &Bvh, want: &[Option<usize>]) -> Result<(), String> {
    let js: Vec<_> = b.joints().collect();
    if js.len() != want.len() { return Err(format!("{} joints, the file declares {}", js.len(), want.len())) }
    for (i, j) in js.iter().enumerate() {
        if j.index() != i { return Err(format!("joint {} has index {}", i, j.index())) }
        if j.is_root() != (i == 0) || j.is_child() != (i != 0) { return Err(format!("joint {}: is_root {}, is_child {}", i, j.is_root(), j.is_child())) }
        if j.parent_index() != want[i] { return Err(format!("joint {}: parent {:?}, the braces say {:?}", i, j.parent_index(), want[i])) }
        if i > 0 && !matches!(want[i], Some(p) if p < i) { return Err(format!("joint {} has no parent before it", i)) }
        if j.parent().map(|p| p.index()) != want[i] { return Err(format!("joint {}: parent() is {:?}", i, j.parent().map(|p| p.index()))) }
    }
    Ok(())
}
pub fn c02(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    if gen == "small" || gen == "random" {
        let mut c = well_formed(gen, k, r, TREE)?;
        if gen == "small" || !c.nontrivial { return Some(c) }
        c.nontrivial = true;
        return Some(c);
    }
    let t = soup(gen, k, r)?;
    let mut ok = false;
    let result = guard(|| load(&t)).ok().and_then(|x| x.ok()).map_or(Ok(()), |b| { ok = true; guard(|| tree_of(&b, &nesting(&t))).and_then(|x| x) });
    Some(Case { input: show(&t), nontrivial: ok, key: hash(&t), result })
}

// ---------------------------------------------------------------- C04

pub fn c04(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    if gen == "small" || gen == "random" {
        return well_formed(gen, k, r, Aspects { tree: false, attrs: true, channels: true, motion: false }).map(|mut c| {
            // only the numbering counts here
            if let Err(e) = &c.result { if !e.contains("motion index") && !e.contains("channels") { c.result = Ok(()) } }
            c
        });
    }
    let t = soup(gen, k, r)?;
    let mut ok = false;
    let result = guard(|| load(&t)).ok().and_then(|x| x.ok()).map_or(Ok(()), |b| { ok = b.num_channels() > 0; guard(|| channels_consecutive(&b)).and_then(|x| x) });
    Some(Case { input: show(&t), nontrivial: ok, key: hash(&t), result })
}

// ---------------------------------------------------------------- C05

pub fn c05(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    if gen == "small" || gen == "random" { return well_formed(gen, k, r, MOTION) }
    if gen == "long" {
        let mut m = gen_motion(r, &Shape { max_joints: 4, max_channels: 5, frames: 0, plain_names: true });
        let c = m.num_channels();
        if c > 0 { m.frames = (0..r.range(50, 400)).map(|_| (0..c).map(|_| gen_num(r)).collect()).collect() }
        let l = gen_layout(r);
        let t = render(&m, &l, r);
        let want = m.flat();
        let result = guard(|| match load(&t) { Ok(b) => compare(&b, &want, MOTION), Err(e) => Err(format!("does not load: {}", err_text(&e))) }).and_then(|x| x);
        return Some(Case { input: show(&t), nontrivial: c > 0, key: hash(&t), result });
    }
    // counts which need not match
    let m = gen_motion(r, &Shape { max_joints: 3, max_channels: 4, frames: 3, plain_names: true });
    let l = gen_layout(r);
    let mut lines = lines_of(&m, &l, r);
    let c = m.num_channels() as u128;
    let vals: usize = lines.iter().filter(|x| x.kind == Kind::Row).map(|x| x.toks.len()).sum();
    let mut n = vals;
    // change how many values there are
    match r.below(4) {
        0 => { lines.push(Line { kind: Kind::Row, toks: (0..r.range(1, 4)).map(|_| gen_num(r).0.into_bytes()).collect(), joint: 0, in_site: false, depth: 0 }); }
        1 => if let Some(x) = lines.iter_mut().rev().find(|x| x.kind == Kind::Row) { x.toks.pop(); },
        2 => if let Some(i) = lines.iter().rposition(|x| x.kind == Kind::Row) { lines.remove(i); },
        _ => {}
    }
    n = { let _ = n; lines.iter().filter(|x| x.kind == Kind::Row).map(|x| x.toks.len()).sum() };
    let frames: u128 = match r.below(8) {
        0 => usize::MAX as u128,
        1 => usize::MAX as u128 / c.max(1) + 1,
        2 => (1u128 << 63) + r.below(3) as u128,
        3 => (1u128 << 32) * r.range(1, 8) as u128,
        4 => (u64::MAX as u128 + 1) / c.max(1) + r.below(3) as u128,
        5 => 0,
        _ => (n as u128 / c.max(1) + r.below(2) as u128).min(u64::MAX as u128),
    }.min(u64::MAX as u128);
    for x in lines.iter_mut() { if x.kind == Kind::Frames { x.toks[1] = frames.to_string().into_bytes() } }
    let t = text_of(&lines, &l, r);
    let fits = frames * c == n as u128;
    let result = guard(|| match load(&t) {
        Ok(b) if fits => {
            let w: Vec<f32> = lines.iter().filter(|x| x.kind == Kind::Row).flat_map(|x| x.toks.iter().map(|t| std::str::from_utf8(t).unwrap().parse().unwrap())).collect();
            let got: Vec<f32> = b.frames().flat_map(|f| f.as_slice().to_vec()).collect();
            if got.len() == w.len() && got.iter().zip(&w).all(|(a, b)| same_f32(*a, *b)) { Ok(()) } else { Err(format!("values {:?}, expected {:?}", got, w)) }
        }
        Ok(_) => Err(format!("loads although {} channels x {} frames need another number of values than {}", c, frames, n)),
        Err(e) if fits => Err(format!("{} channels x {} frames and {} values, but: {}", c, frames, n, err_text(&e))),
        Err(_) => Ok(()),
    }).and_then(|x| x);
    Some(Case { input: show(&t), nontrivial: !fits, key: hash(&t), result })
}

// ---------------------------------------------------------------- C06

#[derive(Debug)]
enum Want {
    Name, Keyword, OffsetSection, ChannelsSection, NumChannels(bool), Channel(Vec<u8>), ParseOffset(usize), MissingAxis(usize),
    Root, Motion, NumFrames(bool), FrameTime(Option<bool>), Value(usize), Count { actual: usize, expected: usize, frames: usize, clips: usize },
}
const BAD: [&str; 7] = ["abc", "1.2.3", "--1", "1,5", "x1", "1x", "#"];

fn axis(i: usize) -> Axis { [Axis::X, Axis::Y, Axis::Z][i] }
fn matches(e: &LoadError, w: &Want, line: Option<usize>) -> Result<(), String> {
    use LoadJointsError as J;
    use LoadMotionError as M;
    let ok = match (e.kind(), w) {
        (LoadErrorKind::Joints(j), w) => match (j, w) {
            (J::MissingJointName { .. }, Want::Name) => true,
            (J::UnexpectedKeyword { .. }, Want::Keyword) => true,
            (J::UnexpectedOffsetSection { .. }, Want::OffsetSection) => true,
            (J::UnexpectedChannelsSection { .. }, Want::ChannelsSection) => true,
            (J::ParseNumChannelsError { error, .. }, Want::NumChannels(x)) => error.is_some() == *x,
            (J::ParseChannelError { error, .. }, Want::Channel(x)) => format!("{:?}", error) == format!("{:?}", bvh_anim::errors::ParseChannelError::from(x.clone())),
            (J::ParseOffsetError { axis: a, .. }, Want::ParseOffset(i)) => *a == axis(*i),
            (J::MissingOffsetAxis { axis: a, .. }, Want::MissingAxis(i)) => *a == axis(*i),
            (J::MissingRoot, Want::Root) => true,
            _ => false,
        },
        (LoadErrorKind::Motion(m), w) => match (m, w) {
            (M::MissingMotionSection { .. }, Want::Motion) => true,
            (M::MissingNumFrames { parse_error, .. }, Want::NumFrames(x)) => parse_error.is_some() == *x,
            (M::MissingFrameTime { parse_error, .. }, Want::FrameTime(x)) => x.map_or(true, |x| parse_error.is_some() == x),
            (M::ParseMotionSection { channel_index, .. }, Want::Value(x)) => channel_index == x,
            (M::MotionCountMismatch { actual_total_motion_values, expected_total_motion_values, expected_num_frames, expected_num_clips }, Want::Count { actual, expected, frames, clips }) =>
                (actual_total_motion_values, expected_total_motion_values, expected_num_frames, expected_num_clips) == (actual, expected, frames, clips),
            _ => false,
        },
    };
    if !ok { return Err(format!("expected {:?} on line {:?}, got {}", w, line, err_text(e))) }
    if let Some(l) = line {
        if e.line() != Some(l) { return Err(format!("expected line {}, got {:?} in {}", l, e.line(), err_text(e))) }
        let inner = match e.kind() { LoadErrorKind::Joints(j) => j.line(), LoadErrorKind::Motion(m) => m.line() };
        if inner != Some(l) { return Err(format!("line() of the kind is {:?}, expected {}", inner, l)) }
    } else if matches!(w, Want::Root | Want::Count { .. }) && e.line().is_some() {
        return Err(format!("this error has no line, but line() is {:?}", e.line()));
    }
    Ok(())
}

pub fn c06(gen: &str, _k: u64, r: &mut Rng) -> Option<Case> {
    let pl = r.chance(1, 2);
    let m = gen_motion(r, &Shape { max_joints: 6, max_channels: 4, frames: 4, plain_names: pl });
    let mut l = gen_layout(r);
    if gen == "plain" { l = plain() }
    let mut lines = lines_of(&m, &l, r);
    let idx = |lines: &Vec<Line>, f: &dyn Fn(&Line) -> bool, r: &mut Rng| -> Option<usize> {
        let c: Vec<usize> = (0..lines.len()).filter(|&i| f(&lines[i])).collect();
        if c.is_empty() { None } else { Some(*r.pick(&c)) }
    };
    let t = |s: &str| s.as_bytes().to_vec();
    let ins = |toks: Vec<Vec<u8>>| Line { kind: Kind::Blank, toks, joint: 0, in_site: false, depth: 1 };
    let bad = *r.pick(&BAD);
    let (want, line): (Want, Option<usize>) = match r.below(32) {
        0 | 1 => { let i = idx(&lines, &|x| matches!(x.kind, Kind::Name(_)), r)?; lines[i].toks.truncate(1); (Want::Name, Some(i)) }
        2 | 3 => { let i = idx(&lines, &|x| x.kind == Kind::Offset, r)?; let a = r.below(3); lines[i].toks.truncate(1 + a); (Want::MissingAxis(a), Some(i)) }
        4 | 5 => { let i = idx(&lines, &|x| x.kind == Kind::Offset, r)?; let a = r.below(3); lines[i].toks[1 + a] = t(bad); (Want::ParseOffset(a), Some(i)) }
        6 => { let i = idx(&lines, &|x| x.kind == Kind::Channels, r)?; lines[i].toks.truncate(1); (Want::NumChannels(false), Some(i)) }
        7 => { let i = idx(&lines, &|x| x.kind == Kind::Channels, r)?; lines[i].toks[1] = t(r.pick(&["abc", "-1", "1.5", "x", "99999999999999999999999"])); (Want::NumChannels(true), Some(i)) }
        8 | 9 => {
            let i = idx(&lines, &|x| x.kind == Kind::Channels && x.toks.len() > 2, r)?;
            let j = r.range(2, lines[i].toks.len() - 1);
            let b: Vec<u8> = r.pick(&[&b"Xpos"[..], b"xposition", b"Wrotation", b"XPOSITION", b"Zrotationn", b"\xff", b"Yscale", b"1"]).to_vec();
            lines[i].toks[j] = b.clone();
            (Want::Channel(b), Some(i))
        }
        // sections out of place
        10 => { // OFFSET or CHANNELS behind a child
            let i = idx(&lines, &|x| x.kind == Kind::Close && !x.in_site && x.depth > 0, r)? + 1;
            if r.chance(1, 2) { lines.insert(i, ins(vec![t("OFFSET"), t("1"), t("2"), t("3")])); (Want::OffsetSection, Some(i)) }
            else { lines.insert(i, ins(vec![t("CHANNELS"), t("1"), t("Xposition")])); (Want::ChannelsSection, Some(i)) }
        }
        11 => { // behind an End Site
            let i = idx(&lines, &|x| x.kind == Kind::Close && x.in_site, r)? + 1;
            if r.chance(1, 2) { lines.insert(i, ins(vec![t("OFFSET"), t("1"), t("2"), t("3")])); (Want::OffsetSection, Some(i)) }
            else { lines.insert(i, ins(vec![t("CHANNELS"), t("1"), t("Xposition")])); (Want::ChannelsSection, Some(i)) }
        }
        12 => { let i = idx(&lines, &|x| x.kind == Kind::Offset && x.in_site, r)?; lines.insert(i, ins(vec![t("CHANNELS"), t("1"), t("Xposition")])); (Want::ChannelsSection, Some(i)) }
        13 => { let i = idx(&lines, &|x| x.kind == Kind::Channels && x.toks.len() > 2, r)? + 1; lines.insert(i, ins(vec![t("CHANNELS"), t("1"), t("Xposition")])); (Want::ChannelsSection, Some(i)) }
        14 => { lines.insert(0, ins(vec![t("OFFSET"), t("1"), t("2"), t("3")])); (Want::OffsetSection, Some(0)) }
        15 => { lines.insert(0, ins(vec![t("CHANNELS"), t("1"), t("Xposition")])); (Want::ChannelsSection, Some(0)) }
        29 | 30 => { // before the first joint, or between a joint's name and its brace
            let h = idx(&lines, &|x| x.kind == Kind::Hierarchy, r)?;
            let i = if r.chance(1, 4) { h + 1 } else { idx(&lines, &|x| x.kind == Kind::Open, r)? };
            if r.chance(1, 2) { lines.insert(i, ins(vec![t("OFFSET"), t("1"), t("2"), t("3")])); (Want::OffsetSection, Some(i)) }
            else { lines.insert(i, ins(vec![t("CHANNELS"), t("1"), t("Xposition")])); (Want::ChannelsSection, Some(i)) }
        }
        // keywords out of place
        16 => { let h = idx(&lines, &|x| x.kind == Kind::Hierarchy, r)?; let e = idx(&lines, &|x| x.kind == Kind::Close && !x.in_site && x.depth == 0, r)?; let i = r.range(h + 1, e); lines.insert(i, ins(vec![t("HIERARCHY")])); (Want::Keyword, Some(i)) }
        17 => { let h = idx(&lines, &|x| matches!(x.kind, Kind::Name(true)), r)?; let e = idx(&lines, &|x| x.kind == Kind::Close && !x.in_site && x.depth == 0, r)?; let i = r.range(h + 1, e); lines.insert(i, ins(vec![t("ROOT"), t("again")])); (Want::Keyword, Some(i)) }
        18 => { let k: [&[&str]; 5] = [&["JOINT", "a"], &["ROOT", "a"], &["{"], &["}"], &["End", "Site"]]; let x = *r.pick(&k); lines.insert(0, ins(x.iter().map(|s| t(s)).collect())); (Want::Keyword, Some(0)) }
        19 => { let i = idx(&lines, &|x| x.in_site && x.kind == Kind::Offset, r)?; let i = i + r.below(2); let x: Vec<Vec<u8>> = if r.chance(1, 2) { vec![t("JOINT"), t("a")] } else { vec![t("End"), t("Site")] }; lines.insert(i, ins(x)); (Want::Keyword, Some(i)) }
        20 => { // a brace too many behind an opening brace, or a closing one before it
            let i = idx(&lines, &|x| x.kind == Kind::Open, r)?;
            if r.chance(1, 2) { lines.insert(i + 1, ins(vec![t("{")])); (Want::Keyword, Some(i + 1)) } else { lines.insert(i, ins(vec![t("}")])); (Want::Keyword, Some(i)) }
        }
        21 => { let i = idx(&lines, &|x| x.kind == Kind::EndSite, r)?; if r.chance(1, 2) { lines[i].toks.truncate(1) } else { lines[i].toks[1] = t("site") } (Want::Keyword, Some(i)) }
        22 => { // an End Site behind a child or behind an End Site
            let i = idx(&lines, &|x| x.kind == Kind::Close && (x.in_site || x.depth > 0), r)? + 1;
            lines.insert(i, ins(vec![t("End"), t("Site")]));
            (Want::Keyword, Some(i))
        }
        // motion
        23 => { let i = idx(&lines, &|x| x.kind == Kind::Motion, r)?; lines[i].toks = vec![t(r.pick(&["MOTIONS", "motion", "Frames:", "MOTION1", "}"]))]; (Want::Motion, Some(i)) }
        24 => {
            let i = idx(&lines, &|x| x.kind == Kind::Frames, r)?;
            match r.below(3) {
                0 => { lines[i].toks[0] = t(r.pick(&["Frame:", "frames:", "FRAMES:", "Framess:"])); (Want::NumFrames(false), Some(i)) }
                1 => { lines[i].toks.truncate(1); (Want::NumFrames(false), Some(i)) }
                _ => { lines[i].toks[1] = t(r.pick(&["abc", "-1", "1.5", "x", "99999999999999999999999"])); (Want::NumFrames(true), Some(i)) }
            }
        }
        25 => {
            let i = idx(&lines, &|x| x.kind == Kind::FrameTime, r)?;
            match r.below(6) {
                0 => { lines[i].toks[0] = t(r.pick(&["Frames", "frame", "Frame:", "Fram"])); (Want::FrameTime(Some(false)), Some(i)) }
                1 => { lines[i].toks[1] = t(r.pick(&["time:", "Times:", "Tim:"])); (Want::FrameTime(Some(false)), Some(i)) }
                2 => { lines[i].toks.truncate(2); (Want::FrameTime(Some(false)), Some(i)) }
                3 => { lines[i].toks.truncate(1); (Want::FrameTime(Some(false)), Some(i)) }
                4 => { lines[i].toks[2] = t(bad); (Want::FrameTime(Some(true)), Some(i)) }
                _ => { lines[i].toks[2] = t(r.pick(&["-1", "-0.001", "1e300", "-1e300", "1e20", "nan", "inf"])); (Want::FrameTime(None), Some(i)) }
            }
        }
        26 | 27 => {
            let i = idx(&lines, &|x| x.kind == Kind::Row, r)?;
            let j = r.below(lines[i].toks.len());
            lines[i].toks[j] = t(bad);
            (Want::Value(j), Some(i))
        }
        28 => { // another number of values
            let clips = m.num_channels();
            let frames = m.frames.len();
            let have = clips * frames;
            if r.chance(1, 2) && have > 0 {
                let i = idx(&lines, &|x| x.kind == Kind::Row, r)?;
                lines[i].toks.pop();
                (Want::Count { actual: have - 1, expected: have, frames, clips }, None)
            } else {
                lines.push(ins(vec![t("1")]));
                (Want::Count { actual: have + 1, expected: have, frames, clips }, None)
            }
        }
        _ => { // the file ends early
            let i = r.below(lines.len());
            let at = |k: &dyn Fn(&Line) -> bool| lines.iter().position(|x| k(x)).unwrap();
            let end = lines.iter().position(|x| x.kind == Kind::Close && !x.in_site && x.depth == 0).unwrap();
            let (mo, fr, ft) = (at(&|x| x.kind == Kind::Motion), at(&|x| x.kind == Kind::Frames), at(&|x| x.kind == Kind::FrameTime));
            let w = if i <= end { Want::Root } else if i <= mo { Want::Motion } else if i <= fr { Want::NumFrames(false) } else if i <= ft { Want::FrameTime(Some(false)) } else { return None };
            lines.truncate(i);
            for _ in 0..r.below(4) { lines.push(ins(vec![])) }
            if r.chance(1, 2) || lines.last().map_or(true, |x| x.kind == Kind::Blank) { l.last_newline = true }
            // nothing is there any more: the error is on the last line of the file
            let last = if matches!(w, Want::Root) { None } else { Some(lines.len() - 1) };
            (w, last)
        }
    };
    let text = text_of(&lines, &l, r);
    let result = guard(|| match load(&text) {
        Ok(_) => Err(format!("loads, but line {:?} is broken: {:?}", line, want)),
        Err(e) => matches(&e, &want, line),
    }).and_then(|x| x);
    Some(Case { input: format!("[{:?} on line {:?}] {}", want, line, show(&text)), nontrivial: lines.len() > 12, key: hash(&text), result })
}

// ---------------------------------------------------------------- C18

fn same_result(a: &Result<Bvh, LoadError>, b: &Result<Bvh, LoadError>) -> Result<(), String> {
    match (a, b) {
        (Ok(x), Ok(y)) => same_motion(x, y),
        (Err(x), Err(y)) if err_text(x) == err_text(y) => Ok(()),
        (x, y) => Err(format!("{} against {}", res_text(x), res_text(y))),
    }
}
fn res_text(a: &Result<Bvh, LoadError>) -> String { match a { Ok(_) => "a motion".into(), Err(e) => err_text(e) } }

pub fn c18(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    use std::convert::TryFrom;
    use std::str::FromStr;
    let t = match gen { "good" => good("random", k, r)?.1, g => soup(g, k, r)? };
    let mut p = Pieces::gen(&t, r);
    if t.len() > 20000 { p.sizes = vec![4096] }
    let how = format!("pieces {:?}, interruptions {:?}", p.sizes, p.interrupts);
    let cap = *r.pick(&[1usize, 2, 3, 16, 64, 8192]);
    let result = guard(|| -> Result<(), String> {
        let base = Bvh::from_bytes(&t[..]);
        let tag = |n: &str, x: Result<(), String>| x.map_err(|e| format!("{}: {}", n, e));
        tag(&format!("a reader with {}", how), same_result(&Bvh::from_reader(p), &base))?;
        tag("buffered reader", same_result(&bvh_anim::from_reader(io::BufReader::with_capacity(cap, &t[..])), &base))?;
        tag("from_reader(&[u8])", same_result(&bvh_anim::from_reader(&t[..]), &base))?;
        tag("from_bytes", same_result(&bvh_anim::from_bytes(&t[..]), &base))?;
        tag("from_bytes(&Vec)", same_result(&bvh_anim::from_bytes(&t), &base))?;
        tag("TryFrom<&[u8]>", same_result(&Bvh::try_from(&t[..]), &base))?;
        tag("TryFrom<&BStr>", same_result(&Bvh::try_from(bstr::ByteSlice::as_bstr(&t[..])), &base))?;
        if let Ok(s) = std::str::from_utf8(&t) {
            tag("from_str", same_result(&bvh_anim::from_str(s), &base))?;
            tag("FromStr", same_result(&Bvh::from_str(s), &base))?;
            tag("TryFrom<&str>", same_result(&Bvh::try_from(s), &base))?;
            tag("parse", same_result(&s.parse::<Bvh>(), &base))?;
        }
        Ok(())
    }).and_then(|x| x);
    Some(Case { input: format!("{} of {}", how, show(&t)), nontrivial: t.len() > 20, key: hash(&t), result })
}
