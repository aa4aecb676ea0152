//! C07 - C13: frames, cursor, access, channels, joints.
use crate::load::*;
use crate::model::*;
use crate::util::*;
use bvh_anim::errors::SetMotionError;
use bvh_anim::frames::{Frame, FrameCursor, FrameMut, Frames, FramesMut};
use bvh_anim::{Axis, Bvh, Channel, ChannelType};
use std::time::Duration;

/// A motion with c channels and the given rows, built through the public interface only.
pub fn bvh_with(c: usize, rows: &[Vec<f32>]) -> Bvh {
    let mut s = String::from("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS ");
    s.push_str(&c.to_string());
    for i in 0..c { s.push(' '); s.push_str(TYPES[i % 6].0) }
    s.push_str(&format!("\nEnd Site\n{{\nOFFSET 0 0 0\n}}\n}}\nMOTION\nFrames: {}\nFrame Time: 0.1\n", if c == 0 { 0 } else { rows.len() }));
    for r in rows { for v in r { s.push_str(&format!("{} ", v)) } s.push('\n') }
    Bvh::from_bytes(s.as_bytes()).unwrap()
}
pub fn rows(c: usize, n: usize, base: usize) -> Vec<Vec<f32>> {
    (0..n).map(|i| (0..c).map(|k| (base + i * 100 + k) as f32 + 0.5).collect()).collect()
}
fn get(b: &Bvh) -> Vec<Vec<f32>> { b.frames().map(|f| f.as_slice().to_vec()).collect() }
fn same_rows(a: &[Vec<f32>], b: &[Vec<f32>]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits())) }
fn raw(b: &Bvh) -> Vec<f32> { b.clone().extract_frames() }
fn rows_arg(gen: &str, k: u64, r: &mut Rng, exact: bool) -> Option<(usize, usize)> {
    if gen == "grid" { if k < 7 * 8 { Some(((k % 7) as usize, (k / 7) as usize)) } else { None } }
    else { let _ = exact; Some((r.range(0, 12), r.range(0, 14))) }
}
fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> { if ok { Ok(()) } else { Err(what()) } }

// ---------------------------------------------------------------- C07

pub fn c07(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    let (c, n) = rows_arg(gen, k, r, true)?;
    let rs = rows(c, n, 0);
    let want: Vec<Vec<f32>> = if c == 0 { vec![] } else { rs.clone() };
    let mut b = bvh_with(c, &rs);
    let ops: Vec<usize> = (0..want.len() * 2 + 6).map(|_| r.below(10)).collect();
    let nths: Vec<usize> = (0..ops.len()).map(|_| r.below(4)).collect();
    let mutable = r.chance(1, 2);
    let input = format!("{} channels, {} frames, {} iteration, calls {:?} nth {:?}", c, n, if mutable { "mutable" } else { "shared" }, ops, nths);
    let result = guard(|| -> Result<(), String> {
        #[allow(deprecated)]
        { ck(b.num_frames() == want.len(), || format!("num_frames() is {}, expected {}", b.num_frames(), want.len()))?; }
        ck(b.frames().len() == want.len() && b.frames_mut().len() == want.len(), || format!("len() is {} / {}, expected {}", b.frames().len(), b.frames_mut().len(), want.len()))?;
        ck(get(&b) == want, || format!("frames {:?}, expected {:?}", get(&b), want))?;
        ck(b.frames_mut().map(|f| f.as_slice().to_vec()).collect::<Vec<_>>() == want, || "frames_mut differ".into())?;
        ck(b.frames().rev().map(|f| f.as_slice().to_vec()).collect::<Vec<_>>() == want.iter().rev().cloned().collect::<Vec<_>>(), || "reversed frames differ".into())?;
        ck(b.frames().count() == want.len() && b.frames_mut().count() == want.len(), || "count()".into())?;
        ck(b.frames().last().map(|f| f.as_slice().to_vec()) == want.last().cloned(), || "last()".into())?;
        ck(b.frames_mut().last().map(|f| f.as_slice().to_vec()) == want.last().cloned(), || "frames_mut().last()".into())?;
        // a history of calls from both ends against a queue
        let mut q: std::collections::VecDeque<Vec<f32>> = want.iter().cloned().collect();
        fn step<I: DoubleEndedIterator<Item = T> + ExactSizeIterator, T: AsRef<[f32]>>(it: &mut I, q: &mut std::collections::VecDeque<Vec<f32>>, op: usize, nth: usize) -> Result<(), String> {
            let (got, exp) = match op {
                0 | 1 | 2 => (it.next(), q.pop_front()),
                3 | 4 | 5 => (it.next_back(), q.pop_back()),
                6 => { for _ in 0..nth { q.pop_front(); } (it.nth(nth), q.pop_front()) }
                7 => { for _ in 0..nth { q.pop_back(); } (it.nth_back(nth), q.pop_back()) }
                _ => (None, None),
            };
            let got = got.map(|f| f.as_ref().to_vec());
            if got != exp { return Err(format!("call {} gave {:?}, expected {:?}", op, got, exp)) }
            if it.len() != q.len() || it.size_hint() != (q.len(), Some(q.len())) { return Err(format!("len {} size_hint {:?}, {} frames to come", it.len(), it.size_hint(), q.len())) }
            Ok(())
        }
        if mutable { let mut it = b.frames_mut(); for (o, k) in ops.iter().zip(&nths) { step(&mut it, &mut q, *o, *k)? } }
        else { let mut it = b.frames(); for (o, k) in ops.iter().zip(&nths) { step(&mut it, &mut q, *o, *k)? } }
        // writes through the mutable iteration land in their own frames
        for (i, mut f) in b.frames_mut().enumerate() { for (j, v) in f.as_mut_slice().iter_mut().enumerate() { *v = (i * 1000 + j) as f32 } }
        let w2: Vec<Vec<f32>> = (0..want.len()).map(|i| (0..c).map(|j| (i * 1000 + j) as f32).collect()).collect();
        ck(get(&b) == w2, || format!("after writing through frames_mut: {:?}, expected {:?}", get(&b), w2))?;
        let x = b.extract_frames();
        ck(x == w2.concat(), || format!("extract_frames gave {:?}", x))?;
        ck(b.frames().len() == 0 && b.frames().next().is_none() && b.extract_frames().is_empty(), || "frames left after extract_frames".into())?;
        ck(b.num_channels() == c, || "extract_frames changed the channels".into())
    }).and_then(|x| x);
    Some(Case { input: input.clone(), nontrivial: want.len() > 1, key: hash(input.as_bytes()), result })
}

// ---------------------------------------------------------------- C08, C09, C10: histories of cursor operations

#[derive(Clone, Debug)]
enum Op { Next, Prev, First, Last, Insert(Vec<f32>), InsertAll(Vec<Vec<f32>>, usize), Remove, RemoveAll, Shrink, Peek, PeekMut, IntoFrames, IntoFramesMut }

fn gen_op(r: &mut Rng, c: usize, stamp: &mut usize, prop: &str) -> Op {
    let mut frame = |r: &mut Rng, bad: bool| -> Vec<f32> {
        *stamp += 1;
        let n = if bad { match r.below(3) { 0 => c + 1, 1 => c.saturating_sub(1), _ => r.below(2 * c + 2) } } else { c };
        (0..n).map(|k| (*stamp * 1000 + k) as f32).collect()
    };
    let w = match prop { "C08" => [3, 12, 1], "C09" => [4, 4, 8], _ => [14, 4, 3] };
    let t: usize = w.iter().sum();
    let x = r.below(t);
    if x < w[0] {
        match r.below(if prop == "C10" { 9 } else { 5 }) { 0 => Op::Next, 1 => Op::Prev, 2 => Op::First, 3 => Op::Last, 4 => Op::Next, 5 | 6 => Op::Peek, 7 => Op::PeekMut, _ => if r.chance(1, 2) { Op::IntoFrames } else { Op::IntoFramesMut } }
    } else if x < w[0] + w[1] {
        if r.chance(1, 2) { let bad = r.chance(1, 5); Op::Insert(frame(r, bad)) }
        else { let n = r.range(0, 5); let bad_at = if r.chance(1, 3) { r.below(n + 1) } else { n + 1 }; Op::InsertAll((0..n).map(|i| frame(r, i == bad_at)).collect(), r.below(4)) }
    } else {
        match r.below(6) { 0 => Op::RemoveAll, 1 => Op::Shrink, _ => Op::Remove }
    }
}

/// An iterator with a size hint of its own making (a hint need not be right).
struct Hinted<'a> { v: &'a [Vec<f32>], k: usize, hint: usize }
impl<'a> Iterator for Hinted<'a> {
    type Item = &'a [f32];
    fn next(&mut self) -> Option<&'a [f32]> { self.k += 1; self.v.get(self.k - 1).map(|x| &x[..]) }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.hint { 1 => (0, None), 2 => (usize::MAX, None), 3 => (usize::MAX / 2, None), _ => (self.v.len() - self.k.min(self.v.len()), None) } }
}

struct Model { frames: Vec<Vec<f32>>, at: usize, c: usize }

pub fn cursor(prop: &str, gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    let (c, n, ops) = if gen == "grid" {
        // every size x position with a single operation
        let (c, rest) = (k % 4, k / 4);
        let (n, rest) = (rest % 5, rest / 5);
        let (pos, rest) = (rest % 6, rest / 6);
        let nops = 14;
        let op = rest % nops;
        if rest >= nops { return None }
        let (c, n) = (c as usize + if prop == "C10" { 0 } else { 0 }, n as usize);
        let f = |i: usize| -> Vec<f32> { (0..c).map(|k| (9000 + i * 10 + k) as f32).collect() };
        let mut ops: Vec<Op> = (0..pos).map(|_| Op::Next).collect();
        ops.push(match op {
            0 => Op::Insert(f(0)), 1 => Op::InsertAll(vec![f(0), f(1), f(2)], 0), 2 => Op::Remove, 3 => Op::RemoveAll, 4 => Op::Peek, 5 => Op::PeekMut, 6 => Op::IntoFrames, 7 => Op::IntoFramesMut,
            8 => Op::Insert(vec![0.0; c + 1]), 9 => Op::Prev, 10 => Op::First, 11 => Op::Last,
            12 => Op::InsertAll(vec![f(0), vec![1.0; c + 2], f(1)], 1), _ => Op::InsertAll(vec![f(0); 2], 2),
        });
        ops.push(Op::Peek);
        ops.push(Op::Insert(f(5)));
        if op == 2 || op == 3 { ops.push(Op::Remove) }
        (c, n, ops)
    } else {
        let c = if r.chance(1, 12) { 0 } else { r.range(1, 7) };
        let n = r.range(0, 8);
        let mut stamp = 0;
        let m = r.range(1, 25);
        (c, n, (0..m).map(|_| gen_op(r, c, &mut stamp, prop)).collect::<Vec<_>>())
    };
    let init = if c == 0 { vec![] } else { rows(c, n, 7) };
    let mut b = bvh_with(c, &init);
    let input = format!("{} channels, frames {:?}, then {:?}", c, init, ops);
    let frame_time = Duration::from_millis(100);
    let mut touched = false;
    let result = guard(|| -> Result<(), String> {
        let mut m = Model { frames: init.clone(), at: 0, c };
        let mut i = 0;
        while i < ops.len() {
            // one cursor lives until an operation consumes it
            let mut cur: FrameCursor = b.frame_cursor();
            if cur.index() != 0 { return Err(format!("a new cursor is at {}", cur.index())) }
            // bring the fresh cursor to the model's position
            for _ in 0..m.at { cur.move_next(); }
            if cur.index() != m.at { return Err(format!("cursor at {} after {} steps", cur.index(), m.at)) }
            while i < ops.len() {
                let op = &ops[i];
                i += 1;
                let len = m.frames.len();
                let consumed = match op {
                    Op::Next => { m.at = (m.at + 1).min(len); let x = cur.move_next().index(); ck(x == m.at, || format!("{:?}: cursor at {}, expected {}", op, x, m.at))?; false }
                    Op::Prev => { m.at = m.at.saturating_sub(1); let x = cur.move_prev().index(); ck(x == m.at, || format!("{:?}: cursor at {}, expected {}", op, x, m.at))?; false }
                    Op::First => { m.at = 0; let x = cur.move_first().index(); ck(x == m.at, || format!("{:?}: cursor at {}, expected {}", op, x, m.at))?; false }
                    Op::Last => { m.at = len; let x = cur.move_last().index(); ck(x == m.at, || format!("{:?}: cursor at {}, expected {}", op, x, m.at))?; false }
                    Op::Insert(f) => {
                        touched = true;
                        let ok = cur.try_insert_frame(&f[..]).is_ok();
                        ck(ok == (f.len() == m.c), || format!("{:?}: accepted = {}", op, ok))?;
                        if ok && m.c > 0 { m.frames.insert(m.at, f.clone()); m.at += 1; }
                        false
                    }
                    Op::InsertAll(fs, h) => {
                        touched = true;
                        let ok = cur.try_insert_frames(Hinted { v: fs, k: 0, hint: *h }).is_ok();
                        let good = fs.iter().take_while(|f| f.len() == m.c).count();
                        ck(ok == (good == fs.len()), || format!("{:?}: accepted = {}", op, ok))?;
                        for f in &fs[..good] { if m.c > 0 { m.frames.insert(m.at, f.clone()); m.at += 1; } }
                        false
                    }
                    Op::Remove => {
                        touched = true;
                        let ok = cur.remove_frame().is_ok();
                        ck(ok == (m.at < len), || format!("remove_frame: accepted = {}, {} frames, cursor {}", ok, len, m.at))?;
                        if ok { m.frames.remove(m.at); }
                        false
                    }
                    Op::RemoveAll => { touched = true; cur.remove_all_frames(); m.frames.clear(); m.at = 0; false }
                    Op::Shrink => { cur.shrink_to_fit(); false }
                    Op::Peek => {
                        let (p, x) = (cur.peek_prev().map(|f| f.as_slice().to_vec()), cur.peek_next().map(|f| f.as_slice().to_vec()));
                        let (wp, wx) = (if m.at > 0 { m.frames.get(m.at - 1).cloned() } else { None }, m.frames.get(m.at).cloned());
                        ck(p == wp && x == wx, || format!("peek: {:?} / {:?}, expected {:?} / {:?}", p, x, wp, wx))?;
                        let (sp, sx) = cur.surrounding_frames();
                        let (sp, sx) = (sp.map(|f| f.as_slice().to_vec()), sx.map(|f| f.as_slice().to_vec()));
                        ck(sp == wp && sx == wx, || format!("surrounding_frames: {:?} / {:?}, expected {:?} / {:?}", sp, sx, wp, wx))?;
                        false
                    }
                    Op::PeekMut => {
                        let (wp, wx) = (if m.at > 0 { m.frames.get(m.at - 1).cloned() } else { None }, m.frames.get(m.at).cloned());
                        let p = cur.peek_prev_mut().map(|mut f| { let v = f.as_slice().to_vec(); f.as_mut_slice()[0] += 1.0; v });
                        ck(p == wp, || format!("peek_prev_mut: {:?}, expected {:?}", p, wp))?;
                        if p.is_some() { m.frames[m.at - 1][0] += 1.0 }
                        let x = cur.peek_next_mut().map(|mut f| { let v = f.as_slice().to_vec(); f.as_mut_slice()[0] += 2.0; v });
                        ck(x == wx, || format!("peek_next_mut: {:?}, expected {:?}", x, wx))?;
                        if x.is_some() { m.frames[m.at][0] += 2.0 }
                        false
                    }
                    Op::IntoFrames | Op::IntoFramesMut => true,
                };
                if !consumed {
                    let len = m.frames.len();
                    ck(cur.index() == m.at && cur.index() <= len, || format!("after {:?}: cursor at {}, expected {} of {}", op, cur.index(), m.at, len))?;
                    ck(cur.len() == len, || format!("after {:?}: len() is {}, expected {}", op, cur.len(), len))?;
                    ck(cur.num_channels() == m.c, || format!("num_channels() is {}", cur.num_channels()))?;
                    continue;
                }
                let want: Vec<Vec<f32>> = m.frames[m.at..].to_vec();
                let via_from = i % 2 == 0;
                let got: Vec<Vec<f32>> = if matches!(op, Op::IntoFrames) {
                    let it: Frames = if via_from { Frames::from(cur) } else { cur.into_frames() };
                    ck(it.len() == want.len(), || format!("into_frames().len() is {}, expected {}", it.len(), want.len()))?;
                    it.map(|f: Frame| f.as_slice().to_vec()).collect()
                } else {
                    let it: FramesMut = if via_from { FramesMut::from(cur) } else { cur.into_frames_mut() };
                    ck(it.len() == want.len(), || format!("into_frames_mut().len() is {}, expected {}", it.len(), want.len()))?;
                    it.map(|f: FrameMut| f.as_slice().to_vec()).collect()
                };
                ck(got == want, || format!("{:?} at {}: {:?}, expected {:?}", op, m.at, got, want))?;
                break;
            }
            ck(get(&b) == m.frames && raw(&b) == m.frames.concat(), || format!("frames after {:?}: {:?}, expected {:?}", &ops[..i], raw(&b), m.frames))?;
        }
        // look at every stage again with fresh motions, so that a wrong stage is not repaired by a later one
        let mut b2 = bvh_with(c, &init);
        let mut m = Model { frames: init.clone(), at: 0, c };
        for (j, op) in ops.iter().enumerate() {
            let mut cur = b2.frame_cursor();
            for _ in 0..m.at { cur.move_next(); }
            match op {
                Op::Next => { cur.move_next(); } Op::Prev => { cur.move_prev(); } Op::First => { cur.move_first(); } Op::Last => { cur.move_last(); }
                Op::Insert(f) => { let _ = cur.try_insert_frame(f); if f.len() == m.c && m.c > 0 { m.frames.insert(m.at, f.clone()) } }
                Op::InsertAll(fs, _) => { let _ = cur.try_insert_frames(fs.iter()); let mut at = m.at; for f in fs.iter().take_while(|f| f.len() == m.c) { if m.c > 0 { m.frames.insert(at, f.clone()); at += 1 } } }
                Op::Remove => { let _ = cur.remove_frame(); if m.at < m.frames.len() { m.frames.remove(m.at); } }
                Op::RemoveAll => { cur.remove_all_frames(); m.frames.clear() }
                _ => {}
            }
            m.at = cur.index();
            ck(m.at <= m.frames.len(), || format!("cursor {} beyond {} frames", m.at, m.frames.len()))?;
            ck(raw(&b2) == m.frames.concat() && b2.frames().len() == m.frames.len(), || format!("after {:?}: {:?}, expected {:?}", &ops[..=j], raw(&b2), m.frames))?;
        }
        ck(b.num_channels() == c && *b.frame_time() == frame_time && b.joints().count() == 1, || "something else than frames changed".into())
    }).and_then(|x| x);
    Some(Case { key: hash(input.as_bytes()), nontrivial: touched || prop == "C10", input, result })
}

// ---------------------------------------------------------------- C11

pub fn c11(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    let (c, n) = if gen == "grid" { if k < 9 * 3 { ((k % 9) as usize + 1, (k / 9) as usize + 1) } else { return None } } else { (r.range(1, 14), r.range(1, 5)) };
    let mut rs = rows(c, n, 3);
    let mut b = bvh_with(c, &rs);
    let row = r.below(n);
    let (lo, hi) = (r.below(c + 2), r.below(c + 3));
    let idx = if gen == "grid" { (k as usize) % (c + 2) } else { r.below(c + 3) };
    let special = [0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, 1.0, f32::MIN_POSITIVE, -1e-45];
    let val = if r.chance(1, 2) { *r.pick(&special) } else { f32_bits(r) };
    if r.chance(1, 2) { for i in 0..c { if r.chance(1, 2) { rs[row][i] = *r.pick(&special); b.frames_mut().nth(row)?.as_mut_slice()[i] = rs[row][i] } } }
    let input = format!("{} channels, {} frames, frame {}, index {}, range {}..{}, value {:?}", c, n, row, idx, lo, hi, val);
    let result = guard(|| -> Result<(), String> {
        let chans: Vec<Channel> = b.joints().flat_map(|j| j.channels().to_vec()).collect();
        let want = &rs[row];
        {
            let f: Frame = b.frames().nth(row).unwrap();
            ck(f.len() == c && !f.is_empty() && f.as_slice() == &want[..], || "slice".into())?;
            ck(f.get(idx) == want.get(idx), || format!("get({}) is {:?}", idx, f.get(idx)))?;
            ck(f.get(lo..hi) == want.get(lo..hi), || format!("get({}..{}) is {:?}", lo, hi, f.get(lo..hi)))?;
            ck(f.get(lo..) == want.get(lo..) && f.get(..hi) == want.get(..hi) && f.get(..) == want.get(..) && f.get(lo..=hi) == want.get(lo..=hi), || "other ranges".into())?;
            for (i, ch) in chans.iter().enumerate() {
                ck(f.get(*ch) == Some(&want[i]) && f.get(ch) == Some(&want[i]) && f[ch] == want[i] && f[*ch] == want[i], || format!("channel {} reads {:?}, expected {:?}", i, f.get(ch), want[i]))?;
            }
            if lo <= hi && hi <= c { ck(f[lo..hi] == want[lo..hi], || "range index".into())? }
            if idx < c { ck(f[idx] == want[idx], || "index".into())? } else { ck(guard(|| f[idx]).is_err(), || format!("indexing with {} of {} gives a value", idx, c))? }
            let (a, bo): (&[f32], &[f32]) = (f.as_ref(), std::borrow::Borrow::borrow(&f));
            ck(a == &want[..] && bo == &want[..], || "as_ref / borrow".into())?;
        }
        {
            let mut f: FrameMut = b.frames_mut().nth(row).unwrap();
            ck(f.len() == c && f.as_slice() == &want[..], || "mutable slice".into())?;
            ck(f.get(idx) == want.get(idx) && f.get(lo..hi) == want.get(lo..hi), || "FrameMut::get".into())?;
            for (i, ch) in chans.iter().enumerate() { ck(f.get(ch) == Some(&want[i]) && f[*ch] == want[i], || format!("FrameMut channel {}", i))? }
            ck(Frame::from(&f).as_slice() == &want[..], || "Frame::from(&FrameMut)".into())?;
            let old = f.try_set_motion(idx, val);
            match (old, want.get(idx)) {
                (Ok(o), Some(w)) => ck(same_f32(o, *w), || format!("previous value {:?}, expected {:?}", o, w))?,
                (Err(SetMotionError::BadChannel(x)), None) => ck(x == idx, || format!("BadChannel({}) for {}", x, idx))?,
                (o, _) => return Err(format!("try_set_motion({}) of {} channels gave {:?}", idx, c, o)),
            }
        }
        let mut w2 = rs.clone();
        if idx < c { w2[row][idx] = val }
        ck(same_rows(&get(&b), &w2), || format!("after try_set_motion: {:?}, expected {:?}", get(&b), w2))?;
        // through a channel, through get_mut, through IndexMut
        let ci = r.below(c);
        let ch = chans[ci];
        { let mut f = b.frames_mut().nth(row).unwrap(); let o = f.try_set_motion(&ch, 1.25).unwrap(); ck(same_f32(o, w2[row][ci]), || "previous value through a channel".into())?; w2[row][ci] = 1.25; }
        ck(same_rows(&get(&b), &w2), || "after setting through a channel".into())?;
        { let mut f = b.frames_mut().nth(row).unwrap(); let cj = r.below(c); f[&chans[cj]] = 2.5; w2[row][cj] = 2.5; }
        ck(same_rows(&get(&b), &w2), || "after setting through an index".into())?;
        { let mut it = b.frames_mut(); let mut f = it.nth(row).unwrap(); match f.get_mut(idx) { Some(v) => { ck(idx < c, || "get_mut beyond the frame".into())?; *v = -3.5; w2[row][idx] = -3.5 } None => ck(idx >= c, || "get_mut gives none inside the frame".into())? } }
        ck(same_rows(&get(&b), &w2), || "after setting through get_mut".into())?;
        if lo <= hi && hi <= c {
            { let mut it = b.frames_mut(); let mut f = it.nth(row).unwrap(); if let Some(s) = f.get_mut(lo..hi) { for v in s.iter_mut() { *v = 8.0 } } }
            for v in &mut w2[row][lo..hi] { *v = 8.0 }
            ck(same_rows(&get(&b), &w2), || "after setting a range through get_mut".into())?;
        }
        { let mut f = b.frames_mut().nth(row).unwrap(); let s: &mut [f32] = f.as_mut(); s[c - 1] = 77.0; let s: &mut [f32] = std::borrow::BorrowMut::borrow_mut(&mut f); s[0] = 78.0; w2[row][c - 1] = 77.0; w2[row][0] = 78.0; }
        ck(same_rows(&get(&b), &w2), || "after setting through as_mut / borrow_mut".into())?;
        ck(b.frames_mut().nth(row).map(|f| Frame::from(f).as_slice().to_vec()) == Some(w2[row].clone()), || "Frame::from(FrameMut)".into())
    }).and_then(|x| x);
    Some(Case { key: hash(input.as_bytes()), nontrivial: c > 1, input, result })
}

// ---------------------------------------------------------------- C12

pub fn c12(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    use std::convert::TryFrom;
    let s: Vec<u8> = match gen {
        "names" => TYPES.get(k as usize)?.0.as_bytes().to_vec(),
        "near" => {
            // every change of one byte, every deletion, every insertion for each name
            let per = 9 * 256 + 9 + 10 * 256u64;
            let n = TYPES.get((k / per) as usize)?.0.as_bytes();
            let mut v = n.to_vec();
            let j = k % per;
            if j < 9 * 256 { v[(j / 256) as usize] = (j % 256) as u8 }
            else if j < 9 * 256 + 9 { v.remove((j - 9 * 256) as usize); }
            else { let q = j - 9 * 256 - 9; v.insert((q / 256) as usize, (q % 256) as u8) }
            v
        }
        _ => {
            let mut v: Vec<u8> = r.pick(&TYPES).0.as_bytes().to_vec();
            for _ in 0..r.below(4) {
                match r.below(6) {
                    0 => { let i = r.below(v.len() + 1); v.insert(i, r.next() as u8) }
                    1 => if !v.is_empty() { let i = r.below(v.len()); v.remove(i); },
                    2 => if !v.is_empty() { let i = r.below(v.len()); v[i] ^= 0x20 },
                    3 => if v.len() > 1 { let i = r.below(v.len() - 1); v.swap(i, i + 1) },
                    4 => v.extend_from_slice(r.pick(&TYPES).0.as_bytes()),
                    _ => { let n = r.below(20); v = (0..n).map(|_| r.next() as u8).collect() }
                }
            }
            v
        }
    };
    let result = guard(|| -> Result<(), String> {
        let want = TYPES.iter().find(|t| t.0.as_bytes() == &s[..]).map(|t| t.1);
        let mut all: Vec<(&str, Result<ChannelType, bvh_anim::errors::ParseChannelError>)> = vec![("from_bytes", ChannelType::from_bytes(&s[..])), ("from_bytes(&Vec)", ChannelType::from_bytes(&s)), ("try_from", ChannelType::try_from(&s[..]))];
        if let Ok(t) = std::str::from_utf8(&s) { all.push(("try_from(str)", ChannelType::try_from(t))); all.push(("parse", t.parse())); all.push(("from_bytes(str)", ChannelType::from_bytes(t))) }
        for (n, g) in all {
            match (g, want) {
                (Ok(x), Some(w)) if x == w => {}
                (Err(e), None) => { let v = e.into_inner(); ck(v == s, || format!("{}: the error holds {:?}", n, show(&v)))? }
                (g, w) => return Err(format!("{}: {:?}, expected {:?}", n, g, w)),
            }
        }
        if let Some(t) = want {
            let (name, _) = TYPES.iter().find(|x| x.1 == t).unwrap();
            ck(t.as_str() == *name && t.to_string() == *name, || format!("as_str {:?}", t.as_str()))?;
            let rot = name.ends_with("rotation");
            ck(t.is_rotation() == rot && t.is_position() == !rot, || format!("{}: is_rotation {}, is_position {}", name, t.is_rotation(), t.is_position()))?;
            let (ax, v, l) = match name.as_bytes()[0] { b'X' => (Axis::X, [1.0, 0.0, 0.0], "x"), b'Y' => (Axis::Y, [0.0, 1.0, 0.0], "y"), _ => (Axis::Z, [0.0, 0.0, 1.0], "z") };
            ck(t.axis() == ax, || format!("{}: axis {:?}", name, t.axis()))?;
            ck(t.axis().vector() == v && ax.vector() == v, || format!("{}: vector {:?}", name, t.axis().vector()))?;
            ck(ax.to_string() == l, || format!("axis text {}", ax))?;
        }
        Ok(())
    }).and_then(|x| x);
    Some(Case { key: hash(&s), nontrivial: s.len() > 3, input: show(&s), result })
}

// ---------------------------------------------------------------- C13

pub fn c13(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    if gen == "empty" {
        if k > 0 { return None }
        let result = guard(|| {
            let mut b = Bvh::new();
            ck(b.root_joint().is_none() && b.joints().next().is_none() && b.joints_mut().next().is_none() && b.joints().find_by_name("x").is_none(), || "an empty skeleton has a joint".into())
        }).and_then(|x| x);
        return Some(Case { key: 0, nontrivial: false, input: "Bvh::new()".into(), result });
    }
    let (mut m, _) = if gen == "small" { let m = small(k)?; (m, vec![]) } else { let sh = shape(r); (gen_motion(r, &sh), vec![0u8]) };
    if gen != "small" && r.chance(1, 2) {
        // equal names
        fn rename(j: &mut MJoint, r: &mut Rng) { j.name = r.pick(&[&b"a"[..], b"b", b"ab", b"c"]).to_vec(); for c in &mut j.children { rename(c, r) } }
        rename(&mut m.root, r);
    }
    let text = render(&m, &plain(), r);
    let want = m.flat_joints();
    let probe: Vec<u8> = if r.chance(1, 2) { r.pick(&want).name.clone() } else { gen_name(r, false) };
    let skip = r.below(4);
    let result = guard(|| -> Result<(), String> {
        let mut b = load(&text).map_err(|e| err_text(&e))?;
        let js: Vec<_> = b.joints().collect();
        ck(js.len() == want.len(), || format!("{} joints, expected {}", js.len(), want.len()))?;
        for (i, j) in js.iter().enumerate() {
            ck(j.index() == i && j.name() == &want[i].name[..], || format!("joint {} is {:?} with index {}", i, show(j.name()), j.index()))?;
            let kids: Vec<usize> = j.children().map(|c| c.index()).collect();
            let wk: Vec<usize> = (0..want.len()).filter(|&x| want[x].parent == Some(i)).collect();
            ck(kids == wk, || format!("children of joint {}: {:?}, expected {:?}", i, kids, wk))?;
            ck(j.children().map(|c| c.name().to_vec()).collect::<Vec<_>>() == wk.iter().map(|&x| want[x].name.clone()).collect::<Vec<_>>(), || format!("names of the children of {}", i))?;
            ck(j.parent_index() == want[i].parent && j.parent().map(|p| (p.index(), p.name().to_vec())) == want[i].parent.map(|p| (p, want[p].name.clone())), || format!("parent of joint {} is {:?}, expected {:?}", i, j.parent_index(), want[i].parent))?;
            // a child's name below this joint
            let got = j.children().find_by_name(&probe[..]).map(|x| x.index());
            let exp = wk.iter().copied().find(|&x| want[x].name == probe);
            ck(got == exp, || format!("find_by_name among the children of {}: {:?}, expected {:?}", i, got, exp))?;
            for c in j.children() { ck(c.parent_index() == Some(i) && c.parent().map(|p| p.index()) == Some(i), || format!("child {} of {} has parent {:?}", c.index(), i, c.parent_index()))? }
        }
        let root = b.root_joint();
        ck(root.as_ref().map(|j| j.index()) == Some(0) && root.as_ref().map(|j| j.is_root()) == Some(true) && root.map(|j| j.name().to_vec()) == Some(want[0].name.clone()), || "root_joint()".into())?;
        let got = b.joints().find_by_name(&probe[..]).map(|x| x.index());
        let exp = want.iter().position(|x| x.name == probe);
        ck(got == exp, || format!("find_by_name({:?}): {:?}, expected {:?}", show(&probe), got, exp))?;
        // the search goes on from where the iterator stands
        let mut it = b.joints();
        for _ in 0..skip { it.next(); }
        let got = it.find_by_name(&probe[..]).map(|x| x.index());
        let exp = (skip.min(want.len())..want.len()).find(|&x| want[x].name == probe);
        ck(got == exp, || format!("find_by_name({:?}) after {} joints: {:?}, expected {:?}", show(&probe), skip, got, exp))?;
        if let Some(e) = exp { ck(it.next().map(|x| x.index()) == if e + 1 < want.len() { Some(e + 1) } else { None }, || "the iterator after find_by_name".into())? }
        let n = b.joints_mut().count();
        ck(n == want.len(), || format!("joints_mut() yields {} joints, expected {}", n, want.len()))?;
        let mut it = b.joints_mut();
        for _ in 0..want.len() { ck(it.next().is_some(), || "joints_mut() ends early".into())? }
        ck(it.next().is_none() && it.next().is_none(), || "joints_mut() yields too many".into())?;
        ck(b.joints().count() == want.len(), || "joints changed".into())?;
        let mut it = b.joints();
        while it.next().is_some() {}
        ck(it.next().is_none(), || "joints() yields after the end".into())
    }).and_then(|x| x);
    Some(Case { key: hash(&text) ^ hash(&probe), nontrivial: want.len() > 2, input: format!("find {:?} in {}", show(&probe), show(&text)), result })
}
