//! C14, C15, C16, C19: writing.
use crate::edit::*;
use crate::load::*;
use crate::model::*;
use crate::util::*;
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
use bvh_anim::Bvh;
use std::io::{self, Write};
use std::time::Duration;

fn ck(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> { if ok { Ok(()) } else { Err(what()) } }

pub fn gen_opts(r: &mut Rng, precision: bool) -> WriteOptions {
    let p = |r: &mut Rng| if precision && r.chance(1, 2) { Some(*r.pick(&[0usize, 1, 2, 3, 6, 9, 20])) } else { None };
    let mut o = WriteOptions::new();
    o.indent = match r.below(4) { 0 => IndentStyle::NoIndentation, 1 => IndentStyle::Tabs, _ => IndentStyle::with_spaces(r.range(1, 9)) };
    o.line_terminator = if r.chance(1, 2) { LineTerminator::Unix } else { LineTerminator::Windows };
    o.offset_significant_figures = p(r);
    o.frame_time_significant_figures = p(r);
    o.motion_values_significant_figures = p(r);
    o
}
/// A motion which was loaded and perhaps edited, with what it should hold.
pub fn gen_bvh(gen: &str, k: u64, r: &mut Rng) -> Option<(Bvh, FlatMotion, String)> {
    let (m, t) = good(gen, k, r)?;
    let mut w = m.flat();
    let mut b = load(&t).ok()?;
    let mut how = show(&t);
    if gen != "small" && r.chance(1, 2) {
        let c = w.num_channels;
        for _ in 0..r.range(1, 4) {
            match r.below(5) {
                0 => { let d = Duration::new(r.below(1 << 19) as u64, r.below(1_000_000_000) as u32); b.set_frame_time(d); w.frame_time = d; how.push_str(&format!(" set_frame_time {:?}", d)) }
                1 if c > 0 && !w.values.is_empty() => {
                    let i = r.below(w.values.len());
                    let v = match r.below(8) { 0 => f32::NAN, 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, 3 => -0.0, 4 => f32::from_bits(r.below(1 << 23) as u32), _ => f32_bits(r) };
                    b.frames_mut().nth(i / c)?.as_mut_slice()[i % c] = v;
                    w.values[i] = v;
                    how.push_str(&format!(" value {} = {:?}", i, v))
                }
                2 if c > 0 => {
                    let f: Vec<f32> = (0..c).map(|_| f32_bits(r)).collect();
                    let at = r.below(w.num_frames() + 1);
                    { let mut cu = b.frame_cursor(); for _ in 0..at { cu.move_next(); } cu.try_insert_frame(&f[..]).ok()?; }
                    let at = at * c;
                    for (i, v) in f.iter().enumerate() { w.values.insert(at + i, *v) }
                    how.push_str(&format!(" insert {:?} at {}", f, at))
                }
                3 if c > 0 && w.num_frames() > 0 => {
                    let at = r.below(w.num_frames());
                    { let mut cu = b.frame_cursor(); for _ in 0..at { cu.move_next(); } cu.remove_frame().ok()?; }
                    w.values.drain(at * c..(at + 1) * c);
                    how.push_str(&format!(" remove {}", at))
                }
                _ => {}
            }
        }
    }
    // what the rest of the library reads is what is written; do not blame the writer for a wrong load
    let mut seen = observe(&b);
    for (j, x) in seen.joints.iter_mut().zip(&w.joints) { j.depth = x.depth }
    if seen.joints.len() != w.joints.len() { return None }
    if seen.joints.iter().zip(&w.joints).any(|(a, b)| a.parent != b.parent) { return None }
    Some((b, seen, how))
}

fn split_lines<'a>(t: &'a [u8], term: &[u8]) -> Result<Vec<&'a [u8]>, String> {
    let mut out = vec![];
    let mut s = 0;
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(term) { out.push(&t[s..i]); i += term.len(); s = i; continue }
        if t[i] == b'\n' || t[i] == b'\r' { return Err(format!("a line break which is not the chosen terminator, in line {}", out.len())) }
        i += 1;
    }
    if s != t.len() { return Err("the last line has no terminator".into()) }
    Ok(out)
}
enum Tok { Lit(Vec<u8>), F(f32, Option<usize>), T(Duration, Option<usize>) }
fn l(s: &str) -> Tok { Tok::Lit(s.as_bytes().to_vec()) }

/// The lines which the text must have: depth and tokens.
fn expected(w: &FlatMotion, o: &WriteOptions) -> Vec<(usize, Vec<Tok>)> {
    let mut out = vec![(0, vec![l("HIERARCHY")])];
    let of = |x: &[f32; 3]| { let p = o.offset_significant_figures; vec![l("OFFSET"), Tok::F(x[0], p), Tok::F(x[1], p), Tok::F(x[2], p)] };
    fn joint(i: usize, d: usize, w: &FlatMotion, of: &dyn Fn(&[f32; 3]) -> Vec<Tok>, out: &mut Vec<(usize, Vec<Tok>)>) {
        let j = &w.joints[i];
        out.push((d, vec![l(if i == 0 { "ROOT" } else { "JOINT" }), Tok::Lit(j.name.clone())]));
        out.push((d, vec![l("{")]));
        out.push((d + 1, of(&j.offset)));
        let mut ch = vec![l("CHANNELS"), l(&j.channels.len().to_string())];
        for c in &j.channels { ch.push(l(TYPES.iter().find(|t| t.1 == c.0).unwrap().0)) }
        out.push((d + 1, ch));
        if let Some(e) = &j.end_site { out.push((d + 1, vec![l("End"), l("Site")])); out.push((d + 1, vec![l("{")])); out.push((d + 2, of(e))); out.push((d + 1, vec![l("}")])) }
        for c in 0..w.joints.len() { if w.joints[c].parent == Some(i) { joint(c, d + 1, w, of, out) } }
        out.push((d, vec![l("}")]));
    }
    if !w.joints.is_empty() { joint(0, 0, w, &of, &mut out) }
    out.push((0, vec![l("MOTION")]));
    out.push((0, vec![l("Frames:"), l(&w.num_frames().to_string())]));
    out.push((0, vec![l("Frame"), l("Time:"), Tok::T(w.frame_time, o.frame_time_significant_figures)]));
    for f in 0..w.num_frames() { out.push((0, (0..w.num_channels).map(|k| Tok::F(w.values[f * w.num_channels + k], o.motion_values_significant_figures)).collect())) }
    out
}
fn tok_ok(t: &[u8], w: &Tok) -> bool {
    let s = std::str::from_utf8(t);
    match w {
        Tok::Lit(x) => &x[..] == t,
        Tok::F(x, Some(p)) => s == Ok(&format!("{:.*}", *p, x)),
        Tok::F(x, None) => s.ok().and_then(|s| s.parse::<f32>().ok()).map_or(false, |y| same_f32(*x, y)) && t.len() <= format!("{}", x).len(),
        Tok::T(d, Some(p)) => s == Ok(&format!("{:.*}", *p, d.as_secs_f64())),
        Tok::T(d, None) => s.ok().and_then(|s| s.parse::<f64>().ok()).map_or(false, |y| y.to_bits() == d.as_secs_f64().to_bits()) && t.len() <= format!("{}", d.as_secs_f64()).len(),
    }
}
fn tok_text(w: &Tok) -> String { match w { Tok::Lit(x) => show(x), Tok::F(x, p) => format!("{:?} (precision {:?})", x, p), Tok::T(d, p) => format!("{:?} (precision {:?})", d, p) } }
fn indent_of(o: &WriteOptions, d: usize) -> Vec<u8> {
    match o.indent { IndentStyle::NoIndentation => vec![], IndentStyle::Tabs => vec![b'\t'; d], IndentStyle::Spaces(n) => vec![b' '; d * n.get()] }
}
fn term_of(o: &WriteOptions) -> &'static [u8] { match o.line_terminator { LineTerminator::Unix => b"\n", LineTerminator::Windows => b"\r\n" } }

fn check_text(t: &[u8], w: &FlatMotion, o: &WriteOptions) -> Result<(), String> {
    let lines = split_lines(t, term_of(o))?;
    let want = expected(w, o);
    for (i, x) in lines.iter().enumerate() {
        let (d, toks) = match want.get(i) { Some(x) => x, None => return Err(format!("line {} is too many: {:?}", i, show(x))) };
        let ind = x.iter().take_while(|c| **c == b' ' || **c == b'\t').count();
        if x[..ind] != indent_of(o, *d)[..] { return Err(format!("line {} is indented by {:?}, its depth is {}: {:?}", i, show(&x[..ind]), d, show(x))) }
        let got: Vec<&[u8]> = x[ind..].split(|c| *c == b' ').filter(|x| !x.is_empty()).collect();
        if got.len() != toks.len() || !got.iter().zip(toks).all(|(a, b)| tok_ok(a, b)) {
            return Err(format!("line {} is {:?}, expected {}", i, show(x), toks.iter().map(tok_text).collect::<Vec<_>>().join(" ")))
        }
    }
    if lines.len() != want.len() { return Err(format!("{} lines, expected {}", lines.len(), want.len())) }
    Ok(())
}

pub fn c14(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    let (b, w, how) = guard(|| gen_bvh(gen, k, r)).ok()??;
    let o = gen_opts(r, true);
    let mut key = hash(how.as_bytes());
    let result = guard(|| { let t = o.write_to_string(&b); key ^= hash(&t); check_text(&t, &w, &o)?; let t = b.to_string(); check_text(&t, &w, &WriteOptions::default()) }).and_then(|x| x);
    Some(Case { input: format!("{:?} writing {}", o, how), nontrivial: w.joints.len() > 1, key, result })
}

pub fn c15(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    let (b, w, how) = guard(|| gen_bvh(gen, k, r)).ok()??;
    let prec = r.chance(1, 4);
    let o = gen_opts(r, prec);
    let result = guard(|| -> Result<(), String> {
        let t = o.write_to_string(&b);
        let b2 = load(&t).map_err(|e| format!("the written text does not load: {}: {}", err_text(&e), show(&t)))?;
        if !prec { return same_motion(&b2, &b).map_err(|e| format!("{}: {}", e, show(&t))) }
        // what was not rounded is the same, what was rounded is the rounded number
        let x = observe(&b2);
        ck(x.joints.len() == w.joints.len() && x.num_channels == w.num_channels && x.values.len() == w.values.len(), || "sizes".into())?;
        let rnd = |v: f32, p: Option<usize>| -> f32 { match p { None => v, Some(p) => format!("{:.*}", p, v).parse().unwrap() } };
        for (i, (a, e)) in x.joints.iter().zip(&w.joints).enumerate() {
            let p = o.offset_significant_figures;
            ck(a.name == e.name && a.parent == e.parent && a.channels == e.channels && a.end_site.is_some() == e.end_site.is_some(), || format!("joint {}", i))?;
            ck((0..3).all(|q| same_f32(a.offset[q], rnd(e.offset[q], p))), || format!("offset of joint {}: {:?} from {:?}", i, a.offset, e.offset))?;
            if let (Some(y), Some(z)) = (&a.end_site, &e.end_site) { ck((0..3).all(|q| same_f32(y[q], rnd(z[q], p))), || format!("end site of joint {}", i))? }
        }
        for (a, e) in x.values.iter().zip(&w.values) { ck(same_f32(*a, rnd(*e, o.motion_values_significant_figures)), || format!("value {:?} from {:?}", a, e))? }
        match o.frame_time_significant_figures { None => ck(x.frame_time == w.frame_time, || "frame time".into()), Some(p) => ck(x.frame_time == Duration::from_secs_f64(format!("{:.*}", p, w.frame_time.as_secs_f64()).parse().unwrap()), || format!("frame time {:?} from {:?}", x.frame_time, w.frame_time)) }
    }).and_then(|x| x);
    Some(Case { input: format!("{:?} writing {}", o, how), nontrivial: w.joints.len() > 1, key: hash(how.as_bytes()) ^ hash(format!("{:?}", o).as_bytes()), result })
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
enum Act { All, Some(usize), Interrupt, Fail(io::ErrorKind), Zero }
struct Sink { acts: Vec<Act>, k: usize, got: Vec<u8>, flushed_at: Option<usize>, flush_fail: Option<io::ErrorKind>, failed: Option<io::ErrorKind>, wrote_after_flush: bool, flushed_once: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let a = self.acts.get(self.k).cloned().unwrap_or(Act::All);
        self.k += 1;
        let n = match a {
            Act::All => b.len(),
            Act::Some(n) => n.min(b.len()),
            Act::Interrupt => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
            Act::Fail(k) => { self.failed.get_or_insert(k); return Err(io::Error::new(k, "the sink failed")) }
            Act::Zero => { self.failed.get_or_insert(io::ErrorKind::WriteZero); return Ok(0) }
        };
        self.flushed_at = None;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fail == Some(io::ErrorKind::Interrupted) && self.flushed_once { self.flush_fail = None; self.failed = None }
        self.flushed_once = true;
        if let Some(k) = self.flush_fail { self.failed.get_or_insert(k); return Err(io::Error::new(k, "the sink failed")) }
        self.flushed_at = Some(self.got.len());
        Ok(())
    }
}
pub fn c16(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    let (b, _, how) = if r.chance(1, 30) { (Bvh::new(), FlatMotion { joints: vec![], num_channels: 0, frame_time: Duration::default(), values: vec![] }, "Bvh::new()".to_string()) } else { guard(|| gen_bvh("random", k, r)).ok()?? };
    let o = gen_opts(r, true);
    let kinds = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::PermissionDenied, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::InvalidInput];
    let mut acts: Vec<Act> = vec![];
    let n = r.range(0, 60);
    for _ in 0..n { acts.push(match r.below(6) { 0 => Act::All, 1 => Act::Interrupt, 2 => Act::Some(1), _ => Act::Some(r.range(1, 9)) }) }
    match gen { "short" => {}, "fail" => { let at = r.below(n + 1); acts.truncate(at); acts.push(if r.chance(1, 6) { Act::Zero } else { Act::Fail(*r.pick(&kinds)) }) }, _ => { let m = r.below(3); acts.truncate(m) } }
    let flush_fail = if gen == "flush" || (gen == "fail" && r.chance(1, 4)) { Some(if r.chance(1, 6) { io::ErrorKind::Interrupted } else { *r.pick(&kinds) }) } else { None };
    let entry = r.below(3);
    let input = format!("sink {:?} flush {:?} (then accepting all), {:?} writing {}", acts, flush_fail, o, how);
    let result = guard(|| -> Result<(), String> {
        let text = if entry == 1 { b.to_string() } else { o.write_to_string(&b) };
        let mut s = Sink { acts, k: 0, got: vec![], flushed_at: None, flush_fail, failed: None, wrote_after_flush: false, flushed_once: false };
        let res = match entry { 1 => b.write_to(&mut s), 2 => { let mut d: &mut dyn Write = &mut s; o.write(&b, &mut d) } _ => o.write(&b, &mut s) };
        let _ = s.wrote_after_flush;
        ck(text.starts_with(&s.got), || format!("delivered {:?} which is no prefix of {:?}", show(&s.got), show(&text)))?;
        match (res, s.failed) {
            (Ok(()), None) => { ck(s.got == text, || format!("success, but only {} of {} bytes delivered", s.got.len(), text.len()))?; ck(s.flushed_at == Some(text.len()), || "success without a final flush".into()) }
            (Ok(()), Some(k)) => Err(format!("success although the sink failed with {:?}", k)),
            (Err(e), None) => Err(format!("an error {:?} although the sink did not fail", e)),
            (Err(e), Some(k)) => ck(e.kind() == k && (k == io::ErrorKind::WriteZero || e.to_string() == "the sink failed"), || format!("the sink failed with {:?}, writing returned {:?}", k, e)),
        }
    }).and_then(|x| x);
    Some(Case { key: hash(input.as_bytes()), nontrivial: n > 0, input, result })
}

// ---------------------------------------------------------------- C19

pub fn c19(gen: &str, k: u64, r: &mut Rng) -> Option<Case> {
    if gen == "setters" {
        let o = gen_opts(r, true);
        let p = gen_opts(r, true);
        let which = r.below(5);
        let input = format!("setter {} with {:?} on {:?}", which, p, o);
        let result = guard(|| -> Result<(), String> {
            let got = match which {
                0 => o.clone().with_indent(p.indent.clone()),
                1 => o.clone().with_line_terminator(p.line_terminator),
                2 => o.clone().with_offset_significant_figures(p.offset_significant_figures),
                3 => o.clone().with_frame_time_significant_figures(p.frame_time_significant_figures),
                _ => o.clone().with_motion_values_significant_figures(p.motion_values_significant_figures),
            };
            let mut w = o.clone();
            match which { 0 => w.indent = p.indent.clone(), 1 => w.line_terminator = p.line_terminator, 2 => w.offset_significant_figures = p.offset_significant_figures, 3 => w.frame_time_significant_figures = p.frame_time_significant_figures, _ => w.motion_values_significant_figures = p.motion_values_significant_figures }
            ck(got.indent == w.indent && got.line_terminator == w.line_terminator && got.offset_significant_figures == w.offset_significant_figures && got.frame_time_significant_figures == w.frame_time_significant_figures && got.motion_values_significant_figures == w.motion_values_significant_figures, || format!("{:?}, expected {:?}", got, w))?;
            let n = r.below(6);
            let s = IndentStyle::with_spaces(n);
            ck(match s { IndentStyle::NoIndentation => n == 0, IndentStyle::Spaces(x) => x.get() == n, _ => false }, || format!("with_spaces({}) is {:?}", n, s))?;
            ck(WriteOptions::new() == WriteOptions::default(), || "new() and default() differ".into())?;
            let d = WriteOptions::new();
            ck(d.indent == IndentStyle::Tabs && IndentStyle::default() == IndentStyle::Tabs && d.line_terminator == LineTerminator::native() && d.offset_significant_figures.is_none() && d.frame_time_significant_figures.is_none() && d.motion_values_significant_figures.is_none(), || format!("defaults {:?}", d))?;
            ck(LineTerminator::native() == if cfg!(windows) { LineTerminator::Windows } else { LineTerminator::Unix } && LineTerminator::default() == LineTerminator::native(), || "native terminator".into())?;
            for (t, s, e) in [(LineTerminator::Unix, "\n", "\\n"), (LineTerminator::Windows, "\r\n", "\\r\\n")] {
                ck(t.as_str() == s && t.as_bytes() == s.as_bytes() && t.to_string() == s && t.as_escaped_str() == e && t.as_escaped_bytes() == e.as_bytes(), || format!("{:?}", t))?;
            }
            Ok(())
        }).and_then(|x| x);
        return Some(Case { key: hash(input.as_bytes()), nontrivial: true, input, result });
    }
    // the effect of each option on the text
    let (b, w, how) = guard(|| gen_bvh("random", k, r)).ok()??;
    let o = gen_opts(r, true);
    let q = gen_opts(r, true);
    let input = format!("{:?} against {:?} writing {}", o, q, how);
    let result = guard(|| -> Result<(), String> {
        let t = o.write_to_string(&b);
        check_text(&t, &w, &o)?;
        let lines = |t: &[u8], o: &WriteOptions| -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> { Ok(split_lines(t, term_of(o))?.into_iter().map(|x| { let i = x.iter().take_while(|c| **c == b' ' || **c == b'\t').count(); (x[..i].to_vec(), x[i..].to_vec()) }).collect()) };
        let base = lines(&t, &o)?;
        for which in 0..5 {
            let p = match which {
                0 => o.clone().with_indent(q.indent.clone()),
                1 => o.clone().with_line_terminator(q.line_terminator),
                2 => o.clone().with_offset_significant_figures(q.offset_significant_figures),
                3 => o.clone().with_frame_time_significant_figures(q.frame_time_significant_figures),
                _ => o.clone().with_motion_values_significant_figures(q.motion_values_significant_figures),
            };
            let other = lines(&p.write_to_string(&b), &p)?;
            ck(other.len() == base.len(), || format!("option {} changes the number of lines", which))?;
            let rows = base.len() - w.num_frames();
            for (i, (x, y)) in base.iter().zip(&other).enumerate() {
                if which != 0 { ck(x.0 == y.0, || format!("option {} changes the indentation of line {}", which, i))? }
                let may = match which { 2 => x.1.starts_with(b"OFFSET "), 3 => i == rows - 1, 4 => i >= rows, _ => false };
                if !may { ck(x.1 == y.1, || format!("option {} changes line {}: {:?} / {:?}", which, i, show(&x.1), show(&y.1)))? }
            }
        }
        Ok(())
    }).and_then(|x| x);
    Some(Case { key: hash(input.as_bytes()), nontrivial: w.joints.len() > 1, input, result })
}
#[allow(dead_code)]
fn _unused() { let _ = bvh_with; }
