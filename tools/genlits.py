#!/usr/bin/env python3
"""Writes the bvh! literals of the C17 check: genlits.py SEED COUNT OUT.rs
Every literal is emitted twice: as macro input and as the same text in a string."""
import random, sys
T = ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"]

def num(r):
    return r.choice(["0.0", "-0.0", "1.5", "-2.25", "0.1", "-0.3", "100.0", "3.4028235e38", "1e-3", "-1.5e10", "16777217.0", "1e-45", "0.033333333",
                     "%d.%d" % (r.randrange(1000), r.randrange(100000)), "-%d.%04d" % (r.randrange(400), r.randrange(10000)), "%.6f" % r.uniform(-360, 360)])

def joint(r, names, depth, kw, shape, out, chans):
    # shape: (number of channels, end site?, [children])
    nch, site, kids = shape
    pad = "    " * depth
    out.append(pad + kw + " " + next(names))
    out.append(pad + "{")
    out.append(pad + "    OFFSET %s %s %s" % (num(r), num(r), num(r)))
    cs = [r.choice(T) for _ in range(nch)]
    chans[0] += nch
    out.append(pad + "    CHANNELS %d %s" % (nch, " ".join(cs)))
    if site:
        out.append(pad + "    End Site")
        out.append(pad + "    {")
        out.append(pad + "        OFFSET %s %s %s" % (num(r), num(r), num(r)))
        out.append(pad + "    }")
    for k in kids: joint(r, names, depth + 1, "JOINT", k, out, chans)
    out.append(pad + "}")

def gen_names(r):
    k = 0
    while True:
        k += 1
        yield r.choice(["J%d" % k, "Joint_%d" % k, "_x%d" % k, "Hips", "a", "LeftArm", "OFFSETS", "End", "Site", "JOINT", "ROOT", "CHANNELS", "MOTION"])

def rnd_shape(r, depth, budget):
    budget[0] -= 1
    kids = []
    if depth < 6:
        while budget[0] > 0 and r.random() < 0.62: kids.append(rnd_shape(r, depth + 1, budget))
    return (r.choice([0, 1, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9]), (not kids) and r.random() < 0.7, kids)

def chain(n):
    s = (1, True, [])
    for i in range(n): s = (i % 10, False, [s])
    return s

def main(seed, count, path):
    r = random.Random(seed)
    shapes = []
    for n in range(10):                       # each number of channels, on the root and below it, with and without End Site
        shapes.append(((n, True, []), 2))
        shapes.append(((n, False, []), 1))
        shapes.append(((2, False, [(n, True, []), (n, False, []), (3, False, [(n, True, [])])]), 2))
    shapes.append((chain(6), 2))
    shapes.append(((3, False, [(1, True, [])] * 5 + [(0, False, [(2, False, [(1, True, []), (1, False, [])])])] + [(4, True, [])]), 3))
    while len(shapes) < count:
        b = [r.randrange(1, 9)]
        shapes.append((rnd_shape(r, 0, b), r.randrange(0, 4)))
    fns, calls = [], []
    for i, (s, frames) in enumerate(shapes):
        out, ch = ["HIERARCHY"], [0]
        joint(r, gen_names(r), 0, "ROOT", s, out, ch)
        if ch[0] == 0: frames = 0
        out += ["MOTION", "Frames: %d" % frames, "Frame Time: %s" % r.choice(["0.033333333", "0.5", "1.0", "0.0", "0.016666666666666666", "2.000000001", "%.9f" % r.random()])]
        for _ in range(frames): out.append(" ".join(num(r) for _ in range(ch[0])))
        text = "\n".join(out) + "\n"
        fns.append("fn m%d() -> Bvh { bvh! {\n%s} }\nconst T%d: &str = r#\"%s\"#;\n" % (i, text, i, text))
        calls.append("(m%d as fn() -> Bvh, T%d)" % (i, i))
    open(path, "w").write("\n".join(fns) + "\npub const CASES: &[(fn() -> Bvh, &str)] = &[%s];\n" % ", ".join(calls))

if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3])
