"""Are the contracts satisfiable?  Every function and lemma of the generated file gets `assert(false)` at its end (and at
its returns): an end which Verus accepts is one that no execution reaches, so that the function's contract says nothing.
check.py --tier thorough runs this next to the proof."""
import re
import rtok

START = {"fn", "proof", "spec", "pub", "open", "closed", "uninterp", "broadcast", "axiom", "exec", "#", "struct", "enum", "impl", "trait", "type", "const", "use", "mod", "assume_specification", "}", "unsafe"}

def functions(text):
    """-> [(name, mode, body open index, body close index)] in tokens; bodies of exec and proof functions"""
    toks = rtok.lex(text)
    out, i = [], 0
    while i < len(toks):
        if toks[i].t != "fn" or toks[i + 1].k != "id":
            i += 1
            continue
        name = toks[i + 1].t
        k, quals = i - 1, []
        while k >= 0 and toks[k].t in ("pub", "open", "closed", "proof", "spec", "exec", "axiom", "uninterp", "broadcast", "const", "unsafe", ")", "(", "crate", "checked"):
            quals.append(toks[k].t); k -= 1
        ext = False
        while k >= 0 and toks[k].t == "]":
            j = k
            while toks[j].t != "#": j -= 1
            if any(x.t in ("external_body", "external") for x in toks[j:k]): ext = True
            k = j - 1
        j, body, ret = i + 2, None, ""
        while j < len(toks):
            t = toks[j].t
            if t == ";": break
            if t == "-" and toks[j + 1].t == ">" and not ret:
                r, e = j + 2, len(toks)
                if toks[r].t == "(" and toks[r + 2].t == ":": e = rtok.match_close(toks, r); r += 3
                if toks[r].t == "&" and e < len(toks): ret = ": " + text[toks[r].s:toks[e].s]
            if t in ("(", "[", "{"):
                e = rtok.match_close(toks, j)
                if t == "{" and (e + 1 >= len(toks) or toks[e + 1].t in START): body = (j, e); break
                j = e
            elif t == "}": break
            j += 1
        if name != "main" and body and not ext and not ({"spec", "axiom", "uninterp"} & set(quals)):
            out.append((name, "proof" if "proof" in quals else "exec", body[0], body[1], ret))
            i = body[1]
        i += 1
    return toks, out

def inject(text):
    """-> (text, [(name, first line, last line)])"""
    toks, fns = functions(text)
    ed = []
    for name, mode, a, b, ret in fns:
        ed.append((toks[a].e, " let vx_ret%s = {" % ret))
        ed.append((toks[b].s, "}; assert(false); vx_ret "))
        dep = 0
        for q in range(a, b):
            if toks[q].t == "return" and toks[q + 1].t != ";":
                e = q + 1
                while e < b and toks[e].t not in (";", ",", "}"):
                    e = rtok.match_close(toks, e) if toks[e].t in ("(", "[", "{") else e
                    e += 1
                ed.append((toks[q].e, " { let vx_r = "))
                ed.append((toks[e - 1].e, "; assert(false); vx_r }"))
    out, p = [], 0
    for s, x in sorted(ed, key=lambda z: z[0]):
        out += [text[p:s], x]; p = s
    out.append(text[p:])
    line = lambda off: text.count("\n", 0, off) + 1
    return "".join(out), [(n, m, line(toks[a].s), line(toks[b].e)) for n, m, a, b, _ in fns]

if __name__ == "__main__":
    import sys
    t, f = inject(open(sys.argv[1]).read())
    open(sys.argv[2], "w").write(t)
    print(len(f))
