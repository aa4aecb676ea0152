"""macro_rules! invocations that make items (impl_from!, impl_as_ref! ...): expanded as rustc does, first arm that matches.
Source.file("src/x.rs!") is the text of all items which the item macros of src/x.rs make."""
import rtok

class NoExp(Exception):
    pass

def arms(toks, it):
    i = it.body[0]
    e = rtok.match_close(toks, i)
    k, out = i + 1, []
    while k < e:
        pe = rtok.match_close(toks, k)
        if not (toks[pe + 1].t == "=" and toks[pe + 2].t == ">"): raise NoExp("arm")
        be = rtok.match_close(toks, pe + 3)
        out.append((toks[k + 1:pe], toks[pe + 4:be]))
        k = be + 1
        if k < e and toks[k].t == ";": k += 1
    return out

def tree(ts, i):
    """end of the token tree at i"""
    return rtok.match_close(ts, i) + 1 if ts[i].t in rtok.OPEN and ts[i].k == "p" else i + 1

STOP = {"ty": {"{", "=", ",", ";", ":", "|", ">", "[", "(", "as", "where"}, "path": {"{", "=", ",", ";", "|", "[", "(", "as", "where"}, "expr": {",", ";"}}
def fragment(kind, ts, i):
    if i >= len(ts): return None
    if kind == "tt": return tree(ts, i)
    if kind == "ident": return i + 1 if ts[i].k == "id" else None
    if kind == "lifetime": return i + 1 if ts[i].k == "life" else None
    if kind == "literal":
        if ts[i].t == "-": i += 1
        return i + 1 if i < len(ts) and (ts[i].k in ("num", "str", "char") or ts[i].t in ("true", "false")) else None
    if kind == "block": return tree(ts, i) if ts[i].t == "{" else None
    if kind in STOP:
        j, dep = tree(ts, i), (1 if ts[i].t == "<" else 0)
        while j < len(ts):
            if ts[j].t == "<": dep += 1
            elif ts[j].t == ">" and dep > 0: dep -= 1
            elif dep == 0 and ts[j].t in STOP[kind] and not (ts[j].t == ":" and j + 1 < len(ts) and ts[j + 1].t == ":" or ts[j - 1].t == ":") and not (kind == "ty" and ts[j - 1].t in ("&", "mut", "dyn") or ts[j - 1].k == "life"): break
            j = tree(ts, j)
        return j
    raise NoExp("fragment " + kind)

def match(pat, ts, i, b):
    """matches pat against ts[i:]; -> end or None"""
    k = 0
    while k < len(pat):
        t = pat[k]
        if t.t == "$" and pat[k + 1].t == "(":
            e = rtok.match_close(pat, k + 1)
            inner = pat[k + 2:e]
            k = e + 1
            sep = None
            if pat[k].t not in "*+?": sep = pat[k].t; k += 1
            op = pat[k].t; k += 1
            reps = []
            while True:
                j = i
                if reps and sep is not None:
                    if j < len(ts) and ts[j].t == sep: j += 1
                    else: break
                if j >= len(ts): break
                bb = {}
                r = match(inner, ts, j, bb)
                if r is None: break
                reps.append(bb); i = r
                if op == "?": break
            if op == "+" and not reps: return None
            names = [inner[q + 1].t for q in range(len(inner) - 1) if inner[q].t == "$" and inner[q + 1].k == "id"]
            for n in names: b[n] = ("many", [x[n] for x in reps])
            continue
        if t.t == "$":
            r = fragment(pat[k + 3].t, ts, i)
            if r is None: return None
            b[pat[k + 1].t] = ("one", ts[i:r]); i = r; k += 4
            continue
        if t.t in rtok.OPEN and t.k == "p":
            if i >= len(ts) or ts[i].t != t.t: return None
            e, f = rtok.match_close(pat, k), rtok.match_close(ts, i)
            inner = ts[i + 1:f]
            r = match(pat[k + 1:e], inner, 0, b)
            if r != len(inner): return None
            k, i = e + 1, f + 1
            continue
        if i >= len(ts) or ts[i].t != t.t: return None
        i += 1; k += 1
    return i

def transcribe(body, b):
    out, k = [], 0
    while k < len(body):
        t = body[k]
        if t.t == "$" and body[k + 1].t == "(":
            e = rtok.match_close(body, k + 1)
            inner = body[k + 2:e]
            k = e + 1
            sep = None
            if body[k].t not in "*+?": sep = body[k]; k += 1
            k += 1
            used = [inner[q + 1].t for q in range(len(inner) - 1) if inner[q].t == "$" and b.get(inner[q + 1].t, ("",))[0] == "many"]
            if not used: raise NoExp("repetition without variable")
            for n in range(len(b[used[0]][1])):
                bb = dict(b)
                for u in used: bb[u] = b[u][1][n]
                if sep and n: out.append(sep)
                out += transcribe(inner, bb)
            continue
        if t.t == "$" and body[k + 1].t == "crate": out.append(body[k + 1]); k += 2; continue
        if t.t == "$":
            v = b.get(body[k + 1].t)
            if not v or v[0] != "one": raise NoExp("variable " + body[k + 1].t)
            out += v[1]; k += 2
            continue
        out.append(t); k += 1
    return out

def glue(toks):
    """tokens -> text; what stood together (::, ->, ..) stays together"""
    out = ""
    for a, t in zip([None] + toks[:-1], toks):
        out += ("" if a is None or (a.k == t.k == "p" and a.e == t.s) else " ") + t.t
    return out

def expand_items(toks):
    """text of the items made by the item macros of this file"""
    top = rtok.items(toks, 0, len(toks))
    defs = {x.key.split()[-1]: arms(toks, x) for x in top if x.kind == "macro"}
    out = []
    def call(name, args, depth):
        if depth > 64: raise NoExp("recursion")
        for pat, body in defs[name]:
            b = {}
            if match(pat, args, 0, b) == len(args):
                ts = rtok.lex(glue(transcribe(body, b)))
                for x in rtok.items(ts, 0, len(ts)):
                    if x.kind == "maccall" and x.key.split()[-1] in defs:
                        i = x.body[0]
                        call(x.key.split()[-1], ts[i + 1:rtok.match_close(ts, i)], depth + 1)
                    else: out.append(glue(ts[x.a:x.b]))
                return
        raise NoExp("no arm of %s matches" % name)
    for x in top:
        if x.kind == "maccall" and x.key.split()[-1] in defs:
            i = x.body[0]
            call(x.key.split()[-1], toks[i + 1:rtok.match_close(toks, i)], 0)
    return "\n".join(out)

if __name__ == "__main__":
    import sys
    print(expand_items(rtok.lex(open(sys.argv[1]).read())))
