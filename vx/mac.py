"""macro_rules! -> one function per macro, which does what the expansion of a call does.

A macro call's tokens are a ghost sequence (Tok: identifier, literal, punctuation, braced group; a literal with its minus
sign is one token).  `fn m_NAME(builder, toks)` tests the arms in order; the first whose pattern the tokens match is run:
its transcriber, with the pattern's variables bound to their tokens.  What happens at compile time (matching, $variables,
repetition) is ghost: `vx_when` is the compiler's decision, `vx_stringify`, `vx_f32` ... are what rustc makes of a token.
  NAME!(builder args)      -> m_NAME(builder, Ghost(args))      compile_error!(..)  -> vx_compile_error()
  stringify!($x)           -> vx_stringify(Ghost(x))            assert_eq!(a, b)    -> vx_assert((a) == (b))
  f32::from($x), f64::from($x), $x as usize -> vx_f32(Ghost(x)), vx_f64(Ghost(x)), vx_usize(Ghost(x))
  [ $( f32::from($x) ),+ ] -> vx_all_f32(Ghost(x))              $( statements )*    -> while over the repetitions
`use` declarations and `$crate::` are dropped.  Anything else: not extractable."""
import re
import rtok

class MacLost(Exception):
    pass

def arms_of(toks, it):
    i, e = it.body
    e = rtok.match_close(toks, i)
    k, out = i + 1, []
    while k < e:
        pe = rtok.match_close(toks, k)
        if not (toks[pe + 1].t == "=" and toks[pe + 2].t == ">"): raise MacLost("macro arm")
        be = rtok.match_close(toks, pe + 3)
        out.append((toks[k + 1:pe], toks[pe + 4:be]))
        k = be + 1
        if k < e and toks[k].t == ";": k += 1
    return out

def pattern(ts):
    """-> list of elements: (kw, text) (num, text) (colon,) (var, name, frag) (group, elems) (rep, elems, op)"""
    out, k = [], 0
    while k < len(ts):
        t = ts[k]
        if t.t == "$" and ts[k + 1].t == "(":
            e = rtok.match_close(ts, k + 1)
            if e + 1 >= len(ts) or ts[e + 1].t not in "*+": raise MacLost("macro repetition")
            out.append(("rep", pattern(ts[k + 2:e]), ts[e + 1].t)); k = e + 2
            continue
        if t.t == "$":
            if ts[k + 2].t != ":": raise MacLost("macro variable")
            out.append(("var", ts[k + 1].t, ts[k + 3].t)); k += 4
            continue
        if t.t == "{" and t.k == "p":
            e = rtok.match_close(ts, k)
            out.append(("group", pattern(ts[k + 1:e]))); k = e + 1
            continue
        if t.k == "id": out.append(("kw", t.t))
        elif t.k == "num" and t.t.isdigit(): out.append(("num", t.t))
        elif t.t == ":": out.append(("colon",))
        else: raise MacLost("macro pattern: " + t.t)
        k += 1
    return out

def fixed_cond(el, x, binds, prefix=""):
    """conditions on the token expression x; binds: (name, expression, kind)"""
    if el[0] == "kw": return ["%s == kw_%s()" % (x, el[1])]
    if el[0] == "num": return ["%s == n_%s()" % (x, el[1])]
    if el[0] == "colon": return ["%s == p_colon()" % x]
    if el[0] == "var":
        binds.append((el[1], x, "one"))
        if el[2] == "ident": return ["%s is Id" % x]
        if el[2] == "literal": return ["%s is Lit" % x]
        if el[2] == "tt": return []
        raise MacLost("fragment " + el[2])
    if el[0] == "group":
        return ["%s is Group" % x] + seq_cond(el[1], "%s->Group_0" % x, binds, None)
    raise MacLost("macro pattern")

def seq_cond(elems, x, binds, reps):
    """conditions on the token sequence x"""
    tail = elems[-1] if elems and elems[-1][0] == "rep" else None
    head = elems[:-1] if tail else elems
    n = len(head)
    cs = ["%s.len() %s %d" % (x, ">=" if tail else "==", n)]
    for i, el in enumerate(head): cs += fixed_cond(el, "%s[%d]" % (x, i), binds)
    if tail:
        inner = tail[1]
        if any(e[0] == "rep" for e in inner): raise MacLost("nested macro repetition")
        m = len(inner)
        if inner[0][0] == "var" and m == 1:
            if inner[0][2] != "tt":
                if reps is None: raise MacLost("macro repetition in a group")
                cs += ["all_%s(%s.skip(%d))" % (inner[0][2], x, n)]
            if tail[2] == "+": cs += ["%s.len() > %d" % (x, n)]
            binds.append((inner[0][1], "%s.skip(%d)" % (x, n) if n else x, "many"))
        else:
            if reps is None or n or tail[2] != "*": raise MacLost("macro repetition")
            b = []
            ic = [c for j, el in enumerate(inner) for c in fixed_cond(el, "t[%d]" % j, b)]
            reps.append((m, [(nm, re.sub(r"^t\[", "at_rep(%s, %d, vx_i)[" % (x, m), ex), k) for nm, ex, k in b]))
            cs += ["all_reps(%s, %d, |t: Seq<Tok>| %s)" % (x, m, " && ".join(ic))]
    return cs

def seq_expr(ts, env):
    """tokens of a call -> ghost sequence expression"""
    parts, run, k = [], [], 0
    def flush():
        nonlocal run
        if run: parts.append("seq![" + ", ".join(run) + "]"); run = []
    while k < len(ts):
        t = ts[k]
        if t.t == "$" and ts[k + 1].t == "(":
            e = rtok.match_close(ts, k + 1)
            inner = ts[k + 2:e]
            if not (len(inner) == 2 and inner[0].t == "$" and env.get(inner[1].t) == "many" and ts[e + 1].t == "*"): raise MacLost("repetition in a macro call")
            flush(); parts.append(inner[1].t); k = e + 2
            continue
        if t.t == "$":
            if env.get(ts[k + 1].t) != "one": raise MacLost("variable in a macro call")
            run.append(ts[k + 1].t); k += 2
            continue
        if t.t == "{" and t.k == "p":
            e = rtok.match_close(ts, k)
            run.append("Tok::Group(%s)" % seq_expr(ts[k + 1:e], env)); k = e + 1
            continue
        if t.k == "id": run.append("kw_" + t.t)
        elif t.k == "num" and t.t.isdigit(): run.append("n_" + t.t)
        elif t.t == ":": run.append("p_colon")
        else: raise MacLost("token in a macro call: " + t.t)
        run[-1] += "()"
        k += 1
    flush()
    return " + ".join(parts) or "Seq::<Tok>::empty()"

def call_args(ts, env, name):
    """arguments of a call of one of our macros: -> (builder expression or None, sequence)"""
    b, k = None, 0
    if ts and ts[0].t == "$" and env.get(ts[1].t) == "builder": b, k = "builder", 2
    elif len(ts) > 1 and ts[0].k == "id" and (ts[1].t in ("(", ";")): b, k = "&mut " + ts[0].t, 1
    if b:
        if k < len(ts) and ts[k].t == ";": k += 1
        elif k < len(ts) and ts[k].t == "(" and rtok.match_close(ts, k) == len(ts) - 1: return b, seq_expr(ts[k + 1:-1], env)
        else: raise MacLost("arguments of " + name)
    return b, seq_expr(ts[k:], env)

def body_text(ts, env, macros, reps):
    """the transcriber as statements"""
    out, k = [], 0
    def is_(p, *ws): return all(p + q < len(ts) and ts[p + q].t == w for q, w in enumerate(ws))
    while k < len(ts):
        t = ts[k]
        if is_(k, "$", "crate", ":", ":"): k += 4; continue
        if t.k == "id" and t.t == "use":
            while ts[k].t != ";": k += 1
            k += 1
            continue
        if t.k == "id" and is_(k + 1, "!") and ts[k + 2].t in ("(", "{", "["):
            e = rtok.match_close(ts, k + 2)
            inner = ts[k + 3:e]
            if t.t == "compile_error": out.append("vx_compile_error()")
            elif t.t == "stringify" and len(inner) == 2 and inner[0].t == "$" and env.get(inner[1].t) == "one": out.append("vx_stringify(Ghost(%s))" % inner[1].t)
            elif t.t == "assert_eq":
                dep, c = 0, None
                for q, x in enumerate(inner):
                    if x.k == "p" and x.t in rtok.OPEN: dep += 1
                    if x.k == "p" and x.t in rtok.CLOSE: dep -= 1
                    if x.t == "," and dep == 0: c = q; break
                if c is None: raise MacLost("assert_eq")
                out.append("vx_assert((%s) == (%s))" % (body_text(inner[:c], env, macros, reps), body_text(inner[c + 1:], env, macros, reps)))
            elif t.t in macros:
                b, s = call_args(inner, env, t.t)
                call = "m_%s(%sGhost(%s))" % (t.t, b + ", " if b else "", s if s.isidentifier() else "vx_t")
                out.append(call if s.isidentifier() else "{ let ghost vx_t = %s; %s }" % (s, call))
            else: raise MacLost("macro call of " + t.t)
            k = e + 1
            continue
        if t.t in ("f32", "f64") and is_(k + 1, ":", ":", "from", "(", "$") and is_(k + 7, ")") and env.get(ts[k + 6].t) == "one":
            out.append("vx_%s(Ghost(%s))" % (t.t, ts[k + 6].t)); k += 8
            continue
        if t.t == "$" and k + 1 < len(ts) and env.get(ts[k + 1].t) == "builder": out.append("builder"); k += 2; continue
        if t.t == "$" and is_(k + 2, "as", "usize") and env.get(ts[k + 1].t) == "one": out.append("vx_usize(Ghost(%s))" % ts[k + 1].t); k += 4; continue
        if t.t == "[" and is_(k + 1, "$", "(", "f32", ":", ":", "from", "(", "$") and is_(k + 10, ")", ")", ",", "+", "]") and env.get(ts[k + 9].t) == "many":
            out.append("vx_all_f32(Ghost(%s))" % ts[k + 9].t); k += 15
            continue
        if t.t == "$" and is_(k + 1, "("):
            e = rtok.match_close(ts, k + 1)
            if not is_(e + 1, "*") or not reps: raise MacLost("repetition")
            m, b = reps[0]
            env2 = dict(env)
            for nm, ex, kind in b: env2[nm] = kind
            out.append("let ghost mut vx_i: int = 0; while vx_when(Ghost(vx_i < toks.len() / %d)) { " % m + " ".join("let ghost %s = %s;" % (nm, ex) for nm, ex, _ in b) +
                       " " + body_text(ts[k + 2:e], env2, macros, []) + " proof { vx_i = vx_i + 1; } }")
            k = e + 2
            continue
        if t.t == "$": raise MacLost("$ in a transcriber: " + " ".join(x.t for x in ts[k:k + 4]))
        if k and ts[k - 1].e == t.s and out and out[-1] == ts[k - 1].t and t.k == "p" and ts[k - 1].k == "p": out[-1] += t.t
        else: out.append(t.t)
        k += 1
    s = ""
    for x in out:
        if s and (s[-1:] in "(.&!:" and s[-2:] != "; " or x[:1] in ".,;:)(?" and not s.endswith(" ") or (s[-1:].isalnum() and x[:1] == "(")): s += x
        else: s += " " + x
    return s.strip()

def macro_fn(toks, it, name, macros):
    body = []
    builder = False
    for n, (pat, tr) in enumerate(arms_of(toks, it)):
        env = {}
        if len(pat) >= 4 and pat[0].t == "$" and pat[1].t != "(" and pat[3].t in ("ident", "expr") and len(pat) > 4 and pat[4].t in (";", "("):
            builder = True
            env[pat[1].t] = "builder"
            if pat[4].t == ";": pat = pat[5:]
            elif rtok.match_close(pat, 4) == len(pat) - 1: pat = pat[5:-1]
            else: raise MacLost("macro arm")
        elif builder: raise MacLost("macro arms of several forms")
        binds, reps = [], []
        cs = seq_cond(pattern(pat), "toks", binds, reps)
        for nm, ex, kind in binds: env[nm] = kind
        body.append("let ghost vx_m = %s;\nif vx_when(Ghost(vx_m)) {\n    %s\n    return { %s };\n}" % (" && ".join(cs), " ".join("let ghost %s = %s;" % (nm, ex) for nm, ex, _ in binds), body_text(tr, env, macros, reps)))
    ret = "" if builder else " -> Bvh"
    return "fn m_%s(%sGhost(toks): Ghost<Seq<Tok>>)%s {\n%s\nvx_no_arm()\n}" % (name, "builder: &mut BvhLiteralBuilder, " if builder else "", ret, "\n".join(body))
