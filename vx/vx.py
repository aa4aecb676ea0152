"""Mechanical extraction of /repo/src functions into one Verus file.

The contract files (contracts/*.vrs) hold, per function, the source text of the function as it was when
the contract was written, with two kinds of marks:
    ⟦ text ⟧               inserted text (contract, invariant, hint); not part of the source
    ⟦~ source ~> text ⟧    a rewrite: these source tokens are emitted as text
Everything else is the *baseline*.  On every run the current source tokens of the function are aligned
with the baseline tokens; the marks are carried over to the current tokens and everything that is not a
mark is emitted from the CURRENT source.  A mark whose place no longer exists, or a rewrite whose source
tokens changed, makes the function "not extractable" - it is then not verified (and never assumed
verified): it is emitted as an external body with its contract and reported as undecided.
"""
import difflib, glob, hashlib, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtok, mac, mexp

class Lost(Exception):
    pass

def bytes_lit(t):
    """Value of a b"..." / bs"..." token."""
    body = t[t.index('"') + 1:-1]
    out, i = [], 0
    esc = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}
    while i < len(body):
        c = body[i]
        if c == "\\":
            if body[i + 1] == "x":
                out.append(int(body[i + 2:i + 4], 16)); i += 4; continue
            if body[i + 1] == "\n":
                i += 2
                while i < len(body) and body[i] in " \t\n\r": i += 1
                continue
            out.append(esc[body[i + 1]]); i += 2
        else:
            out += c.encode(); i += 1
    return out

def ghost_lits(text):
    """bs"..." -> seq![..u8] in annotation text"""
    return re.sub(r'\bbs"((?:\\.|[^"\\])*)"',
                  lambda m: "seq![" + ", ".join("%du8" % b for b in bytes_lit(m.group(0))) + "]", text)

class Block:
    def __init__(self, kind, path=None, where=""):
        self.kind, self.path, self.where = kind, path, where
        self.d = {}          # directives
        self.text = ""
        self.lines = None    # (first, last) line in the output
        self.status = None
        self.note = ""
    @property
    def props(self):
        return [x for x in self.d.get("props", "").split() if x[0] != "?"]
    def serves(self, pid, needs=()):
        """1: this block is about the property; 2: the property's proof rests on it (a failure there leaves the property undecided)"""
        return 1 if pid in self.props else 2 if "?" + pid in self.d.get("props", "").split() or any(p in needs for p in self.props) else 0
    @property
    def is_fn(self):
        return self.kind == "item" and (self.path[-1].startswith("fn ") or "macro" in self.d)
    @property
    def name(self):
        return self.d.get("name") or " :: ".join(self.path)

def parse_contracts(files):
    blocks = []
    for f in files:
        cur = None
        for ln, line in enumerate(open(f, encoding="utf8").read().split("\n")):
            if line.startswith("//@"):
                m = re.match(r"//@(\w+)\s*(.*)$", line)
                k, v = m.group(1), m.group(2).strip()
                if k == "raw":
                    cur = Block("raw", [os.path.basename(f)], f"{f}:{ln+1}"); blocks.append(cur)
                elif k == "item":
                    cur = Block("item", [x.strip() for x in v.split("|")], f"{f}:{ln+1}"); blocks.append(cur)
                elif k in ("cut", "expand", "subst", "need"):
                    cur.d.setdefault(k, []).append(v)
                else:
                    cur.d[k] = v
            elif cur is not None:
                cur.text += line + "\n"
    return blocks

def parse_marks(text):
    """-> baseline tokens, ops: list of (i, j, text) with i==j for insertions (before baseline token i)"""
    toks = rtok.lex(text)
    base, ops, k = [], [], 0
    while k < len(toks):
        t = toks[k]
        if t.k == "mark":
            if t.t == "⟧": raise SyntaxError("stray ⟧ line %d: %s" % (t.line, text[:80]))
            e = k + 1
            while toks[e].k != "mark": e += 1
            if toks[e].t != "⟧": raise SyntaxError("nested ⟦ line %d" % toks[e].line)
            raw = text[t.e:toks[e].s]
            if raw.startswith("~"):
                if "~>" not in raw: raise SyntaxError("rewrite without ~>: " + raw)
                a, b = raw[1:].split("~>", 1)
                src = rtok.lex(a)
                ops.append((len(base), len(base) + len(src), b))
                base += src
            else:
                ops.append((len(base), len(base), raw))
            k = e + 1
        else:
            base.append(t); k += 1
    return base, ops

def strip_noise(toks):
    """Drop attributes, visibility and `const` before fn. Raises Lost on cfg attributes."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "#" and t.k == "p" and i + 1 < len(toks) and toks[i + 1].t in ("[", "!"):
            j = i + 1 + (toks[i + 1].t == "!")
            if toks[j].t == "[":
                k = rtok.match_close(toks, j)
                if toks[j + 1].t in ("cfg", "cfg_attr", "path"):
                    raise Lost("conditional compilation inside the item")
                i = k + 1
                continue
        if t.t == "pub" and t.k == "id":
            i += 1
            if toks[i].t == "(" and toks[i + 1].t in ("crate", "super", "self", "in"):
                i = rtok.match_close(toks, i) + 1
            continue
        if t.t == "const" and i + 1 < len(toks) and toks[i + 1].t == "fn":
            i += 1
            continue
        out.append(t); i += 1
    return out

def dep_path(repo, f):
    """dep:std/...: the sources of the standard library which the compiler here is built from; dep:NAME/...: the crate NAME in cargo's cache"""
    top, rest = f.split("/", 1)
    if top == "std":
        root = subprocess.run(["rustc", "--print", "sysroot"], cwd=repo, capture_output=True, text=True).stdout.strip()
        return os.path.join(root, "lib/rustlib/src/rust/library", rest)
    try: vers = re.findall(r'name = "%s"\nversion = "([^"]*)"' % top, open(os.path.join(repo, "Cargo.lock")).read())
    except OSError: vers = []
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    for v in vers or ["*"]:
        got = sorted(glob.glob(os.path.join(home, "registry/src/*", "%s-%s" % (top, v), rest)))
        if got: return got[-1]
    raise OSError("no source of %s" % top)

class Source:
    def __init__(self, repo):
        self.repo, self.cache = repo, {}
    def file(self, f):
        if f not in self.cache:
            # "src/x.rs!": the items which the item macros of src/x.rs make
            src = open(dep_path(self.repo, f[4:]) if f.startswith("dep:") else os.path.join(self.repo, f.rstrip("!")), encoding="utf8").read()
            if f.endswith("!"):
                try: src = mexp.expand_items(rtok.lex(src))
                except (mexp.NoExp, IndexError, KeyError, ValueError, TypeError) as e: raise Lost("item macros: %s" % e)
            self.cache[f] = (src, rtok.lex(src))
        return self.cache[f]
    def find(self, path):
        """-> (src text, tokens, Item, enclosing Item or None)"""
        f = path[0]
        try:
            src, toks = self.file(f)
        except (OSError, rtok.LexError) as e:
            raise Lost(f"cannot read {f}: {e}")
        a, b, encl, it = 0, len(toks), None, None
        for comp in path[1:]:
            want = rtok.norm(rtok.lex(comp))
            if it is not None and it.kind == "fn":
                # nested item: scan the body for it
                found = None
                for p in range(it.body[0] + 1, it.body[1]):
                    if toks[p].t == comp.split()[0] or (comp.startswith("macro ") and toks[p].t == "macro_rules"):
                        got = rtok.items(toks, p, it.body[1] - 1)[:1]
                        if got and got[0].key == want and got[0].a == p:
                            found = got[0]; break
            elif it is not None and it.kind == "macro":
                found = None
                for p in range(it.body[0] + 1, it.body[1]):
                    if toks[p].t in ("impl", "fn"):
                        got = rtok.items(toks, p, it.body[1] - 1)[:1]
                        if got and got[0].key == want:
                            found = got[0]; break
            else:
                c = [x for x in rtok.items(toks, a, b) if x.key == want]
                if not c and comp.startswith("impl"):
                    # several impl blocks may carry the method; tolerate a renamed lifetime/generic header
                    want2 = re.sub(r"'\s*\w+", "'_", want)
                    c = [x for x in rtok.items(toks, a, b) if re.sub(r"'\s*\w+", "'_", x.key) == want2]
                if len(c) > 1 and comp is not path[-1]:
                    nxt = rtok.norm(rtok.lex(path[path.index(comp) + 1]))
                    c = [x for x in c if any(y.key == nxt for y in rtok.items(toks, x.body[0] + 1, x.body[1] - 1))] or c
                found = c[0] if c else None
            if found is None:
                raise Lost(f"no `{comp}` in {' | '.join(path[:path.index(comp)])}")
            encl, it = it, found
            a, b = it.body[0] + 1, it.body[1] - 1
            if any(x.startswith("# [ cfg (" if f.startswith("dep:") else "# [ cfg") for x in it.attrs):
                raise Lost("item is conditionally compiled")
        return src, toks, it, encl

def simple_macro(toks, it):
    """A macro_rules with one arm and plain parameters: -> (param names, body tokens)."""
    i, e = it.body
    i += 1
    pe = rtok.match_close(toks, i)
    params, k = [], i + 1
    lits = []
    while k < pe:
        if toks[k].t == "$":
            params.append(toks[k + 1].t); k += 4
        else:
            lits.append(toks[k].t); k += 1
    if any(l != "," for l in lits): raise Lost("macro pattern too complex")
    k = pe + 1
    if not (toks[k].t == "=" and toks[k + 1].t == ">"): raise Lost("macro arm")
    be = rtok.match_close(toks, k + 2)
    rest = [t.t for t in toks[be + 1:e - 1] if t.t not in (";", "}", ")")]
    if rest: raise Lost("macro with several arms")
    return params, toks[k + 3:be]

def preprocess(toks, it, blk):
    """Tokens of the item after cut / expand / attribute stripping."""
    if "macro" in blk.d:
        try: return rtok.lex(mac.macro_fn(toks, it, it.key.split()[-1], {x.key.split()[-1] for x in rtok.items(toks, 0, len(toks)) if x.kind == "macro"}))
        except (mac.MacLost, IndexError, KeyError, ValueError, AttributeError, TypeError) as e: raise Lost("macro: %s" % e)
        except (IndexError, rtok.LexError) as e: raise Lost("macro: %r" % e)
    ts = toks[it.a:it.b]
    def sub_items(name):
        for p in range(it.body[0] + 1, it.body[1]):
            if toks[p].k == "id" and toks[p].t in ("fn", "const", "enum", "struct", "macro_rules", "static"):
                got = rtok.items(toks, p, it.body[1] - 1)[:1]
                if got and got[0].key == name and got[0].a == p: return got[0]
        return None
    drop = []
    macros = {}
    for name in blk.d.get("cut", []):
        x = sub_items(rtok.norm(rtok.lex(name)))
        if x is None: raise Lost(f"no inner `{name}` to hoist")
        drop.append((x.a, x.b))
    for name in blk.d.get("expand", []):
        x = sub_items("macro " + name)
        if x is None: raise Lost(f"no inner macro `{name}`")
        drop.append((x.a, x.b))
        macros[name] = simple_macro(toks, x)
    out, i = [], it.a
    while i < it.b:
        d = [y for (x, y) in drop if x == i]
        if d: i = d[0]; continue
        t = toks[i]
        if t.k == "id" and t.t in macros and i + 1 < it.b and toks[i + 1].t == "!":
            e = rtok.match_close(toks, i + 2)
            args, cur, dep = [], [], 0
            for x in toks[i + 3:e]:
                if x.t in rtok.OPEN and x.k == "p": dep += 1
                if x.t in rtok.CLOSE and x.k == "p": dep -= 1
                if x.t == "," and dep == 0: args.append(cur); cur = []
                else: cur.append(x)
            if cur: args.append(cur)
            params, body = macros[t.t]
            if len(args) != len(params): raise Lost("macro arity")
            k = 0
            while k < len(body):
                if body[k].t == "$":
                    out += args[params.index(body[k + 1].t)]; k += 2
                else:
                    out.append(body[k]); k += 1
            i = e + 1
            # the invocation's own trailing `;` stays
            continue
        out.append(t); i += 1
    out = strip_noise(out)
    out = plain_asserts(out)
    if "litmatch" in blk.d: out = lit_match(out)
    if "orsplit" in blk.d: out = or_split(out)
    if "fmt" in blk.d: out = fmt_macro(out)
    subst = dict((tuple(x.t for x in rtok.lex(a)), rtok.lex(b)) for a, b in (s.split("=>", 1) for s in blk.d.get("subst", [])))
    if subst:
        res, i = [], 0
        while i < len(out):
            for pat, rep in subst.items():
                if tuple(x.t for x in out[i:i + len(pat)]) == pat:
                    res += rep; i += len(pat); break
            else:
                res.append(out[i]); i += 1
        out = res
    return out

_synth = [0]
def synth(text):
    """Tokens of a piece of text which is not in the source (adjacency inside the piece is kept)."""
    _synth[0] -= 100000
    ts = rtok.lex(text)
    for t in ts: t.s += _synth[0]; t.e += _synth[0]; t.line = 0
    return ts

def split_arms(toks, i, e):
    """arms of a match body toks[i+1:e] -> list of (pattern tokens, guard tokens or None, body tokens)"""
    arms, k = [], i + 1
    while k < e:
        pat, guard, dep = [], None, 0
        while True:
            t = toks[k]
            if t.k == "p" and t.t in rtok.OPEN: dep += 1
            if t.k == "p" and t.t in rtok.CLOSE: dep -= 1
            if dep == 0 and t.t == "=" and toks[k + 1].t == ">" and toks[k + 1].s == t.e: break
            if dep == 0 and t.t == "if" and t.k == "id" and guard is None: guard = []
            elif guard is not None: guard.append(t)
            else: pat.append(t)
            k += 1
        k += 2
        if toks[k].t == "{" and toks[k].k == "p":
            c = rtok.match_close(toks, k)
            nxt = toks[c + 1].t if c + 1 < e else ","
            if nxt in (".", "?"): raise Lost("match arm body goes on after its block")
            body = toks[k:c + 1]; k = c + 1
            if k < e and toks[k].t == ",": k += 1
        else:
            s, dep = k, 0
            while k < e:
                t = toks[k]
                if t.k == "p" and t.t in rtok.OPEN: dep += 1
                if t.k == "p" and t.t in rtok.CLOSE: dep -= 1
                if dep == 0 and t.t == ",": break
                k += 1
            body = toks[s:k]; k += 1
        arms.append((pat, guard, body))
    return arms

def is_lit(ts):
    return len(ts) == 1 and (ts[0].k == "str" or (ts[0].k == "id" and re.fullmatch(r"[A-Z][A-Z0-9_]*", ts[0].t)))

def lit_match(toks):
    """match S { LIT => A, LIT | LIT => B, x if G => C, _ => D } on strings or bytes
    -> { let vx_m = S; if vx_eq(vx_m, LIT) { A } else if .. else { D } }  (what the match means)."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t == "match":
            k, dep = i + 1, 0
            while not (toks[k].t == "{" and toks[k].k == "p" and dep == 0):
                if toks[k].k == "p" and toks[k].t in rtok.OPEN: dep += 1
                if toks[k].k == "p" and toks[k].t in rtok.CLOSE: dep -= 1
                k += 1
            e = rtok.match_close(toks, k)
            arms = split_arms(toks, k, e)
            alts = []
            for p, g, b in arms:
                a, cur = [], []
                for x in p:
                    if x.t == "|" and x.k == "p": a.append(cur); cur = []
                    else: cur.append(x)
                a.append(cur); alts.append([y for y in a if y])
            if alts and alts[0] and all(is_lit(a) for a in alts[0]):
                out += synth("{ let vx_m =") + toks[i + 1:k] + synth(";")
                closed = False
                for (p, g, b), al in zip(arms, alts):
                    b = lit_match(b)
                    if not (b and b[0].t == "{" and b[0].k == "p" and rtok.match_close(b, 0) == len(b) - 1): b = synth("{") + b + synth("}")
                    if all(is_lit(a) for a in al) and g is None:
                        c = []
                        for n, a in enumerate(al):
                            c += (synth("||") if n else []) + synth("vx_eq(vx_m,") + a + synth(")")
                        out += synth("if") + c + b + synth("else")
                    elif len(al) == 1 and len(al[0]) == 1 and al[0][0].k == "id" and al[0][0].t != "_" and g is not None:
                        x = al[0]
                        out += synth("if { let") + x + synth("= vx_m;") + g + synth("} { let") + x + synth("= vx_m;") + b + synth("} else")
                    elif len(al) == 1 and len(al[0]) == 1 and al[0][0].t == "_" and g is None:
                        out += b; closed = True; break
                    elif len(al) == 1 and len(al[0]) == 1 and al[0][0].k == "id" and g is None:
                        x = al[0]
                        out += synth("{ let") + x + synth("= vx_m;") + b + synth("}"); closed = True; break
                    else: raise Lost("match on literals with a pattern: " + join(p))
                if not closed: raise Lost("match on literals without a last arm")
                out += synth("}")
                i = e + 1
                continue
        out.append(t); i += 1
    return out

def or_split(toks):
    """match S { A | B => body } -> match S { A => { body }, B => { body } }   (where the alternatives bind by `ref mut`)"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t == "match":
            k, dep = i + 1, 0
            while not (toks[k].t == "{" and toks[k].k == "p" and dep == 0):
                if toks[k].k == "p" and toks[k].t in rtok.OPEN: dep += 1
                if toks[k].k == "p" and toks[k].t in rtok.CLOSE: dep -= 1
                k += 1
            e = rtok.match_close(toks, k)
            out += toks[i:k + 1]
            for p, g, b in split_arms(toks, k, e):
                alts, cur, dep = [], [], 0
                for x in p:
                    if x.k == "p" and x.t in rtok.OPEN: dep += 1
                    if x.k == "p" and x.t in rtok.CLOSE: dep -= 1
                    if x.t == "|" and x.k == "p" and dep == 0: alts.append(cur); cur = []
                    else: cur.append(x)
                alts = [a for a in alts + [cur] if a]
                if len(alts) < 2 or not any(x.t == "mut" for x in p): alts = [p]
                b = or_split(b)
                if not (b and b[0].t == "{" and b[0].k == "p" and rtok.match_close(b, 0) == len(b) - 1): b = synth("{") + b + synth("}")
                for a in alts:
                    out += a + (synth("if") + g if g is not None else []) + synth("=>") + b + synth(",")
            out.append(toks[e])
            i = e + 1
            continue
        out.append(t); i += 1
    return out

def split_args(toks):
    args, cur, dep = [], [], 0
    for x in toks:
        if x.k == "p" and x.t in rtok.OPEN: dep += 1
        if x.k == "p" and x.t in rtok.CLOSE: dep -= 1
        if x.k == "p" and x.t == "," and dep == 0: args.append(cur); cur = []
        else: cur.append(x)
    if cur: args.append(cur)
    return args

def fmt_macro(toks):
    """format!("lit {} {:.*}", a, p, b) -> a block which appends the pieces, in order, to a text:
    literal pieces by lit, {} and {:.} by put(&a), {:.*} and {:.N} and {:.name$} by put_prec(precision, &b)."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t == "format" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t == "(":
            e = rtok.match_close(toks, i + 2)
            args = [fmt_macro(a) for a in split_args(toks[i + 3:e])]
            if not args or len(args[0]) != 1 or args[0][0].k != "str": raise Lost("format! without a literal")
            named, pos = {}, []
            for a in args[1:]:
                if len(a) > 2 and a[0].k == "id" and a[1].t == "=" and a[2].t != "=": named[a[0].t] = a[2:]
                else: pos.append(a)
            try: body = bytes(bytes_lit(args[0][0].t)).decode("utf8")
            except Exception: raise Lost("format! literal")
            nxt = [0]
            def arg(ref):
                if ref == "":
                    nxt[0] += 1
                    if nxt[0] > len(pos): raise Lost("format! arguments")
                    return pos[nxt[0] - 1]
                if ref.isdigit():
                    if int(ref) >= len(pos): raise Lost("format! arguments")
                    return pos[int(ref)]
                return named.get(ref) or synth(ref)
            res, k, lit = synth("({ let mut vx_s = VxText::new();"), 0, ""
            def flush(lit):
                q = "".join(chr(b) if 32 <= b < 127 and b not in (34, 92) else "\\x%02x" % b for b in lit.encode())
                return synth('vx_s.lit(b"' + q + '");') if lit else []
            while k < len(body):
                c = body[k]
                if c in "{}" and body[k:k + 2] == c * 2: lit += c; k += 2; continue
                if c == "}": raise Lost("format! literal")
                if c != "{": lit += c; k += 1; continue
                z = body.index("}", k)
                m = re.fullmatch(r"\s*([A-Za-z_0-9]*)\s*(?::(.*))?", body[k + 1:z].rstrip(), re.S)
                if not m: raise Lost("format! piece " + body[k:z + 1])
                ref, spec = m.group(1), (m.group(2) or "")
                res += flush(lit); lit = ""
                if spec in ("", "."):
                    res += synth("vx_s.put(&(") + arg(ref) + synth("));")
                elif spec == ".*":
                    p = arg("")
                    res += synth("vx_s.put_prec(") + p + synth(", &(") + arg(ref) + synth("));")
                elif re.fullmatch(r"\.\d+", spec):
                    res += synth("vx_s.put_prec(" + spec[1:] + ", &(") + arg(ref) + synth("));")
                elif re.fullmatch(r"\.[A-Za-z_0-9]+\$", spec):
                    res += synth("vx_s.put_prec(") + arg(spec[1:-1]) + synth(", &(") + arg(ref) + synth("));")
                else: raise Lost("format! piece " + body[k:z + 1])
                k = z + 1
            res += flush(lit) + synth("vx_s })")
            out += res
            i = e + 1
            continue
        out.append(t); i += 1
    return out

def plain_asserts(toks):
    """assert!(c, message..) -> vx_assert(c): the message is dropped, a false condition is a failed obligation."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t in ("assert", "debug_assert") and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t == "(":
            e = rtok.match_close(toks, i + 2)
            dep, stop = 0, e
            for k in range(i + 3, e):
                if toks[k].k == "p" and toks[k].t in rtok.OPEN: dep += 1
                if toks[k].k == "p" and toks[k].t in rtok.CLOSE: dep -= 1
                if toks[k].t == "," and dep == 0: stop = k; break
            n = rtok.Tok("vx_assert", t.s, t.e, "id", t.line)
            out.append(n); out.append(toks[i + 2]); out += toks[i + 3:stop]; out.append(toks[e])
            i = e + 1
            continue
        out.append(t); i += 1
    return out

def emit_tok(t):
    if t.k == "str" and t.t.startswith('b"'):
        return "(&[" + ", ".join("%du8" % b for b in bytes_lit(t.t)) + "])"
    return t.t

def join(toks):
    """Source tokens back to text. Adjacent tokens stay adjacent, anything else gets one blank."""
    out = ""
    prev = None
    for t in toks:
        if prev is not None and not (prev.e == t.s and prev.line == t.line):
            out += "\n" if t.line > prev.line and t.t not in ("{",) else " "
        out += emit_tok(t)
        prev = t
    return out

KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while dyn async await".split())

def weave(base, ops, cur):
    """Carry the marks over from base tokens to cur tokens. -> text, info"""
    bt, ct = [t.t for t in base], [t.t for t in cur]
    exact = bt == ct
    m = [None] * (len(bt) + 1)
    rename = {}
    if exact:
        m = list(range(len(bt) + 1))
    else:
        sm = difflib.SequenceMatcher(None, bt, ct, autojunk=False)
        cnt = {}
        for tag, a1, a2, b1, b2 in sm.get_opcodes():
            if tag == "equal":
                for k in range(a2 - a1): m[a1 + k] = b1 + k
            elif tag == "replace" and a2 - a1 == b2 - b1:
                for k in range(a2 - a1):
                    x, y = base[a1 + k], cur[b1 + k]
                    if x.k == "id" and y.k == "id" and x.t not in KEYWORDS and y.t not in KEYWORDS:
                        cnt.setdefault(x.t, set()).add(y.t)
        # a consistent renaming: the old name is gone, the new name is new
        curset, baseset = set(ct), set(bt)
        for x, ys in cnt.items():
            if len(ys) == 1:
                y = next(iter(ys))
                if x not in curset and y not in baseset: rename[x] = y
        if rename:
            # align again under the renaming
            bt2 = [rename.get(x, x) if base[i].k == "id" else x for i, x in enumerate(bt)]
            m = [None] * (len(bt) + 1)
            sm = difflib.SequenceMatcher(None, bt2, ct, autojunk=False)
            for tag, a1, a2, b1, b2 in sm.get_opcodes():
                if tag == "equal":
                    for k in range(a2 - a1): m[a1 + k] = b1 + k
        m[len(bt)] = len(ct)
    def ann(text):
        text = ghost_lits(text)
        if rename:
            text = re.sub(r"[A-Za-z_][A-Za-z0-9_]*", lambda k: rename.get(k.group(0), k.group(0)), text)
        return text
    def gone(i):
        """base tokens around i were deleted, with nothing put in their place"""
        a, b = i, i
        while a > 0 and m[a - 1] is None: a -= 1
        while b < len(bt) and m[b] is None: b += 1
        return (0 if a == 0 else m[a - 1] + 1) == (len(ct) if b == len(bt) else m[b])
    ins, rep = {}, {}
    for i, j, text in ops:
        if i == j:
            if i < len(bt) and m[i] is not None: p = m[i]
            elif i > 0 and m[i - 1] is not None: p = m[i - 1] + 1
            elif i == len(bt): p = len(ct)
            elif text.strip().startswith(",") and gone(i): continue   # the ghost argument of a call that was taken out
            else: raise Lost("no place left for: " + " ".join(text.split())[:120])
            ins.setdefault(p, []).append(ann(text))
        else:
            q = m[i]
            if q is None or any(m[i + k] != q + k for k in range(j - i)):
                raise Lost("changed text under a rewrite: " + " ".join(bt[i:j])[:120])
            rep[q] = (q + (j - i), ann(text))
    out, k, prev = [], 0, None
    while k <= len(ct):
        for t in ins.get(k, []):
            out.append(" " + t + " "); prev = None
        if k == len(ct): break
        if k in rep:
            e, text = rep[k]
            for q in range(k + 1, e):
                if q in ins: raise Lost("insertion inside a rewrite")
            out.append(" " + text + " "); prev = None; k = e
            continue
        t = cur[k]
        if prev is not None and prev.e == t.s:
            pass
        elif prev is None:
            out.append(" ")
        else:
            out.append("\n" if t.line > prev.line else " ")
        out.append(emit_tok(t)); prev = t
        k += 1
    return "".join(out), dict(exact=exact, rename=rename, inserted=sum(1 for o in ops if o[0] == o[1]),
                              rewrites=[(" ".join(bt[i:j]), " ".join(t.split())) for i, j, t in ops if i != j])

def signature_only(text):
    """For a function that could not be extracted: contract text with the body replaced."""
    toks = rtok.lex(text)
    # find the body: the last top level `{`
    i = 0
    depth_ok = None
    while i < len(toks):
        if toks[i].t == "{" and toks[i].k == "p":
            e = rtok.match_close(toks, i)
            depth_ok = (i, e)
            if e == len(toks) - 1: break
            i = e + 1
        else:
            i += 1
    i, e = depth_ok
    return "#[verifier::external_body] " + text[:toks[i].s] + "{ unimplemented!() }"

def baseline_text(base, ops):
    """The annotated text as written (used for the signature of a function that is not extractable)."""
    text, _ = weave(base, ops, base)
    return text

# calls which allocate an amount given by their argument
ALLOC = {"reserve", "reserve_exact", "with_capacity", "try_reserve", "try_reserve_exact", "resize", "resize_with", "repeat", "vec", "set_len", "from_elem", "grow"}
def closures(ts):
    """functions inside a function: nested ones and closures (a new one has no contract)"""
    return sum((t.t == "fn" and i > 0) or (t.t in ("|", "||") and i > 0 and ts[i - 1].t in ("(", ",", "=", "=>", "{", "}", ";", "move", "return")) for i, t in enumerate(ts))
MODULES = ("54_read_motion.vrs", "56_literal.vrs", "57_macro.vrs", "60_write.vrs", "61_roundtrip.vrs")
def generate(repo, cdir, stub=(), skip=()):
    """-> (text, blocks). stub: names of blocks emitted as assumed contract only; skip: contract files left out (nothing depends on them)."""
    src = Source(repo)
    blocks = parse_contracts(sorted(f for f in glob.glob(os.path.join(cdir, "*.vrs")) if os.path.basename(f) not in skip))
    # nested modules: one solver queue each, and they see everything before them
    first = {}
    for b in blocks: first.setdefault(b.path[0] if b.kind == "raw" else os.path.basename(b.where.split(":")[0]), b)
    opens = {id(first[f]): "p" + f[:2] for f in MODULES if f in first}
    parts = ["// GENERATED from /repo/src by /verif/vx - do not edit\n#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_upper_case_globals, dead_code)]\n"]
    line = parts[0].count("\n") + 1
    for b in blocks:
        if id(b) in opens or b.where.split(":")[0].endswith("99_end.vrs"):
            parts.append("mod %s { use super::*;\n" % opens[id(b)] if id(b) in opens else "}" * len(opens) + "\n")
            line += 1
        if b.kind == "raw":
            text = ghost_lits(b.text)
            b.status = "raw"
        else:
            base, ops = parse_marks(b.text)
            try:
                if b.name in stub: raise Lost("not accepted by the verifier's front end: " + (stub[b.name] if isinstance(stub, dict) else ""))
                s, toks, it, encl = src.find(b.path)
                for d in b.d.get("derives", "").split():
                    if not any(re.match(r"# \[ derive \(.*\b%s\b" % d, x) for x in it.attrs): raise Lost("derive(%s) is gone" % d)
                cur = preprocess(toks, it, b)
                text, info = weave(base, ops, cur)
                b.info = info
                b.status = "exact" if info["exact"] else "aligned"
                al = lambda ts: sum(t.t in ALLOC for t in ts)
                b.new_allocs = max(0, al(cur) - al(base))
                b.new_fns = max(0, closures(cur) - closures(base))
                b.src_line = (toks[it.a].line, toks[it.b - 1].line)
                b.src_hash = hashlib.sha256(" ".join(t.t for t in cur).encode()).hexdigest()[:16]
                b.src_attrs = it.attrs
            except Lost as e:
                b.status, b.note = "lost", str(e)
                b.info = dict(exact=False, rename={}, inserted=0, rewrites=[])
                text = baseline_text(base, ops)
                if b.is_fn: text = signature_only(text)
            pre = b.d.get("pre", "")
            if "emit" in b.d and b.d["emit"]:
                text = (b.d["emit"] + " {\n" + pre + " " + text.strip("\n") + "\n}")
            elif pre:
                text = pre + " " + text
        n = text.count("\n")
        b.lines = (line, line + n)
        parts.append(text + "\n")
        line += n + 1
    return "".join(parts), blocks

def extra_methods(repo, blocks):
    """Methods in covered trait impls that no block knows: they may override a modelled default method."""
    src = Source(repo)
    seen = {}
    for b in blocks:
        if b.kind == "item" and not b.path[0].startswith("dep:") and len(b.path) >= 3 and b.path[1].startswith("impl") and " for " in b.path[1]:
            seen.setdefault((b.path[0], b.path[1]), set()).add(b.path[2])
    out = []
    for (f, impl), fns in seen.items():
        try:
            s, toks, it, _ = src.find([f, impl])
        except Lost:
            continue
        for x in rtok.items(toks, it.body[0] + 1, it.body[1] - 1):
            if x.kind == "fn" and x.key not in fns: out.append((f, impl, x.key))
    return out

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--show", help="print the preprocessed source of an item path (a | b | c)")
    ap.add_argument("--cut", action="append", default=[])
    ap.add_argument("--expand", action="append", default=[])
    ap.add_argument("--litmatch", action="store_true")
    ap.add_argument("--orsplit", action="store_true")
    ap.add_argument("--fmt", action="store_true")
    ap.add_argument("--macro", action="store_true")
    ap.add_argument("--plain", action="store_true")
    ap.add_argument("-o", default="/dev/stdout")
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if a.show:
        b = Block("item"); b.d = dict(cut=a.cut, expand=a.expand)
        if a.litmatch: b.d["litmatch"] = ""
        if a.orsplit: b.d["orsplit"] = ""
        if a.fmt: b.d["fmt"] = ""
        if a.macro: b.d["macro"] = ""
        s, toks, it, _ = Source(a.repo).find([x.strip() for x in a.show.split("|")])
        if a.plain: emit_tok = lambda t: t.t
        print(join(preprocess(toks, it, b)))
    else:
        text, blocks = generate(a.repo, os.path.join(here, "contracts"))
        open(a.o, "w").write(text)
        for b in blocks:
            if b.kind == "item" and b.status != "exact": print(b.status, b.name, b.note, file=sys.stderr)
        for x in extra_methods(a.repo, blocks): print("extra method", x, file=sys.stderr)
