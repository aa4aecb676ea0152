"""A small Rust tokenizer and item locator.  Used to take functions verbatim out of /repo/src."""
import re

class Tok:
    __slots__ = ("t", "s", "e", "k", "line")
    def __init__(self, t, s, e, k, line):
        self.t, self.s, self.e, self.k, self.line = t, s, e, k, line
    def __repr__(self):
        return self.t

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*|[^\x00-\x7f\s⟦⟧]+")
NUM = re.compile(r"0[xob][0-9A-Fa-f_]+[a-z0-9]*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?[a-z0-9]*")
LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
CHAR = re.compile(r"b?'(\\u\{[0-9A-Fa-f_]+\}|\\x[0-9A-Fa-f]{2}|\\.|[^\\'])'")
STR = re.compile(r'(?:bs|b|c)?"(\\.|[^"\\])*"', re.S)
RAW = re.compile(r'(?:b|c)?r(#*)"')

class LexError(Exception):
    pass

def lex(src):
    """Token list of src; whitespace and comments are skipped. ⟦ and ⟧ are tokens of kind 'mark'."""
    out, i, n = [], 0, len(src)
    line = 1
    def add(t, k):
        nonlocal i, line
        out.append(Tok(t, i, i + len(t), k, line))
        line += t.count("\n")
        i += len(t)
    while i < n:
        c = src[i]
        if c in " \t\r\n":
            if c == "\n": line += 1
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            line += src.count("\n", i, j)
            i = j
            continue
        if c in "⟦⟧":
            add(c, "mark"); continue
        m = RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0: raise LexError("raw string")
            add(src[i:j + len(end)], "str"); continue
        m = STR.match(src, i)
        if m:
            add(m.group(0), "str"); continue
        m = CHAR.match(src, i)
        if m:
            add(m.group(0), "char"); continue
        m = LIFE.match(src, i)
        if m:
            add(m.group(0), "life"); continue
        m = IDENT.match(src, i)
        if m:
            add(m.group(0), "id"); continue
        if c.isdigit():
            m = NUM.match(src, i)
            t = m.group(0)
            # `1..2` and `1.method()` are not floats; `1.` followed by neither is.
            add(t, "num"); continue
        add(c, "p")
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match_close(toks, i):
    """Index of the token closing the bracket at i."""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].t in OPEN and toks[j].k == "p": d += 1
        elif toks[j].t in CLOSE and toks[j].k == "p":
            d -= 1
            if d == 0: return j
    raise LexError("unbalanced")

class Item:
    """kind, name, header text, token range [a,b) without attributes and visibility, body range, attrs"""
    def __init__(self, kind, key, a, b, body, attrs, h0):
        self.kind, self.key, self.a, self.b, self.body, self.attrs, self.h0 = kind, key, a, b, body, attrs, h0
    def __repr__(self):
        return f"<{self.key}>"

def norm(toks):
    return " ".join(t.t for t in toks)

def items(toks, a, b):
    """Items in toks[a:b] (a module body, an impl body or a whole file). Skips what it does not know."""
    out, i = [], a
    while i < b:
        attrs = []
        start = i
        while i < b and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!": j += 1
            k = match_close(toks, j)
            attrs.append(norm(toks[i:k + 1]))
            i = k + 1
        if i >= b: break
        vis0 = i
        if toks[i].t == "pub":
            i += 1
            if i < b and toks[i].t == "(":
                i = match_close(toks, i) + 1
        h0 = i
        while i < b and toks[i].t in ("const", "async", "unsafe", "extern", "default") and toks[i].k == "id":
            if toks[i].t == "const" and not (toks[i + 1].t in ("fn", "unsafe", "async", "extern", "trait", "impl")): break
            i += 1
            if toks[i].k == "str": i += 1
        if i >= b: break
        kw = toks[i].t
        if kw == "fn":
            name = toks[i + 1].t
            j = i
            while toks[j].t not in ("{", ";"):
                if toks[j].t in ("(", "["): j = match_close(toks, j)
                j += 1
            e = match_close(toks, j) + 1 if toks[j].t == "{" else j + 1
            out.append(Item("fn", "fn " + name, h0, e, (j, e), attrs, h0)); i = e
        elif kw in ("struct", "enum", "union"):
            name = toks[i + 1].t
            j = i
            while toks[j].t not in ("{", ";", "("): j += 1
            if toks[j].t == "{": e = match_close(toks, j) + 1
            elif toks[j].t == "(":
                e = match_close(toks, j)
                while toks[e].t != ";": e += 1
                e += 1
            else: e = j + 1
            out.append(Item(kw, kw + " " + name, h0, e, (j, e), attrs, h0)); i = e
        elif kw in ("impl", "trait", "mod"):
            j = i
            while toks[j].t not in ("{", ";"):
                if toks[j].t in ("(", "["): j = match_close(toks, j)
                j += 1
            e = match_close(toks, j) + 1 if toks[j].t == "{" else j + 1
            key = norm(toks[i:j]) if kw == "impl" else kw + " " + toks[i + 1].t
            out.append(Item(kw, key, h0, e, (j, e), attrs, h0)); i = e
        elif kw in ("const", "static", "type", "use", "extern"):
            j = i
            while toks[j].t != ";":
                if toks[j].t in OPEN and toks[j].k == "p": j = match_close(toks, j)
                j += 1
            e = j + 1
            out.append(Item(kw, kw + " " + toks[i + 1].t, h0, e, (j, e), attrs, h0)); i = e
        elif kw == "macro_rules":
            name = toks[i + 2].t
            j = i + 3
            e = match_close(toks, j) + 1
            if e < b and toks[e].t == ";": e += 1
            out.append(Item("macro", "macro " + name, h0, e, (j, e), attrs, h0)); i = e
        elif toks[i].k == "id" and i + 1 < b and toks[i + 1].t == "!":
            j = i + 2
            e = match_close(toks, j) + 1
            if e < b and toks[e].t == ";": e += 1
            out.append(Item("maccall", "maccall " + toks[i].t, h0, e, (j, e), attrs, h0)); i = e
        else:
            i += 1
    return out
