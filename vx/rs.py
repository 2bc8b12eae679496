"""A small Rust token scanner and item finder, enough to cut functions and types
verbatim out of /repo's sources on every run."""
import re


class Structural(Exception):
    """The code no longer has the shape the contracts are attached to."""


class Tok:
    __slots__ = ("kind", "text", "ws", "line")

    def __init__(self, kind, text, ws="", line=0):
        self.kind, self.text, self.ws, self.line = kind, text, ws, line

    def __repr__(self):
        return self.text

    def copy(self):
        return Tok(self.kind, self.text, self.ws, self.line)


PUNCT = [
    "..=", "...", "<<=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
    "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", "..",
]
IDENT = re.compile(r"(r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0x[0-9a-fA-F_]+[a-z0-9]*|0b[01_]+[a-z0-9]*|0o[0-7_]+[a-z0-9]*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?([iuf](8|16|32|64|128|size))?")


def tokenize(src, line=1):
    toks = []
    i, n = 0, len(src)
    ws = ""
    while i < n:
        c = src[i]
        if c.isspace():
            ws += c
            if c == "\n":
                line += 1
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    if src[j] == "\n":
                        line += 1
                    j += 1
            ws += " "
            i = j
            continue
        kind, j = None, i
        m = re.compile(r'(b|c)?r(#*)"').match(src, i)
        if m:
            end = src.find('"' + m.group(2), m.end())
            if end < 0:
                raise Structural("unterminated raw string")
            j = end + 1 + len(m.group(2))
            kind = "str"
        elif c == '"' or (c in "bc" and src[i + 1:i + 2] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            kind = "str"
        elif c == "'" or (c == "b" and src[i + 1:i + 2] == "'"):
            k = i + (1 if c == "'" else 2)
            if src[k] == "\\":
                j = src.index("'", k + 2) + 1
                kind = "char"
            elif src[k + 1:k + 2] == "'":
                j = k + 2
                kind = "char"
            else:
                m = IDENT.match(src, k)
                j = m.end()
                kind = "life"
        elif (m := IDENT.match(src, i)):
            j, kind = m.end(), "id"
        elif c.isdigit():
            m = NUM.match(src, i)
            j, kind = m.end(), "num"
            # `0..n` must not swallow the dot
        else:
            kind = "p"
            for p in PUNCT:
                if src.startswith(p, i):
                    j = i + len(p)
                    break
            else:
                j = i + 1
        text = src[i:j]
        toks.append(Tok(kind, text, ws, line))
        line += text.count("\n")
        ws = ""
        i = j
    return toks


def emit(toks):
    out = []
    for t in toks:
        out.append(t.ws)
        out.append(t.text)
    return "".join(out)


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(toks, i):
    """index of the bracket closing toks[i]"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN:
                depth += 1
            elif t.text in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise Structural("unbalanced brackets")


class Item:
    def __init__(self, kind, name, header, body, start, end, toks):
        self.kind, self.name, self.header, self.body = kind, name, header, body
        self.start, self.end, self.toks = start, end, toks

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


ITEM_KW = {"fn", "struct", "enum", "impl", "trait", "mod", "const", "static", "type", "use",
           "macro_rules", "union", "extern"}
QUAL = {"pub", "const", "unsafe", "async", "extern", "default"}


def items(toks):
    """top-level items of a token list (attributes are dropped)"""
    i, n = 0, len(toks)
    res = []
    while i < n:
        start = i
        attrs = []
        while i < n and toks[i].text == "#":
            j = i + 1
            if toks[j].text == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append(emit(toks[i:e + 1]).strip())
            i = e + 1
        istart = i
        if i >= n:
            break
        # visibility and qualifiers
        while i < n and toks[i].text in QUAL:
            if toks[i].text == "pub" and toks[i + 1].text == "(":
                i = match_close(toks, i + 1) + 1
                continue
            if toks[i].text == "const" and toks[i + 1].text not in ("fn", "unsafe", "extern", "async"):
                break
            if toks[i].text == "extern" and toks[i + 1].kind == "str":
                i += 2
                continue
            if toks[i].text == "extern":
                break
            i += 1
        kw = toks[i].text
        if kw == "macro_rules" or (toks[i].kind == "id" and i + 1 < n and toks[i + 1].text == "!"):
            j = i
            while toks[j].text not in OPEN:
                j += 1
            e = match_close(toks, j)
            if e + 1 < n and toks[e + 1].text == ";":
                e += 1
            res.append(Item("macro", toks[i].text, [], toks[j:e + 1], istart, e + 1, toks))
            i = e + 1
            continue
        # find the end: `;` or a `{...}` at depth 0
        j = i
        body = None
        while j < n:
            t = toks[j].text
            if toks[j].kind == "p":
                if t in ("(", "["):
                    j = match_close(toks, j) + 1
                    continue
                if t == "{":
                    e = match_close(toks, j)
                    if kw in ("use", "const", "static", "type"):
                        j = e + 1
                        continue
                    body = (j, e)
                    break
                if t == ";":
                    break
            j += 1
        if body:
            end = body[1] + 1
            header = toks[istart:body[0]]
            btoks = toks[body[0] + 1:body[1]]
        else:
            end = j + 1
            header = toks[istart:min(end, n)]
            btoks = None
        if kw == "impl":
            name = emit(toks[i:body[0]]).strip()
        else:
            name = toks[i + 1].text if i + 1 < n else ""
        it = Item(kw, name, header, btoks, istart, end, toks)
        it.attrs = attrs
        res.append(it)
        i = end
    return res


def _norm_impl(toks):
    """`impl<'a, T: X> Trait<..> for Type<..> where ..` -> ('Trait' or None, 'Type')"""
    i = 1
    if i < len(toks) and toks[i].text == "<":
        d = 0
        while True:
            d += {"<": 1, ">": -1, ">>": -2, "<<": 2}.get(toks[i].text, 0)
            i += 1
            if d <= 0:
                break
    rest = toks[i:]
    parts = [[]]
    d = 0
    for t in rest:
        if t.text == "where" and d == 0:
            break
        if t.text == "for" and d == 0:
            parts.append([])
            continue
        d2 = {"<": 1, ">": -1, ">>": -2}.get(t.text, 0)
        if d == 0 and d2 == 0 and t.kind == "id":
            parts[-1].append(t.text)
        elif d == 0 and d2 == 0 and t.text == "::":
            parts[-1] = []
        d += d2
    names = [p[-1] if p else "" for p in parts]
    return (names[0], names[1]) if len(names) == 2 else (None, names[0])


def _flat(hdr):
    """impl header without generics of the impl itself, lifetimes and spaces"""
    i = 1
    if hdr[i].text == "<":
        d = 0
        while True:
            d += {"<": 1, ">": -1, ">>": -2, "<<": 2}.get(hdr[i].text, 0)
            i += 1
            if d <= 0:
                break
    txt = "".join(t.text for t in hdr[i:] if not t.text.startswith("'"))
    return txt.replace("<>", "").split("where")[0].replace("<,", "<")


def is_test(it):
    return any("test" in a.replace(" ", "") for a in getattr(it, "attrs", []))


def find(src_toks, container, kind, name):
    """container: '-', 'impl T', 'impl Tr for T', 'trait T', 'mod m'"""
    pools = []
    top = [x for x in items(src_toks) if not is_test(x)]

    def walk_mods(its):
        yield its
        for it in its:
            if it.kind == "mod" and it.body is not None:
                yield from walk_mods([x for x in items(it.body) if not is_test(x)])

    if container in ("-", ""):
        pools = list(walk_mods(top))
    else:
        for its in walk_mods(top):
            for it in its:
                if it.kind == "impl" and container.startswith("impl"):
                    hdr = [t for t in it.header if t.text not in ("unsafe",)]
                    tr, ty = _norm_impl(hdr)
                    want = container[4:].strip()
                    if "<" in want:
                        ok = _flat(hdr) == "".join(want.split())
                    elif " for " in want:
                        wtr, wty = [w.strip() for w in want.split(" for ")]
                        ok = tr == wtr and ty == wty
                    else:
                        ok = tr is None and ty == want
                    if ok:
                        pools.append(items(it.body))
                elif it.kind == "trait" and container == "trait " + it.name:
                    pools.append(items(it.body))
                elif it.kind == "mod" and container == "mod " + it.name and it.body is not None:
                    pools.append(items(it.body))
    for p in pools:
        for it in p:
            if it.kind == kind and it.name == name and not is_test(it):
                return it
    raise Structural(f"anchor lost: {kind} {name} in `{container}`")


def find_seq(toks, pat, start=0):
    """index of the first occurrence of token text sequence pat"""
    m = len(pat)
    for i in range(start, len(toks) - m + 1):
        if all(toks[i + k].text == pat[k] for k in range(m)):
            return i
    return -1
