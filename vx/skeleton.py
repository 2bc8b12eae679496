"""`//@skeleton FILE :: CONTAINER :: fn NAME`: the control flow of a function too big for the verifier, with the data left out.

The function's branches, matches, loops and jumps are kept as they are in the source, in the order they are there.
A condition keeps the parts that are calls of the tracked accessors (`subs.macros()`), bool locals made of them alone, and
comparisons of the tracked kind; every other part becomes an unconstrained value (`vx_any()`), so every path the function has is one
of the skeleton's.  Of the statements only the calls named by `//@ effect` lines stay, each as a call of its stub, whose
`requires` is the contract.  A `?` is taken not to return (the paths on which it does are prefixes of those kept)."""
import re
from . import rs, rewrite
from .rs import Structural, match_close, emit, tokenize, OPEN, CLOSE

JUMPS = {"break", "continue", "return"}


class Skel:
    def __init__(self, d, variants):
        self.effects = []                      # ([tokens], stub)
        for a, b in d["effects"]:
            self.effects.append(([t.text for t in tokenize(a)], b))
        self.effects.sort(key=lambda e: -len(e[0]))
        self.subs = d["tracked"]               # name of the tracked place (a local)
        self.acc = d["accessors"]              # its accessors
        self.kindof = d["kindof"]              # the token whose kind is tracked
        self.variants = variants
        self.bools = [set()]
        self.sites = 0
        self.abstracted = 0

    # ---- conditions
    def known(self, name):
        return any(name in s for s in self.bools)

    def split(self, toks, op):
        parts, cur, i = [], [], 0
        while i < len(toks):
            if toks[i].kind == "p" and toks[i].text in OPEN:
                e = match_close(toks, i)
                cur += toks[i:e + 1]
                i = e + 1
                continue
            if toks[i].text == op:
                parts.append(cur)
                cur = []
            else:
                cur.append(toks[i])
            i += 1
        parts.append(cur)
        return parts

    def cond(self, toks):
        """a Verus expression that is true whenever the condition can be"""
        if not toks:
            return "vx_any()"
        if toks[0].text == "let":
            # a let chain: its `&&` separate conditions
            parts = self.split(toks, "&&")
            if len(parts) > 1:
                return " && ".join("(" + self.cond(p) + ")" for p in parts)
            return "vx_any()"
        for op in ("||", "&&"):
            parts = self.split(toks, op)
            if len(parts) > 1 and not any(t.text == "|" for t in toks[:1]):
                return f" {op} ".join("(" + self.cond(p) + ")" for p in parts)
        if toks[0].text == "!":
            r = self.cond(toks[1:])
            return "vx_any()" if r == "vx_any()" else f"!({r})"
        if toks[0].text == "(" and match_close(toks, 0) == len(toks) - 1:
            return self.cond(toks[1:-1])
        t = [x.text for x in toks]
        if len(t) == 5 and t[0] == self.subs and t[1] == "." and t[2] in self.acc and t[3:] == ["(", ")"]:
            return f"vx_subs.{t[2]}()"
        if len(t) == 1 and self.known(t[0]):
            return t[0]
        if t in (["true"], ["false"]):
            return t[0]
        k = self.kindof
        if t[:3] == [k, ".", "kind"]:
            if t[3:4] == ["("] and len(t) >= 5 and t[-1] == ")":
                v = self.variant(toks[4:-1])
                if v:
                    return f"vx_kind == TokenKind::{v}"
            if t[3:4] in (["=="], ["!="]):
                v = self.variant(toks[4:])
                if v:
                    return f"vx_kind {t[3]} TokenKind::{v}"
        self.abstracted += 1
        return "vx_any()"

    def variant(self, toks):
        t = [x.text for x in toks]
        if len(t) == 3 and t[:2] == ["TokenKind", "::"]:
            t = t[2:]
        return t[0] if len(t) == 1 and t[0] in self.variants else None

    def pattern(self, pat):
        vs = []
        for alt in self.split(pat, "|"):
            if [x.text for x in alt] == ["_"]:
                return "true"
            v = self.variant(alt)
            if not v:
                return None
            vs.append(f"vx_kind == TokenKind::{v}")
        return " || ".join(vs)

    # ---- statements
    def block(self, toks):
        """the skeleton of the text between two braces"""
        self.bools.append(set())
        saved = None
        out, i = [], 0
        n = len(toks)
        while i < n:
            t = toks[i]
            x = t.text
            if t.kind == "id" and x == "if":
                i = self.if_(toks, i, out)
                continue
            if t.kind == "id" and x == "match":
                i = self.match_(toks, i, out)
                continue
            if t.kind == "id" and x in ("loop", "while", "for"):
                b = rewrite._cond_end(toks, i + 1) if x != "loop" else i + 1
                e = match_close(toks, b)
                c = toks[i + 1:b]
                self.shadows(c)
                self.effs(c, out)
                if x == "loop":
                    head = "loop"
                elif x == "while":
                    head = f"while {self.cond(c)}"
                else:
                    head = "while vx_any()"
                inner = self.block(toks[b + 1:e])
                out.append(head + " {\n" + inner + "}\n")
                i = e + 1
                continue
            if t.kind == "id" and x in JUMPS:
                j = i + 1
                if x != "return" and j < n and toks[j].kind == "life":
                    raise Structural("labelled jump in a skeleton")
                k = self.stmt_end(toks, j)
                self.exprs(toks[j:k], out)
                out.append(x + ";\n")
                i = k
                continue
            if t.kind == "id" and x == "let":
                i = self.let_(toks, i, out)
                continue
            if x == self.subs and i + 1 < n and toks[i + 1].text in ("=", "|=", "&=") and (i == 0 or toks[i - 1].text != "."):
                raise Structural(f"`{self.subs}` is assigned")
            e = self.effect(toks, i)
            if e:
                # the arguments are evaluated first
                b = i + e[0] - 1
                if toks[b].text == "(":
                    ce = match_close(toks, b)
                    self.exprs(toks[b + 1:ce], out)
                    out.append(e[1] + "\n")
                    self.sites += 1
                    i = ce + 1
                else:
                    out.append(e[1] + "\n")
                    self.sites += 1
                    i += e[0]
                continue
            if t.kind == "p" and x in ("(", "["):
                ce = match_close(toks, i)
                self.exprs(toks[i + 1:ce], out)
                i = ce + 1
                continue
            if t.kind == "p" and x == "{":
                ce = match_close(toks, i)
                inner = self.block(toks[i + 1:ce])
                if inner.strip():
                    bare = i == 0 or toks[i - 1].text in (";", "}", "{")
                    out.append(("{" if bare else "if vx_any() {") + "\n" + inner + "}\n")
                i = ce + 1
                continue
            i += 1
        self.bools.pop()
        return "".join(out)

    def stmt_end(self, toks, i):
        while i < len(toks) and toks[i].text not in (";", ","):
            if toks[i].kind == "p" and toks[i].text in OPEN:
                i = match_close(toks, i)
            i += 1
        return i

    def exprs(self, toks, out):
        s = self.block(toks)
        if s.strip():
            out.append("{\n" + s + "}\n")

    def effs(self, toks, out):
        """effects within a condition happen before the branch, behind the `&&` to their left"""
        seen = []
        for part in self.split(toks, "&&"):
            sub = []
            self.exprs(part, sub)
            if sub:
                c = " && ".join("(" + self.cond(p) + ")" for p in seen) or "true"
                out.append(f"if {c} {{\n" + "".join(sub) + "}\n")
            seen.append(part)

    def effect(self, toks, i):
        for pat, stub in self.effects:
            if [x.text for x in toks[i:i + len(pat)]] == pat and (i == 0 or toks[i - 1].text not in ("fn",)):
                return len(pat), stub
        return None

    def shadows(self, c):
        t = [x.text for x in c]
        while "let" in t:
            t = t[t.index("let") + 1:]
            if self.kindof in t[:t.index("=") if "=" in t else 0] or self.subs in t[:t.index("=") if "=" in t else 0]:
                raise Structural("a tracked name is bound anew by a condition")

    def if_(self, toks, i, out):
        b = rewrite._cond_end(toks, i + 1)
        self.shadows(toks[i + 1:b])
        e = match_close(toks, b)
        c = toks[i + 1:b]
        self.effs(c, out)
        out.append(f"if {self.cond(c)} {{\n" + self.block(toks[b + 1:e]) + "}")
        i = e + 1
        if i < len(toks) and toks[i].text == "else":
            i += 1
            sub = []
            if toks[i].text == "if":
                i = self.if_(toks, i, sub)
                out.append(" else {\n" + "".join(sub) + "}\n")
                return i
            e = match_close(toks, i)
            out.append(" else {\n" + self.block(toks[i + 1:e]) + "}\n")
            return e + 1
        out.append("\n")
        return i

    def match_(self, toks, i, out):
        b = rewrite._cond_end(toks, i + 1)
        e = match_close(toks, b)
        scrut = toks[i + 1:b]
        self.effs(scrut, out)
        mine = [x.text for x in scrut] == [self.kindof, ".", "kind"]
        arms = rewrite._arms(toks, b, e)
        closers = ""
        for k, (pat, guard, body) in enumerate(arms):
            p = self.pattern(pat) if mine else None
            if mine and p is None:
                raise Structural("a pattern of the tracked kind isn't a list of kinds: " + emit(pat).strip())
            if guard is not None:
                self.effs(guard, out)
            cs = [c for c in (p, self.cond(guard) if guard is not None else None) if c is not None]
            if not mine:
                cs = ["vx_any()"] + ["(" + c + ")" for c in cs] if k + 1 < len(arms) else cs or ["true"]
            out.append("if " + " && ".join("(" + c + ")" for c in cs) + " {\n" + self.block(body[1:-1]) + "} else {\n")
            closers += "}"
        out.append(closers + "\n")
        return e + 1

    def let_(self, toks, i, out):
        """`let P = E;`, `let P = E else { .. };`"""
        k = i + 1
        eq = None
        while k < len(toks) and toks[k].text != ";":
            if toks[k].text == "=" and eq is None:
                eq = k
            if toks[k].kind == "p" and toks[k].text in OPEN:
                k = match_close(toks, k)
            k += 1
        if eq is None:
            return k
        pat = [x.text for x in toks[i + 1:eq]]
        init = toks[eq + 1:k]
        names = [x for x in pat if re.fullmatch(r"[a-z_]\w*", x) and x not in ("mut", "ref")]
        if self.subs in names:
            if [x.text for x in init] != ["self", ".", "ctx", ".", "subs"] or self.seen_subs:
                raise Structural(f"`{self.subs}` isn't the context's substitutions")
            self.seen_subs = True
            return k
        if len(names) == 1 and len(pat) == 1:
            before = self.abstracted
            c = self.cond(init)
            if "vx_any()" not in c and self.abstracted == before and "vx_kind" not in c:
                out.append(f"let {names[0]} = {c};\n")
                self.bools[-1].add(names[0])
                return k
        for s in self.bools:
            for nme in names:
                s.discard(nme)
        # an `else` block jumps away
        el = next((q for q in self.top(init) if init[q].text == "else" and q + 1 < len(init) and init[q + 1].text == "{" and match_close(init, q + 1) == len(init) - 1), None)
        is_if = init and init[0].text in ("if", "match")
        if el is not None and not is_if:
            self.exprs(init[:el], out)
            out.append("if vx_any() {\n" + self.block(init[el + 2:-1]) + "}\n")
        else:
            self.exprs(init, out)
        if self.kindof in names:
            if el is not None:
                out.append("let vx_kind = vx_any_kind();\n")
            else:
                # a token behind the one that is dispatched on
                out.append("let vx_kind = TokenKind::Eof;\n")
        return k

    def top(self, toks):
        q = 0
        while q < len(toks):
            yield q
            if toks[q].kind == "p" and toks[q].text in OPEN:
                q = match_close(toks, q)
            q += 1


def build(toks, it, d):
    en = rs.find(rs.tokenize(open(d["kinds_path"]).read()), "-", "enum", "TokenKind")
    body = [t for t in en.toks[en.start:en.end]]
    variants = {t.text for t in body if t.kind == "id" and t.text[0].isupper()} - {"TokenKind", "Debug", "PartialEq", "Eq", "Clone", "Copy", "Default"}
    s = Skel(d, variants)
    s.seen_subs = False
    txt = s.block(rewrite.strip_attrs([t.copy() for t in it.body]))
    if not s.seen_subs:
        raise Structural(f"`let {s.subs} = self.ctx.subs` is gone")
    for pat, stub in s.effects:
        pass
    return txt, s
