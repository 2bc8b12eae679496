"""Mechanical dialect rewrites applied to the extracted token streams."""
from .rs import Tok, Structural, tokenize, match_close, emit, find_seq, OPEN, CLOSE


def T(text, ws=" "):
    ts = tokenize(text)
    if ts:
        ts[0].ws = ws
    return ts


def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].text == "#" and i + 1 < len(toks) and toks[i + 1].text == "[" :
            i = match_close(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def strip_cfg_blocks(toks):
    """drop statements/blocks under #[cfg(feature = ...)] (features off in the build)"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].text == "#" and i + 1 < len(toks) and toks[i + 1].text == "[" and toks[i + 2].text == "cfg":
            e = match_close(toks, i + 1)
            txt = emit(toks[i:e + 1]).replace(" ", "")
            if "feature=" in txt or "test" in txt or "kani" in txt or "asciidork_verif" in txt:
                j = e + 1
                # skip one statement: up to `;` or a closing block at depth 0
                while j < len(toks):
                    if toks[j].text in ("(", "["):
                        j = match_close(toks, j) + 1
                        continue
                    if toks[j].text == "{":
                        j = match_close(toks, j) + 1
                        if j < len(toks) and toks[j].text == "else":
                            continue
                        break
                    if toks[j].text == ";":
                        j += 1
                        break
                    j += 1
                i = j
                continue
        out.append(toks[i])
        i += 1
    return out


def subst(toks, pat, rep):
    """token-sequence substitution; `$x` in pat matches one balanced run (non-empty,
    shortest), reusable in rep. Returns (new toks, count)."""
    ptoks = []
    raw = tokenize(pat)
    i = 0
    while i < len(raw):
        if raw[i].text == "$" and i + 1 < len(raw):
            ptoks.append(("var", raw[i + 1].text))
            i += 2
        else:
            ptoks.append(("lit", raw[i].text))
            i += 1

    def match_at(i, k, env):
        if k == len(ptoks):
            return i, env
        kind, v = ptoks[k]
        if kind == "lit":
            if i < len(toks) and toks[i].text == v:
                return match_at(i + 1, k + 1, env)
            return None
        j = i
        # `{ $x }` takes a whole block
        block = 0 < k < len(ptoks) - 1 and ptoks[k - 1] == ("lit", "{") and ptoks[k + 1] == ("lit", "}")
        while j < len(toks):
            if toks[j].text in OPEN and toks[j].kind == "p":
                j = match_close(toks, j) + 1
            elif toks[j].text in CLOSE and toks[j].kind == "p":
                return None
            elif toks[j].text == ";" and not block:
                return None
            else:
                j += 1
            r = match_at(j, k + 1, {**env, v: toks[i:j]})
            if r:
                return r
        return None

    out, i, cnt = [], 0, 0
    while i < len(toks):
        r = match_at(i, 0, {})
        if r:
            end, env = r
            ws = toks[i].ws
            rtoks = []
            rr = tokenize(rep)
            k = 0
            while k < len(rr):
                if rr[k].text == "$" and k + 1 < len(rr):
                    sub = [t.copy() for t in env[rr[k + 1].text]]
                    if sub:
                        sub[0].ws = rr[k].ws
                    rtoks += sub
                    k += 2
                else:
                    rtoks.append(rr[k])
                    k += 1
            if rtoks:
                rtoks[0].ws = ws
            for t in rtoks:
                t.line = toks[i].line
            out += rtoks
            i = end
            cnt += 1
        else:
            out.append(toks[i])
            i += 1
    return out, cnt


def _cond_end(toks, i):
    """index of the `{` opening the block after an if/while condition starting at i"""
    j = i
    while j < len(toks):
        if toks[j].text in ("(", "["):
            j = match_close(toks, j) + 1
            continue
        if toks[j].text == "{" :
            return j
        j += 1
    raise Structural("no block after condition")


def _split_and(toks):
    parts, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].text in OPEN and toks[i].kind == "p":
            e = match_close(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if toks[i].text == "&&" and cur:
            parts.append(cur)
            cur = []
            i += 1
            continue
        cur.append(toks[i])
        i += 1
    parts.append(cur)
    return parts


def let_chains(toks):
    """`if A && let P = e && B { X } else { Y }` -> nested ifs (Y duplicated)."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and t.text in ("if", "while") and i + 1 < len(toks):
            try:
                b = _cond_end(toks, i + 1)
            except Structural:
                out.append(t)
                i += 1
                continue
            cond = toks[i + 1:b]
            parts = _split_and(cond)
            haslet = any(p and p[0].text == "let" for p in parts)
            if haslet and len(parts) > 1:
                be = match_close(toks, b)
                then = let_chains(toks[b + 1:be])
                groups = []
                for p in parts:
                    if p[0].text == "let":
                        groups.append(p)
                    elif groups and groups[-1][0].text != "let":
                        groups[-1] = groups[-1] + T("&&") + p
                    else:
                        groups.append(p)
                j = be + 1
                els = None
                if t.text == "if" and j < len(toks) and toks[j].text == "else":
                    if toks[j + 1].text == "if":
                        # else-if chain: take whole chain
                        k = j + 1
                        while True:
                            kb = _cond_end(toks, k + 1)
                            ke = match_close(toks, kb)
                            k2 = ke + 1
                            if k2 < len(toks) and toks[k2].text == "else":
                                if toks[k2 + 1].text == "if":
                                    k = k2 + 1
                                    continue
                                ke = match_close(toks, k2 + 1)
                            break
                        els = let_chains(toks[j + 1:ke + 1])
                        j = ke + 1
                    else:
                        ee = match_close(toks, j + 1)
                        els = let_chains(toks[j + 2:ee])
                        j = ee + 1
                if t.text == "while":
                    els = T("break;")
                inner = then
                for g in reversed(groups):
                    new = T("if") + [x.copy() for x in g] + T("{") + inner + T("}")
                    if els is not None:
                        new += T("else {") + [x.copy() for x in els] + T("}")
                    inner = new
                if t.text == "while":
                    inner = T("loop {") + inner + T("}")
                inner[0].ws = t.ws
                out += inner
                i = j
                continue
        out.append(t)
        i += 1
    return out


def macros(toks):
    """debug_assert*/assert* -> vx_rt_assert(cond); panic!/unreachable!/todo! -> vx_panic();
    iff!(c, a, b) -> if c { a } else { b } (the crate's own macro, expanded)"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and i + 2 < len(toks) and toks[i + 1].text == "!" and toks[i + 2].text in OPEN:
            e = match_close(toks, i + 2)
            inner = macros(toks[i + 3:e])
            if t.text in ("debug_assert", "assert"):
                args = split_commas(inner)
                new = T("vx_rt_assert(", t.ws) + args[0] + T(")", "")
            elif t.text in ("debug_assert_eq", "assert_eq", "debug_assert_ne", "assert_ne"):
                args = split_commas(inner)
                op = "==" if "_eq" in t.text else "!="
                new = T("vx_rt_assert((", t.ws) + args[0] + T(f") {op} (") + args[1] + T("))", "")
            elif t.text in ("panic", "unreachable", "todo", "unimplemented"):
                new = T("vx_panic()", t.ws)
            elif t.text == "iff":
                args = split_commas(inner)
                new = T("(if (", t.ws) + args[0] + T(")") + T("{") + args[1] + T("} else {") + args[2] + T("})")
            else:
                new = toks[i:i + 3] + inner + [toks[e]]
            out += new
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def split_commas(toks):
    res, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].text in OPEN and toks[i].kind == "p":
            e = match_close(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if toks[i].text == ",":
            res.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    if cur:
        res.append(cur)
    return res


def byte_strings(toks):
    out = []
    for t in toks:
        if t.kind == "str" and t.text.startswith('b"'):
            import ast
            v = ast.literal_eval(t.text)
            out += T("&[" + ", ".join(f"{b}u8" for b in v) + "]", t.ws)
        else:
            out.append(t)
    return out


def _is_lit(t):
    return t.kind == "str" and (t.text.startswith('b"') or t.text.startswith('"'))


def _eqs(scrut, pats, ws=" "):
    """(vx_eq(X, lit) || vx_eq(X, lit) ...): byte strings compare bytes, strings compare text"""
    out = T("(", ws)
    for k, p in enumerate(pats):
        fn = "vx_eq" if p.text.startswith("b") else "vx_str_eq"
        if k:
            out += T("||")
        out += T(fn + "(") + [x.copy() for x in scrut] + T(",", "") + [Tok("str", p.text, " ", p.line)] + T(")", "")
    return out + T(")", "")


def _lit_alts(toks):
    """tokens of a pattern made only of literals and `|` -> list of literal tokens, else None"""
    pats, want = [], True
    for k, t in enumerate(toks):
        if t.text == "|" and (k == 0 or not want):
            want = True
        elif _is_lit(t) and want:
            pats.append(t)
            want = False
        else:
            return None
    return pats or None


def _some_alts(toks):
    """tokens of `Some(lit) | Some(lit) ..` -> list of literal tokens, else None"""
    pats, i = [], 0
    while i < len(toks):
        if i and toks[i].text == "|":
            i += 1
        if [t.text for t in toks[i:i + 2]] != ["Some", "("] or i + 3 >= len(toks) or not _is_lit(toks[i + 2]) or toks[i + 3].text != ")":
            return None
        pats.append(toks[i + 2])
        i += 4
    return pats or None


def lit_match(toks):
    """`matches!(X, "a" | "b")` and `match X { "a" | "b" [if g] => e, .., _ => e }` over string / byte-string
    literals become equality chains tested in the same order"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.text == "matches" and i + 2 < len(toks) and toks[i + 1].text == "!" and toks[i + 2].text == "(":
            e = match_close(toks, i + 2)
            args = split_commas(toks[i + 3:e])
            if len(args) == 2:
                pats = _lit_alts(args[1])
                if pats:
                    out += _eqs(args[0], pats, t.ws)
                    i = e + 1
                    continue
                pats = _some_alts(args[1])
                if pats:
                    out += T("(match", t.ws) + args[0] + T("{ Some(vx_x) =>") + _eqs(T("vx_x"), pats) + T(", None => false })")
                    i = e + 1
                    continue
        if t.kind == "id" and t.text == "match":
            try:
                b = _cond_end(toks, i + 1)
            except Structural:
                out.append(t)
                i += 1
                continue
            be = match_close(toks, b)
            scrut = toks[i + 1:b]
            arms, j, good = [], b + 1, True
            while j < be:
                k = j
                while k < be and toks[k].text != "=>":
                    if toks[k].text in OPEN and toks[k].kind == "p":
                        k = match_close(toks, k)
                    k += 1
                head = toks[j:k]
                g = next((q for q, x in enumerate(head) if x.kind == "id" and x.text == "if"), None)
                pat, guard = (head[:g], head[g + 1:]) if g is not None else (head, None)
                k += 1
                if toks[k].text == "{":
                    e2 = match_close(toks, k)
                    body = toks[k:e2 + 1]
                    k = e2 + 1
                    if k < be and toks[k].text == ",":
                        k += 1
                else:
                    e2 = k
                    while e2 < be and toks[e2].text != ",":
                        if toks[e2].text in OPEN and toks[e2].kind == "p":
                            e2 = match_close(toks, e2)
                        e2 += 1
                    body = T("{") + toks[k:e2] + T("}")
                    k = e2 + 1
                if len(pat) == 1 and pat[0].text == "_" and guard is None:
                    arms.append((None, None, body))
                elif len(pat) == 1 and pat[0].kind == "id" and pat[0].text.islower() and guard is None and k >= be:
                    bind = [] if emit(scrut).strip() == pat[0].text else T("let") + [pat[0].copy()] + T("=") + [x.copy() for x in scrut] + T(";")
                    arms.append((None, None, body[:1] + bind + body[1:]))
                else:
                    pats = _lit_alts(pat)
                    if not pats:
                        good = False
                        break
                    arms.append((pats, guard, body))
                j = k
            if good and len(arms) > 1 and arms[-1][0] is None and all(a[0] for a in arms[:-1]):
                new = []
                for pats, guard, body in arms[:-1]:
                    c = _eqs(scrut, pats)
                    if guard is not None:
                        c += T("&& (") + guard + T(")")
                    new += (T("else") if new else []) + T("if") + c + lit_match(body)
                new += T("else") + lit_match(arms[-1][2])
                new[0].ws = t.ws
                # an `if` in expression position keeps its value when parenthesised by the context
                out += new
                i = be + 1
                continue
        out.append(t)
        i += 1
    return out


def _arms(toks, b, be):
    """arms of the match whose body braces are toks[b], toks[be] -> [(pat, guard or None, body tokens incl. braces)]"""
    arms, j = [], b + 1
    while j < be:
        k = j
        while k < be and toks[k].text != "=>":
            if toks[k].text in OPEN and toks[k].kind == "p":
                k = match_close(toks, k)
            k += 1
        head = toks[j:k]
        g = next((q for q, x in enumerate(head) if x.kind == "id" and x.text == "if"), None)
        pat, guard = (head[:g], head[g + 1:]) if g is not None else (head, None)
        k += 1
        if toks[k].text == "{":
            e2 = match_close(toks, k)
            body = toks[k:e2 + 1]
            k = e2 + 1
            if k < be and toks[k].text == ",":
                k += 1
        else:
            e2 = k
            while e2 < be and toks[e2].text != ",":
                if toks[e2].text in OPEN and toks[e2].kind == "p":
                    e2 = match_close(toks, e2)
                e2 += 1
            body = T("{") + toks[k:e2] + T("}")
            k = e2 + 1
        arms.append((pat, guard, body))
        j = k
    return arms


def defun(toks, name):
    """`let F = match E { P => path, .. };` with only function paths as arm values: every call `F(args)` becomes
    `match E { P => path(args), .. }` (opt-in; E must be a place that is not assigned in between)."""
    i = 0
    while i + 3 < len(toks) and not (toks[i].text == "let" and toks[i + 1].text == name and toks[i + 2].text == "=" and toks[i + 3].text == "match"):
        i += 1
    if i + 3 >= len(toks):
        return toks, False
    b = _cond_end(toks, i + 4)
    be = match_close(toks, b)
    scrut = toks[i + 4:b]
    arms = _arms(toks, b, be)
    for _, g, body in arms:
        txt = "".join(x.text for x in body[1:-1])
        if g is not None or not (txt == "vx_panic()" or all(x.kind == "id" or x.text in ("::", ":") for x in body[1:-1])):
            return toks, False
    end = be + 1
    if end < len(toks) and toks[end].text == ";":
        end += 1
    rest, out, k = toks[end:], list(toks[:i]), 0
    while k < len(rest):
        if rest[k].kind == "id" and rest[k].text == name and k + 1 < len(rest) and rest[k + 1].text == "(" and (k == 0 or rest[k - 1].text not in (".", "::", ":")):
            e = match_close(rest, k + 1)
            args = rest[k + 1:e + 1]
            new = T("match", rest[k].ws) + [x.copy() for x in scrut] + T("{")
            for pat, _, body in arms:
                new += [x.copy() for x in pat] + T("=>") + [x.copy() for x in body[1:-1]]
                if "".join(x.text for x in body[1:-1]) != "vx_panic()":
                    new += [x.copy() for x in args]
                new += T(",")
            out += new + T("}")
            k = e + 1
        else:
            out.append(rest[k])
            k += 1
    return out, True


def _receiver(toks, dot):
    """start index of the postfix expression that ends just before toks[dot]"""
    def back_to_open(j):
        d = 0
        while j >= 0:
            if toks[j].kind == "p" and toks[j].text in CLOSE:
                d += 1
            elif toks[j].kind == "p" and toks[j].text in OPEN:
                d -= 1
                if d == 0:
                    return j
            j -= 1
        raise Structural("unbalanced receiver")
    j = dot - 1
    while True:
        t = toks[j]
        if t.text == "?":
            j -= 1
            continue
        if t.kind == "p" and t.text in (")", "]"):
            j = back_to_open(j)
            if j == 0:
                return j
            p = toks[j - 1]
            if p.text == ">":
                d, q = 0, j - 1
                while True:
                    if toks[q].text == ">":
                        d += 1
                    elif toks[q].text == "<":
                        d -= 1
                        if d == 0:
                            break
                    q -= 1
                if toks[q - 1].text == "::":
                    j = q - 2
                    t = toks[j]
                else:
                    return j
            elif p.text == "!" and toks[j - 2].kind == "id":
                j -= 2
            elif p.kind == "id" and p.text not in ("if", "match", "while", "in", "return", "let", "else") or p.text in (")", "]", "?"):
                j -= 1
                continue
            else:
                return j
        if j > 0 and toks[j - 1].text in (".", "::") and toks[j].kind != "p":
            j -= 2
            continue
        return j


OPTS = ("and_then", "map", "is_some_and", "or", "or_else", "unwrap_or", "unwrap_or_else", "map_or", "is_none_or", "filter")
_octr = [0]


def optchain(toks, names):
    """Option combinators (the named ones, opt-in per function) -> `match` on the receiver"""
    toks = list(toks)
    i = 0
    while i + 2 < len(toks):
        if not (toks[i].text == "." and toks[i + 1].text in names and toks[i + 2].text == "("):
            i += 1
            continue
        name = toks[i + 1].text
        e = match_close(toks, i + 2)
        args = split_commas(toks[i + 3:e])
        args = [a for a in args if a]
        a = _receiver(toks, i)
        recv = [x.copy() for x in toks[a:i]]
        recv[0].ws = recv[0].ws or " "

        def clo(arg):
            """closure or path applied -> (pattern tokens, body tokens)"""
            if arg and arg[0].text == "move":
                arg = arg[1:]
            if arg and arg[0].text == "||":
                return None, arg[1:]
            if arg and arg[0].text == "|":
                k = next(q for q in range(1, len(arg)) if arg[q].text == "|")
                body = arg[k + 1:]
                if any(x.text in ("?", "return") for x in body):
                    raise Structural("closure leaves early")
                return arg[1:k], body
            _octr[0] += 1
            v = f"vx_o{_octr[0]}"
            return T(v), [x.copy() for x in arg] + T(f"({v})", "")
        W = lambda pat, body, none: (T("(match") + recv + T("{ Some(") + pat + T(") => {") + body + T("}, None => {") + none + T("} })"))
        ws = toks[a].ws
        if name == "and_then":
            p, b = clo(args[0]); new = W(p, b, T("None"))
        elif name == "map":
            p, b = clo(args[0]); new = W(p, T("Some(") + b + T(")"), T("None"))
        elif name == "is_some_and":
            p, b = clo(args[0]); new = W(p, b, T("false"))
        elif name == "is_none_or":
            p, b = clo(args[0]); new = W(p, b, T("true"))
        elif name == "or":
            new = W(T("vx_ov"), T("Some(vx_ov)"), args[0])
        elif name == "or_else":
            new = W(T("vx_ov"), T("Some(vx_ov)"), clo(args[0])[1])
        elif name == "unwrap_or":
            new = W(T("vx_ov"), T("vx_ov"), args[0])
        elif name == "unwrap_or_else":
            new = W(T("vx_ov"), T("vx_ov"), clo(args[0])[1])
        elif name == "map_or":
            p, b = clo(args[1]); new = W(p, b, args[0])
        else:
            raise Structural("optchain " + name)
        new[0].ws = ws or " "
        toks[a:e + 1] = new
        i = a
    return toks


_gctr = [0]


def guards(toks):
    """`match E { P if g => e, .. }` with at least one guard -> the arms tested one after the other:
    `let m = E; if (match m { P => g, _ => false }) { match m { P => e, _ => unreachable } } else ..`
    (opt-in; E must be Copy)."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and t.text == "match":
            b = _cond_end(toks, i + 1)
            be = match_close(toks, b)
            arms = _arms(toks, b, be)
            if any(g is not None for _, g, _ in arms):
                _gctr[0] += 1
                m = f"vx_m{_gctr[0]}"
                new = T("{ let " + m + " =", t.ws) + guards(toks[i + 1:b]) + T(";")
                for n, (pat, guard, body) in enumerate(arms):
                    last = n == len(arms) - 1
                    body = guards(body)
                    wild = len(pat) == 1 and pat[0].text == "_"
                    if wild and guard is None:
                        new += body if n else body
                        break
                    g = guard if guard is not None else T("true")
                    cp = [x.copy() for x in pat]
                    if not (last and guard is None):
                        new += T("if (match " + m + " {") + cp + T("=> (") + g + T("), _ => false }) {")
                    else:
                        new += T("{")
                    if wild:
                        new += body
                    else:
                        new += T("match " + m + " {") + [x.copy() for x in pat] + T("=>") + body + T(", _ => vx_panic() }")
                    new += T("}")
                    if not last:
                        new += T("else")
                new += T("}")
                out += new
                i = be + 1
                continue
        out.append(t)
        i += 1
    return out


_ctr = [0]


def desugar_for(toks, which=None):
    """`for P in a..b { B }` -> index while loop; `for P in X.iter() {B}` / `for P in &X` ->
    index loop over X; opt-in per function. `which`: dict ordinal -> mode"""
    out, i, ordn = [], 0, -1
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and t.text in ("while", "loop"):
            ordn += 1
        if t.kind == "id" and t.text == "for" and toks[i + 1].text != "<":
            ordn += 1
            mode = (which or {}).get(ordn)
            # find `in`
            j = i + 1
            while toks[j].text != "in":
                if toks[j].text in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            pat = toks[i + 1:j]
            b = _cond_end(toks, j + 1)
            be = match_close(toks, b)
            expr = toks[j + 1:b]
            if mode:
                n = ordn
                if mode == "range":
                    # split on top-level `..`
                    k, d = None, 0
                    for q, x in enumerate(expr):
                        if x.text in OPEN:
                            d += 1
                        elif x.text in CLOSE:
                            d -= 1
                        elif x.text in ("..", "..=") and d == 0:
                            k = q
                    if k is None:
                        raise Structural("for loop is not over a range")
                    lo, hi = expr[:k], expr[k + 1:]
                    cmp_ = "<" if expr[k].text == ".." else "<="
                    ty = "usize"
                    new = T(f"let mut vx_i{n}: {ty} =", t.ws) + lo + T(f"; let vx_e{n}: {ty} =") + hi + T("; ") \
                        + T(f"while vx_i{n} {cmp_} vx_e{n} {{ let") + pat + T(f"= vx_i{n}; vx_i{n} += 1;")
                elif mode in ("slice", "array"):
                    e2 = expr
                    if len(e2) >= 4 and emit(e2[-4:]).replace(" ", "") == ".iter()":
                        e2 = e2[:-4]
                    elif e2[0].text == "&":
                        e2 = e2[1:]
                    elif mode == "slice":
                        pass
                    amp = "" if mode == "array" else "&"
                    new = T(f"let vx_s{n} = {'' if mode == 'array' else '&'}", t.ws) + [x.copy() for x in e2] \
                        + T(f"; let mut vx_i{n}: usize = 0; while vx_i{n} < vx_s{n}.len() {{ let") + pat \
                        + T(f"= {amp}vx_s{n}[vx_i{n}]; vx_i{n} += 1;")
                elif mode == "revslice":
                    if emit(expr[-8:]).replace(" ", "").replace("\n", "") != ".iter().rev()":
                        raise Structural("for loop is not over .iter().rev()")
                    new = T(f"let vx_s{n} = &", t.ws) + [x.copy() for x in expr[:-8]] \
                        + T(f"; let mut vx_i{n}: usize = vx_s{n}.len(); while vx_i{n} > 0 {{ vx_i{n} -= 1; let") + pat \
                        + T(f"= &vx_s{n}[vx_i{n}];")
                elif mode == "chunks":
                    # `X.chunks(K)`: successive non-overlapping sub-slices of length K (last may be shorter)
                    txt = [x.text for x in expr]
                    q = next((k for k in range(len(txt) - 1, 1, -1) if txt[k] == "chunks" and txt[k - 1] == "."), None)
                    if q is None:
                        raise Structural("for loop is not over .chunks(..)")
                    base, arg = expr[:q - 1], expr[q + 2:len(expr) - 1]
                    new = T(f"let vx_s{n}: &[_] =", t.ws) + base + T(f"; let vx_k{n}: usize =") + arg \
                        + T(f"; let mut vx_i{n}: usize = 0; while vx_i{n} < vx_s{n}.len() {{ let") + pat \
                        + T(f"= vx_chunk(vx_s{n}, vx_i{n}, vx_k{n}); vx_i{n} += {pat[0].text}.len();")
                else:
                    raise ValueError(mode)
                out += new
                # body continues in-stream so that nested loops are handled
                i = b + 1
                continue
        out.append(t)
        i += 1
    return out
