"""Template (.vrs) -> Verus file.  Everything between `//@extract` and `//@end` is contract
text spliced onto a function cut verbatim from /repo's working tree (see rewrite.py for the
mechanical dialect rewrites; each unit lists its token substitutions in the template)."""
import os
import re
from . import skeleton, rs, rewrite
from .rs import Structural, tokenize, emit, match_close, find_seq

REPO = os.environ.get("VX_REPO", "/repo")
_cache = {}


def load(path):
    full = os.path.join(REPO, path)
    if full not in _cache:
        try:
            src = open(full, encoding="utf-8").read()
        except OSError as e:
            raise Structural(f"anchor lost: {path}: {e}")
        _cache[full] = (tokenize(src), src)
    return _cache[full][0]


class Extracted:
    def __init__(self, name, file, container, line):
        self.name, self.file, self.container, self.line = name, file, container, line
        self.gen_start = self.gen_end = 0
        self.subs = []
        self.lost = []
        self.loops = 0
        self.has_requires = False
        self.noexit = False
        self.skeleton = False
        self.sites = 0


class Unit:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.functions, self.items, self.lost, self.subs_used = [], [], [], set()
        self.source = None


def parse_directives(lines):
    """lines of one //@extract block -> dict"""
    d = {"subs": [], "loops": {}, "ghost": [], "spec": "", "body": "", "tail": "", "ret": "r",
         "attrs": [], "for": {}, "noexit": False, "noloopcheck": False, "rename": None, "opt": set(),
         "noret": False, "loopbody": {}}
    cur, buf = None, []

    def flush():
        nonlocal buf
        txt = "\n".join(buf)
        if cur is None:
            if txt.strip():
                raise ValueError("stray text in extract block: " + txt)
        elif cur[0] == "spec":
            d["spec"] += txt
        elif cur[0] == "loop":
            d["loops"][cur[1]] = txt
        elif cur[0] == "loopbody":
            d["loopbody"][cur[1]] = txt
        elif cur[0] == "body":
            d["body"] += txt
        elif cur[0] == "tail":
            d["tail"] += txt
        elif cur[0] in ("before", "after"):
            d["ghost"].append((cur[0], cur[1], cur[2], txt))
        buf = []

    for ln in lines:
        m = re.match(r"\s*//@\s?(.*)$", ln)
        if not m:
            buf.append(ln)
            continue
        s = m.group(1).strip()
        flush()
        cur = None
        if s == "":
            continue
        kw, _, rest = s.partition(" ")
        rest = rest.strip()
        if kw == "sub":
            a, b = rest.split(" ==> ", 1) if " ==> " in rest else (rest.replace(" ==>", ""), "")
            d["subs"].append((a.strip(), b.strip()))
        elif kw == "ret":
            d["ret"] = rest
        elif kw == "noret":
            d["noret"] = True
        elif kw == "attr":
            d["attrs"].append(rest)
        elif kw == "for":
            k, mode = rest.split()
            d["for"][int(k)] = mode
        elif kw == "spec":
            cur = ("spec",)
        elif kw == "loop":
            cur = ("loop", int(rest))
        elif kw == "loopbody":
            cur = ("loopbody", int(rest))
        elif kw == "body":
            cur = ("body",)
        elif kw == "tail":
            cur = ("tail",)
        elif kw in ("before", "after"):
            m2 = re.match(r"(?:\[(\d+)\]\s*)?(.*)$", rest)
            cur = (kw, int(m2.group(1) or 0), m2.group(2))
        elif kw == "defun":
            d.setdefault("defun", []).append(rest)
        elif kw == "guards":
            d["guards"] = True
        elif kw == "optchain":
            d["optchain"] = tuple(rest.split(",")) if rest else rewrite.OPTS
        elif kw == "noexit":
            d["noexit"] = True
        elif kw == "rename":
            d["rename"] = rest
        elif kw == "opt":
            d["opt"].add(rest)
        else:
            raise ValueError("unknown directive " + s)
    flush()
    return d


def default_pass(toks):
    toks = rewrite.strip_cfg_blocks(toks)
    toks = rewrite.strip_attrs(toks)
    toks = rewrite.macros(toks)
    toks = rewrite.let_chains(toks)
    toks = rewrite.lit_match(toks)
    toks = rewrite.byte_strings(toks)
    return toks


def ghost_tok(text):
    return rs.Tok("ghost", "\n" + text.strip("\n") + "\n", "")


def insert_loops(toks, d, ex):
    """put loop specs before loop-body braces"""
    out, i, k = [], 0, -1
    toks = list(toks)
    while i < len(toks):
        t = toks[i]
        isloop = t.kind == "id" and (t.text in ("while", "loop") or (t.text == "for" and toks[i + 1].text != "<"))
        if isloop:
            k += 1
            if t.text == "loop":
                b = i + 1
            elif t.text == "while":
                b = rewrite._cond_end(toks, i + 1)
            else:
                j = i + 1
                while toks[j].text != "in":
                    if toks[j].text in rs.OPEN:
                        j = match_close(toks, j)
                    j += 1
                b = rewrite._cond_end(toks, j + 1)
            if k in d["loops"]:
                toks.insert(b, ghost_tok(d["loops"][k]))
                b += 1
            if k in d["loopbody"]:
                toks.insert(b + 1, ghost_tok(d["loopbody"][k]))
        out.append(toks[i])
        i += 1
    ex.loops = k + 1
    for want in list(d["loops"]) + list(d["loopbody"]):
        if want > k:
            ex.lost.append(f"loop {want} of {ex.name}")
    return out


def do_extract(unit, spec, lines, mode, gsubs):
    m = re.match(r"(\S+)\s*::\s*(.+?)\s*::\s*fn\s+(\w+)\s*$", spec)
    if not m:
        raise ValueError("bad extract: " + spec)
    file, container, name = m.groups()
    d = parse_directives(lines)
    toks = load(file)
    it = rs.find(toks, container, "fn", name)
    if it.body is None:
        raise Structural(f"{name} has no body")
    ex = Extracted(name, file, container, it.header[0].line)
    header = [t.copy() for t in it.header]
    body = [t.copy() for t in it.body]
    # visibility dropped: everything `pub`-less inside one file
    while header and header[0].text in ("pub", "const", "unsafe", "async"):
        if header[0].text == "pub" and header[1].text == "(":
            e = match_close(header, 1)
            header = header[e + 1:]
        else:
            header = header[1:]
    body = default_pass(body)
    if d.get("optchain"):
        body = rewrite.optchain(body, d["optchain"])
    header = rewrite.strip_attrs(header)
    for a, b in gsubs + d["subs"]:
        opt = a.startswith("?")
        a2 = a[1:] if opt else a
        header, c1 = rewrite.subst(header, a2, b)
        body, c2 = rewrite.subst(body, a2, b)
        if c1 + c2:
            unit.subs_used.add(f"{a2} ==> {b}")
            ex.subs.append((a2, b, c1 + c2))
        elif (a, b) in d["subs"] and not opt:
            ex.lost.append(f"sub `{a2}` in {name}")
    for nm in d.get("defun", []):
        body, hit = rewrite.defun(body, nm)
        if not hit:
            ex.lost.append(f"function value `{nm}` in {name}")
    if d.get("guards"):
        rewrite._gctr[0] = 0
        body = rewrite.guards(body)
    body = rewrite.desugar_for(body, d["for"])
    ncheck = sum(1 for t in body if t.kind == "id" and t.text == "for")
    # ghost insertions by token anchors
    for kind, nth, anchor, txt in d["ghost"]:
        pat = [t.text for t in tokenize(anchor)]
        pos = -1
        for _ in range(nth + 1):
            pos = find_seq(body, pat, pos + 1)
            if pos < 0:
                break
        if pos < 0:
            ex.lost.append(f"ghost anchor `{anchor}` in {name}")
            continue
        body.insert(pos if kind == "before" else pos + len(pat), ghost_tok(txt))
    body = insert_loops(body, d, ex)
    # return value name
    arrow = None
    dep = 0
    for i, t in enumerate(header):
        if t.text in ("(", "["):
            dep += 1
        elif t.text in (")", "]"):
            dep -= 1
        elif t.text == "->" and dep == 0:
            arrow = i
            break
    where = None
    for i, t in enumerate(header):
        if t.text == "where":
            where = i
    hdr = header
    wtext = ""
    if where is not None:
        wtext = " " + emit(header[where:])
        hdr = header[:where]
    if arrow is not None and not d["noret"]:
        rt = emit(hdr[arrow + 1:]).strip()
        head = emit(hdr[:arrow]).strip() + f" -> ({d['ret']}: {rt})"
        unitret = False
    else:
        head = emit(hdr).strip()
        unitret = True
    head += wtext
    if d["rename"]:
        head = re.sub(r"\bfn\s+" + name + r"\b", "fn " + d["rename"], head, count=1)
    ex.noexit = d["noexit"]
    ex.has_requires = "requires" in d["spec"]
    btxt = emit(body)
    if d["tail"]:
        # ghost at the end of a unit function / after the last statement
        if unitret:
            btxt = btxt + "\n" + d["tail"]
        else:
            btxt = f"let vx_r: {rt} = {{" + btxt + "};\n" + d["tail"] + "\nvx_r"
    if mode == "exit" and not d["noexit"]:
        if unitret:
            btxt = "let vx_ret = {" + btxt + "\n};\nassert(false); // VXVAC"
        else:
            btxt = f"let vx_ret: {rt} = {{" + btxt + "\n};\nassert(false); // VXVAC\nvx_ret"
    pre = d["body"]
    if mode == "entry":
        pre = "assert(false); // VXVAC\n" + pre
    out = "".join(a + "\n" for a in d["attrs"])
    out += head + "\n" + d["spec"] + "\n{\n" + pre + "\n" + btxt + "\n}\n"
    unit.functions.append(ex)
    unit.lost += ex.lost
    return out, ex


def do_item(unit, spec, lines, gsubs):
    m = re.match(r"(\S+)\s*::\s*(.+?)\s*::\s*(struct|enum|const|type|static)\s+(\w+)\s*$", spec)
    file, container, kind, name = m.groups()
    it = rs.find(load(file), container, kind, name)
    toks = [t.copy() for t in it.toks[it.start:it.end]]
    toks = rewrite.strip_attrs(toks)
    d = parse_directives(lines)
    toks = rewrite.byte_strings(toks)
    for a, b in gsubs + d["subs"]:
        opt = a.startswith("?")
        a = a[1:] if opt else a
        toks, c = rewrite.subst(toks, a, b)
        if c:
            unit.subs_used.add(f"{a} ==> {b}")
    while toks and toks[0].text == "pub":
        if toks[1].text == "(":
            toks = toks[match_close(toks, 1) + 1:]
        else:
            toks = toks[1:]
    # fields/all public
    txt = emit(toks).strip()
    txt = re.sub(r"\bpub\s*\(\s*(crate|super)\s*\)", "pub", txt)
    unit.items.append(f"{kind} {name} ({file})")
    return "".join(a + "\n" for a in d["attrs"]) + "pub " + txt + "\n"


def do_distinct(spec, first=False):
    """`//@distinct F a b c`: lemma F, the texts "a", "b", "c" differ pairwise; `//@differs F a b c`: "a" differs from the rest"""
    name, *ws = spec.split()
    ens, prf = [], []
    for w in ws:
        prf.append(f'reveal_strlit("{w}"); assert("{w}"@.len() == {len(w)});')
    for i, a in enumerate(ws):
        if first and i:
            break
        for b in ws[i + 1:]:
            ens.append(f'"{a}"@ != "{b}"@')
            if len(a) == len(b):
                k = next(q for q in range(len(a)) if a[q] != b[q])
                prf.append(f"assert(\"{a}\"@[{k}] == '{a[k]}' && \"{b}\"@[{k}] == '{b[k]}');")
    return f"proof fn {name}()\n    ensures {', '.join(ens)},\n{{\n" + "\n".join(prf) + "\n}\n"


def do_table(unit, kind, spec, lines, mode):
    """a table of string literals in the source -> a function over it.
    list:  FILE :: static NAME :: fn F   the first `vec![..]` of literals after `NAME` -> `fn F(key) -> bool` (membership)
    pairs: FILE :: fn NAME :: fn F      the first `[ (k, v), .. ]` after `fn NAME` -> `fn F() -> VxMap` (successive inserts)"""
    file, anchor, fn = [x.strip() for x in spec.split(" :: ")]
    fn = fn.split()[-1]
    toks = load(file)
    pos = find_seq(toks, [t.text for t in tokenize(anchor)], 0)
    if pos < 0:
        raise Structural(f"anchor lost: {anchor} in {file}")
    d = parse_directives(lines)
    ex = Extracted(fn, file, anchor, toks[pos].line)
    k = pos
    if kind == "list":
        while not (toks[k].text == "vec" and toks[k + 1].text == "!"):
            k += 1
        b = k + 2
    else:
        while not (toks[k].text == "[" and toks[k + 1].text == "(" and toks[k + 2].kind == "str"):
            k += 1
        b = k
    e = match_close(toks, b)
    items = [x for x in rewrite.split_commas(toks[b + 1:e]) if x]
    if kind == "list":
        if not all(len(x) == 1 and x[0].kind == "str" for x in items):
            raise Structural(f"{anchor} is not a list of literals")
        body = " || ".join(f"vx_str_eq(key, {x[0].text})" for x in items)
        sig = f"fn {fn}(key: &str) -> (r: bool)"
        body = d["body"] + "\n" + body
    else:
        body = "let mut m = VxMap::new();\n"
        for x in items:
            q = rewrite.split_commas(x[1:-1])
            if x[0].text != "(" or len(q) != 2 or len(q[0]) != 1 or len(q[1]) != 1:
                raise Structural(f"{anchor} is not a table of literals")
            body += f"m.insert(vx_string({q[0][0].text}), vx_av_str({q[1][0].text}));\n"
        body = d["body"] + "\n" + body + d["tail"] + "\nm"
        sig = f"fn {fn}() -> (r: VxMap<AttrValue>)"
    if mode == "entry":
        body = "assert(false); // VXVAC\n" + body
    unit.functions.append(ex)
    return f"{sig}\n{d['spec']}\n{{\n{body}\n}}\n", ex


def do_skeleton(unit, spec, lines, mode):
    """the control flow of a function (see skeleton.py); `//@ tracked PLACE a b c`, `//@ kindof TOKEN FILE`, `//@ effect PATTERN ==> STUB`"""
    m = re.match(r"(\S+)\s*::\s*(.+?)\s*::\s*fn\s+(\w+)\s*$", spec)
    file, container, name = m.groups()
    d = {"effects": [], "need": []}
    for ln in lines:
        q = re.match(r"\s*//@\s*(\w+)\s+(.*)$", ln)
        if not q:
            continue
        if q.group(1) == "effect":
            a, _, b = q.group(2).partition("==>")
            d["effects"].append((a.strip(), b.strip()))
        elif q.group(1) == "tracked":
            w = q.group(2).split()
            d["tracked"], d["accessors"] = w[0], set(w[1:])
        elif q.group(1) == "kindof":
            w = q.group(2).split()
            d["kindof"], d["kinds_path"] = w[0], os.path.join(REPO, w[1])
        elif q.group(1) == "param":
            d["param"] = q.group(2)
    it = rs.find(load(file), container, "fn", name)
    txt, sk = skeleton.build(load(file), it, d)
    if not sk.sites:
        raise Structural(f"{name} has none of the calls under contract")
    ex = Extracted(name, file, container, it.header[0].line)
    ex.skeleton = True
    ex.noexit = True
    ex.sites = sk.sites
    if mode == "entry":
        txt = "assert(false); // VXVAC\n" + txt
    unit.functions.append(ex)
    return (f"#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\nfn {name}({d['param']})\n{{\n{txt}\n}}\n"), ex


def build(name, mode="", contracts=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")):
    text = open(os.path.join(contracts, name + ".vrs")).read()
    unit = Unit(name, text)
    out, line = [], 1
    gsubs = []
    lines = expand_includes(text, contracts)
    i = 0

    def put(s):
        nonlocal line
        out.append(s)
        line += s.count("\n")

    while i < len(lines):
        ln = lines[i]
        m = re.match(r"\s*//@(extract|item|gsub|list|pairs|distinct|differs|expect|skeleton)\s+(.*)$", ln)
        if not m:
            put(ln + "\n")
            i += 1
            continue
        if m.group(1) == "gsub":
            a, _, b = m.group(2).partition("==>")
            gsubs.append((a.strip(), b.strip()))
            i += 1
            continue
        if m.group(1) == "expect":
            # an assumed contract is about this very text
            f, _, want = m.group(2).partition(" :: ")
            if find_seq(load(f.strip()), [t.text for t in tokenize(want)], 0) < 0:
                raise Structural(f"anchor lost: `{want}` in {f}")
            i += 1
            continue
        if m.group(1) in ("distinct", "differs"):
            put(do_distinct(m.group(2), m.group(1) == "differs"))
            i += 1
            continue
        j = i + 1
        while not re.match(r"\s*//@end\b", lines[j]):
            j += 1
        if m.group(1) == "extract":
            txt, ex = do_extract(unit, m.group(2).strip(), lines[i + 1:j], mode, gsubs)
            ex.gen_start = line
            put(txt)
            ex.gen_end = line
        elif m.group(1) == "skeleton":
            txt, ex = do_skeleton(unit, m.group(2).strip(), lines[i + 1:j], mode)
            ex.gen_start = line
            put(txt)
            ex.gen_end = line
        elif m.group(1) in ("list", "pairs"):
            txt, ex = do_table(unit, m.group(1), m.group(2).strip(), lines[i + 1:j], mode)
            ex.gen_start = line
            put(txt)
            ex.gen_end = line
        else:
            put(do_item(unit, m.group(2).strip(), lines[i + 1:j], gsubs))
        i = j + 1
    unit.source = "".join(out)
    return unit


def expand_includes(text, contracts):
    res = []
    for ln in text.split("\n"):
        m = re.match(r"\s*//@include\s+(\S+)", ln)
        if m:
            res += expand_includes(open(os.path.join(contracts, m.group(1))).read(), contracts)
        else:
            res.append(ln)
    return res


ASSUME = re.compile(r"\b(assume_specification|external_body|admit\s*\(|assume\s*\(|axiom\b|external_type_specification|external_fn_specification|exec_allows_no_decreases_clause|uninterp)")


def scan_assumptions(source):
    """mechanical scan for every trusted construct in the generated file"""
    found = []
    lines = source.split("\n")
    for i, ln in enumerate(lines):
        code = ln.split("//")[0]
        m = ASSUME.search(code)
        if m:
            ctx = code.strip()
            k = i
            # name the thing: the next line carrying `fn`/`struct`
            while k < len(lines) and not re.search(r"\b(fn|struct|enum|trait)\s+\w+|assume_specification", lines[k]):
                k += 1
            name = re.search(r"(fn|struct|enum|trait)\s+(\w+)", lines[k]) if k < len(lines) else None
            if "assume_specification" in code:
                mm = re.search(r"\[\s*(.+?)\s*\]\s*\(", code)
                found.append("assume_specification " + (mm.group(1) if mm else ctx))
            else:
                found.append(f"{m.group(1).strip('( ')} {name.group(2) if name else ctx}")
    seen = []
    for f in found:
        if f not in seen:
            seen.append(f)
    return seen
