//@include prelude.inc
use vstd::string::*;
verus! {
// unit: conditional directives (parser/src/tasks/directives/*.rs, the directive tests of parser/src/line.rs)
//@gsub BumpString<'arena> ==> String
//@gsub Line<'arena> ==> Line
//@gsub DirectiveAction<'arena> ==> DirectiveAction
//@gsub Value<'arena> ==> Value
//@gsub Token<'arena> ==> Token
//@gsub format!($x) ==> vx_msg()
//@gsub regx::DIRECTIVE_IFDEF.captures($x) ==> vx_ifdef_captures($x)
//@gsub regx::DIRECTIVE_IFEVAL.captures($x) ==> vx_ifeval_captures($x)
//@gsub regx::DIRECTIVE_INVALID_IFEVAL.captures($x) ==> vx_bad_ifeval_captures($x)
//@gsub regx::DIRECTIVE_ENDIF.captures($x) ==> vx_endif_captures($x)
// ---- trusted models: strings are their characters, the directive patterns functions of the line's text ----
pub uninterp spec fn re_ifdef(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
pub uninterp spec fn re_ifeval(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, Seq<char>, Seq<char>)>;
pub uninterp spec fn re_bad_ifeval(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
/// where the bracketed text starts
pub uninterp spec fn text_at(s: Seq<char>) -> usize;
pub uninterp spec fn first_start(l: Seq<T>) -> u32;
pub uninterp spec fn re_endif(s: Seq<char>) -> Option<Seq<char>>;
//@expect core/src/regx.rs :: r#"^ifn?def::([^\[]*[^\[\s])\[(.*)\]\s*$"#
//@expect core/src/regx.rs :: r#"^endif::(\S*)\[\]\s*$"#
//@expect core/src/regx.rs :: r#"^ifeval::(.*?)\[\s*(\S.*?) *([=!><]=|[><]) *(.*\S)\s*\]\s*$"#
#[verifier::external_body]
pub struct VxCaps { x: u8 }
#[verifier::external_body]
pub struct VxMatch { x: u8 }
impl VxCaps {
    pub uninterp spec fn g(&self, i: int) -> Option<Seq<char>>;
    pub uninterp spec fn pos(&self, i: int) -> usize;
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<VxMatch>) ensures match r { Some(m) => self.g(i as int) == Some(m.t()) && m.at() == self.pos(i as int), None => self.g(i as int).is_none() }, { unimplemented!() }
    #[verifier::external_body]
    fn vx_at(&self, i: usize) -> (r: &str) requires self.g(i as int).is_some(), ensures self.g(i as int) == Some(r@), { unimplemented!() }
}
impl VxMatch {
    pub uninterp spec fn t(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> usize;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self.t(), { unimplemented!() }
    #[verifier::external_body]
    fn start(&self) -> (r: usize) ensures r == self.at(), { unimplemented!() }
}
#[verifier::external_body]
fn vx_ifdef_captures(s: &str) -> (r: Option<VxCaps>)
    ensures match r { Some(c) => re_ifdef(s@).is_some() && c.g(1) == Some(re_ifdef(s@).unwrap().0) && c.g(2) == Some(re_ifdef(s@).unwrap().1) && c.pos(2) == text_at(s@) && text_at(s@) < 0x4000_0000, None => re_ifdef(s@).is_none() }, { unimplemented!() }
#[verifier::external_body]
fn vx_ifeval_captures(s: &str) -> (r: Option<VxCaps>)
    ensures match r { Some(c) => re_ifeval(s@).is_some() && ({ let e = re_ifeval(s@).unwrap(); c.g(1) == Some(e.0) && c.g(2) == Some(e.1) && c.g(3) == Some(e.2) && c.g(4) == Some(e.3) }), None => re_ifeval(s@).is_none() }, { unimplemented!() }
#[verifier::external_body]
fn vx_bad_ifeval_captures(s: &str) -> (r: Option<VxCaps>)
    ensures match r { Some(c) => c.g(1).is_some() && c.g(2).is_some(), None => true }, { unimplemented!() }
#[verifier::external_body]
fn vx_endif_captures(s: &str) -> (r: Option<VxCaps>)
    ensures match r { Some(c) => re_endif(s@).is_some() && c.g(1) == re_endif(s@), None => re_endif(s@).is_none() }, { unimplemented!() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@), { s.to_lowercase() }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
fn vx_string(a: &str) -> (r: String) ensures r@ == a@, { a.to_owned() }
#[verifier::external_body]
fn vx_is_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0), { a.is_empty() }
#[verifier::external_body]
fn vx_msg() -> (r: String) { unimplemented!() }
pub uninterp spec fn text_less(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_str_lt(a: &str, b: &str) -> (r: bool) ensures r == text_less(a@, b@), { a < b }
pub uninterp spec fn float_eq(a: f32, b: f32) -> bool;
pub uninterp spec fn float_lt(a: f32, b: f32) -> bool;
pub uninterp spec fn float_of(a: isize) -> f32;
#[verifier::external_body]
fn vx_float_eq(a: f32, b: f32) -> (r: bool) ensures r == float_eq(a, b), { a == b }
#[verifier::external_body]
fn vx_float_lt(a: f32, b: f32) -> (r: bool) ensures r == float_lt(a, b), { a < b }
#[verifier::external_body]
fn vx_float_le(a: f32, b: f32) -> (r: bool) ensures r == (float_lt(a, b) || float_eq(a, b)), { a <= b }
#[verifier::external_body]
fn vx_float(a: isize) -> (r: f32) ensures r == float_of(a), { a as f32 }
/// `str.split([',', '+'])`
spec fn parts(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] } else { let p = parts(s.drop_last()); if s.last() == ',' || s.last() == '+' { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } }
}
#[verifier::external_body]
fn vx_split2<'a>(s: &'a str, c: [char; 2]) -> (r: Vec<&'a str>)
    requires c@ == seq![',', '+'],
    ensures r.len() == parts(s@).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == parts(s@)[i],
{ s.split(c).collect() }
#[verifier::external_body]
fn vx_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c), { s.contains(c) }

//@item core/src/attrs.rs :: - :: enum AttrValue
//@end
pub enum AV { S(Seq<char>), B(bool) }
impl View for AttrValue { type V = AV; open spec fn view(&self) -> AV { match *self { AttrValue::String(s) => AV::S(s@), AttrValue::Bool(b) => AV::B(b) } } }
/// the attributes in force (unit meta)
#[verifier::external_body]
pub struct DocumentMeta { x: u8 }
impl DocumentMeta {
    pub uninterp spec fn v(&self, k: Seq<char>) -> Option<AV>;
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&AttrValue>) ensures match r { Some(a) => self.v(k@) == Some(a@), None => self.v(k@).is_none() }, { unimplemented!() }
}
// ---- tokens and lines, as unit lexer proves them ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum TokenKind { Directive, Newline, AttrRef, Discard, Word, Other }
pub struct Token { pub kind: TokenKind, pub lexeme: String }
#[derive(PartialEq, Eq)]
pub struct Diagnostic { x: u8 }
pub type Result<T> = std::result::Result<T, Diagnostic>;
#[derive(Clone, Copy)]
pub struct SourceLocation { pub start: u32, pub end: u32, pub include_depth: u16 }
pub struct T { pub kind: TokenKind, pub lex: Seq<char> }
pub open spec fn tv(t: Token) -> T { T { kind: t.kind, lex: t.lexeme@ } }
/// the text of a line that has been read: the tokens except references replaced by what follows them
pub open spec fn src_of(l: Seq<T>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else if l.last().kind == TokenKind::AttrRef || l.last().kind == TokenKind::Discard { src_of(l.drop_last()) } else { src_of(l.drop_last()) + l.last().lex } }
/// a line as it stands in the document, nothing replaced
pub open spec fn plain(t: T) -> T { if t.kind == TokenKind::AttrRef { T { kind: TokenKind::Word, lex: t.lex } } else { t } }
pub open spec fn plain_line(l: Seq<T>) -> Seq<T> { l.map_values(|t: T| plain(t)) }
pub open spec fn whole(l: Seq<T>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { whole(l.drop_last()) + l.last().lex } }
/// so the directives of skipped lines are recognised by all of their text
proof fn theorem_plain(l: Seq<T>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).kind != TokenKind::Discard,
    ensures src_of(plain_line(l)) == whole(l),
    decreases l.len(),
{
    if l.len() > 0 {
        assert(plain_line(l).drop_last() =~= plain_line(l.drop_last()));
        assert(l.last() == l[l.len() - 1]);
        assert forall|i: int| 0 <= i < l.drop_last().len() implies (#[trigger] l.drop_last()[i]).kind != TokenKind::Discard by { assert(l[i].kind != TokenKind::Discard); }
        theorem_plain(l.drop_last());
    }
}
pub struct Line { pub tokens: Vec<Token> }
impl View for Line { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.tokens@.map_values(|t: Token| tv(t)) } }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@, { s.push_str(t) }
impl Line {
    #[verifier::external_body]
    fn empty(b: VxBump) -> (r: Line) ensures r@ == Seq::<T>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, t: Token) ensures final(self)@ == old(self)@.push(tv(t)), { unimplemented!() }
    #[verifier::external_body]
    fn num_tokens(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    fn starts(&self, k: TokenKind) -> (r: bool) ensures r == (self@.len() > 0 && self@[0].kind == k), { unimplemented!() }
    #[verifier::external_body]
    fn vx_first_matches(&self, k: TokenKind, s: &str) -> (r: bool) ensures r == (self@.len() > 0 && self@[0].kind == k && self@[0].lex == s@), { unimplemented!() }
    #[verifier::external_body]
    fn vx_first_lexeme(&self) -> (r: &str) requires self@.len() > 0, ensures r@ == self@[0].lex, { unimplemented!() }
    #[verifier::external_body]
    fn first_loc(&self) -> (r: Option<SourceLocation>) ensures self@.len() > 0 ==> r.is_some(), self@.len() > 0 ==> r.unwrap().start == first_start(self@) && r.unwrap().start < 0x8000_0000, { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct VxBump { x: u8 }
/// the tokens still to come
#[verifier::external_body]
pub struct Lexer { x: u8 }
impl View for Lexer { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
spec fn nl(t: T) -> bool { t.kind == TokenKind::Newline }
impl Lexer {
    #[verifier::external_body]
    fn is_eof(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    fn at_newline(&self) -> (r: bool) ensures r == (self@.len() > 0 && nl(self@[0])), { unimplemented!() }
    #[verifier::external_body]
    fn next_token(&mut self) -> (r: Token) requires old(self)@.len() > 0, ensures tv(r) == old(self)@[0], final(self)@ == old(self)@.drop_first(), { unimplemented!() }
    #[verifier::external_body]
    fn skip_newline(&mut self) ensures final(self)@ == (if old(self)@.len() > 0 && nl(old(self)@[0]) { old(self)@.drop_first() } else { old(self)@ }), { unimplemented!() }
    pub uninterp spec fn with_tmp(&self, s: Seq<char>, o: u32) -> Seq<T>;
    #[verifier::external_body]
    fn set_tmp_buf(&mut self, s: &str, b: BufLoc) ensures match b { BufLoc::Offset(o) => final(self)@ == old(self).with_tmp(s@, o), _ => true }, { unimplemented!() }
}
pub enum BufLoc { Offset(u32), Other }
pub struct ParseContext { pub ifdef_stack: Vec<String> }
pub struct Document { pub meta: DocumentMeta }
/// the parser as the directives see it
pub struct Parser { pub lexer: Lexer, pub ctx: ParseContext, pub document: Document, pub bump: VxBump }
/// reading the next line is the caller of all this; its result is left open
pub uninterp spec fn read_gives(before: Parser, r: Result<Option<Line>>, after: Parser) -> bool;
pub enum DirectiveAction { Passthrough, ReadNextLine, SkipLinesUntilEndIf, SubstituteLine(Line) }

// ---- specification ----
spec fn closes(l: Seq<T>) -> Option<Seq<char>> {
    if l.len() >= 3 && l[0].kind == TokenKind::Directive && l[0].lex == "endif::"@ { re_endif(src_of(l)) } else { None }
}
/// a directive whose lines go on to an `endif`: not `ifdef::x[text]`
spec fn opens(l: Seq<T>) -> bool {
    l.len() > 0 && l[0].kind == TokenKind::Directive && match re_ifdef(src_of(l)) { Some(p) => p.1.len() == 0, None => match re_ifeval(src_of(l)) { Some(p) => p.0.len() == 0, None => false } }
}
spec fn line_end(s: Seq<T>) -> int
    decreases s.len(),
{ if s.len() == 0 || nl(s[0]) { 0 } else { 1 + line_end(s.drop_first()) } }
proof fn lemma_line_end(s: Seq<T>)
    ensures 0 <= line_end(s) <= s.len(), line_end(s) < s.len() ==> nl(s[line_end(s)]), forall|i: int| 0 <= i < line_end(s) ==> !nl(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 && !nl(s[0]) {
        lemma_line_end(s.drop_first());
        assert forall|i: int| 0 <= i < line_end(s) implies !nl(#[trigger] s[i]) by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
        if line_end(s) < s.len() { assert(s.drop_first()[line_end(s) - 1] == s[line_end(s)]); }
    }
}
spec fn after_line(s: Seq<T>) -> Seq<T> { let n = line_end(s); if n < s.len() { s.subrange(n + 1, s.len() as int) } else { Seq::empty() } }
/// what is left after the `endif` that closes `depth` open conditionals
spec fn skip(s: Seq<T>, depth: int) -> Option<Seq<T>>
    decreases s.len(),
{
    if s.len() == 0 { None } else {
        let l = plain_line(s.subrange(0, line_end(s))); let rest = after_line(s);
        if rest.len() >= s.len() { None }
        else if closes(l).is_some() { if depth == 1 { Some(rest) } else { skip(rest, depth - 1) } }
        else if opens(l) { skip(rest, depth + 1) }
        else { skip(rest, depth) }
    }
}
// a document part as lines
spec fn flat(ls: Seq<Seq<T>>, n: T) -> Seq<T>
    decreases ls.len(),
{ if ls.len() == 0 { Seq::empty() } else { ls[0].push(n) + flat(ls.drop_first(), n) } }
/// nesting depth after the lines, `None` if it ever falls below what it started at
spec fn depth_after(ls: Seq<Seq<T>>, d: int) -> Option<int>
    decreases ls.len(),
{
    if ls.len() == 0 { Some(d) } else {
        let e = if closes(plain_line(ls[0])).is_some() { d - 1 } else if opens(plain_line(ls[0])) { d + 1 } else { d };
        if e < 1 { None } else { depth_after(ls.drop_first(), e) }
    }
}
spec fn is_line(l: Seq<T>) -> bool { forall|i: int| 0 <= i < l.len() ==> !nl(#[trigger] l[i]) }
proof fn lemma_first_line(l: Seq<T>, n: T, s: Seq<T>)
    requires is_line(l), nl(n),
    ensures line_end(l.push(n) + s) == l.len(), (l.push(n) + s).subrange(0, l.len() as int) == l, after_line(l.push(n) + s) == s,
    decreases l.len(),
{
    let t = l.push(n) + s;
    if l.len() > 0 {
        assert(!nl(l[0]));
        assert(t.drop_first() =~= l.drop_first().push(n) + s);
        assert forall|i: int| 0 <= i < l.drop_first().len() implies !nl(#[trigger] l.drop_first()[i]) by { assert(!nl(l[i + 1])); }
        lemma_first_line(l.drop_first(), n, s);
        assert(t[0] == l[0]);
    } else { assert(t[0] == n); }
    assert(t.subrange(0, l.len() as int) =~= l);
    assert(t.subrange(l.len() as int + 1, t.len() as int) =~= s);
}
/// THEOREM: a skipped block is exactly the lines up to its own `endif`, however conditionals are nested in it
proof fn theorem_skip(ls: Seq<Seq<T>>, e: Seq<T>, n: T, rest: Seq<T>, d: int)
    requires nl(n), d >= 1, forall|i: int| 0 <= i < ls.len() ==> is_line(#[trigger] ls[i]), is_line(e), closes(plain_line(e)).is_some(), depth_after(ls, d) == Some(1int),
    ensures skip(flat(ls, n) + (e.push(n) + rest), d) == Some(rest),
    decreases ls.len(),
{
    let tail = e.push(n) + rest;
    if ls.len() == 0 {
        assert(flat(ls, n) + tail =~= tail);
        lemma_first_line(e, n, rest);
        assert(tail.len() > rest.len());
    } else {
        let s2 = flat(ls.drop_first(), n) + tail;
        assert(flat(ls, n) + tail =~= ls[0].push(n) + s2);
        assert(is_line(ls[0]));
        lemma_first_line(ls[0], n, s2);
        assert forall|i: int| 0 <= i < ls.drop_first().len() implies is_line(#[trigger] ls.drop_first()[i]) by { assert(is_line(ls[i + 1])); }
        let d2 = if closes(plain_line(ls[0])).is_some() { d - 1 } else if opens(plain_line(ls[0])) { d + 1 } else { d };
        theorem_skip(ls.drop_first(), e, n, rest, d2);
    }
}
/// an attribute counts as defined unless it is missing or unset
spec fn on(m: DocumentMeta, k: Seq<char>) -> bool { match m.v(k) { Some(AV::B(b)) => b, Some(AV::S(_)) => true, None => false } }
spec fn all_on(m: DocumentMeta, p: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < p.len() ==> on(m, #[trigger] p[i]) }
spec fn any_on(m: DocumentMeta, p: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < p.len() && on(m, #[trigger] p[i]) }
/// `a,b` asks for any, `a+b` for all; the negated form is the opposite (a mixture under `ifndef::a+b` is left open, see KNOWN_FINDINGS)
spec fn decides(m: DocumentMeta, defined: bool, attrs: Seq<char>, r: bool) -> bool {
    let p = parts(attrs);
    if attrs.contains(',') { r == (any_on(m, p) == defined) }
    else if defined { r == all_on(m, p) }
    else { (all_on(m, p) ==> !r) && (!any_on(m, p) ==> r) }
}
pub enum V { Int(isize), Float(f32), Text(Seq<char>), Bool(bool), Nil }
//@item parser/src/tasks/directives/ifeval.rs :: - :: enum Value
//@end
//@item parser/src/tasks/directives/ifeval.rs :: - :: enum Op
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
impl View for Value { type V = V; closed spec fn view(&self) -> V { match *self { Value::Int(i) => V::Int(i), Value::Float(f) => V::Float(f), Value::String(s) => V::Text(s@), Value::Boolean(b) => V::Bool(b), Value::Nil => V::Nil } } }
spec fn ordered(op: Op, lt: bool, eq: bool, gt: bool) -> bool {
    match op { Op::Eq => eq, Op::NotEq => !eq, Op::Less => lt, Op::LessEq => lt || eq, Op::Greater => gt, Op::GreaterEq => gt || eq }
}
spec fn floats(a: f32, op: Op, b: f32) -> bool { ordered(op, float_lt(a, b), float_eq(a, b), float_lt(b, a)) }
spec fn holds(l: V, op: Op, r: V) -> bool {
    match (l, r) {
        (V::Text(a), V::Text(b)) => ordered(op, text_less(a, b), a == b, text_less(b, a)),
        (V::Int(a), V::Int(b)) => ordered(op, a < b, a == b, a > b),
        (V::Float(a), V::Float(b)) => floats(a, op, b),
        (V::Int(a), V::Float(b)) => floats(float_of(a), op, b),
        (V::Float(a), V::Int(b)) => floats(a, op, float_of(b)),
        (V::Bool(a), V::Bool(b)) => match op { Op::Eq => a == b, Op::NotEq => a != b, _ => false },
        (V::Nil, V::Nil) => op == Op::Eq,
        _ => op == Op::NotEq,
    }
}
/// `!=` is the opposite of `==` for all values, and both are symmetric up to float comparison
proof fn theorem_eq(l: V, r: V)
    ensures holds(l, Op::NotEq, r) == !holds(l, Op::Eq, r),
        (forall|a: f32, b: f32| float_eq(a, b) == float_eq(b, a)) ==> holds(l, Op::Eq, r) == holds(r, Op::Eq, l) && holds(l, Op::NotEq, r) == holds(r, Op::NotEq, l),
{ }
spec fn op_named(s: Seq<char>) -> Option<Op> {
    if s == "=="@ { Some(Op::Eq) } else if s == "!="@ { Some(Op::NotEq) } else if s == "<"@ { Some(Op::Less) } else if s == "<="@ { Some(Op::LessEq) } else if s == ">"@ { Some(Op::Greater) } else if s == ">="@ { Some(Op::GreaterEq) } else { None }
}
pub uninterp spec fn int_of(s: Seq<char>) -> Option<isize>;
pub uninterp spec fn real_of(s: Seq<char>) -> Option<f32>;
#[verifier::external_body]
fn vx_parse_int(s: &str) -> (r: std::result::Result<isize, ()>) ensures match r { Ok(i) => int_of(s@) == Some(i), Err(_) => int_of(s@).is_none() }, { unimplemented!() }
#[verifier::external_body]
fn vx_parse_float(s: &str) -> (r: std::result::Result<f32, ()>) ensures match r { Ok(i) => real_of(s@) == Some(i), Err(_) => real_of(s@).is_none() }, { unimplemented!() }
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures s@.len() <= r, r <= 4 * s@.len(), r <= 1 ==> r == s@.len(), s@.len() == 1 && (s@[0] as int) < 128 ==> r == 1, { s.len() }
#[verifier::external_body]
fn vx_starts(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c), { s.starts_with(c) }
#[verifier::external_body]
fn vx_ends(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c), { s.ends_with(c) }
/// `&s[1..s.len() - 1]`: needs an ASCII character at either end, two of them
#[verifier::external_body]
fn vx_inner(s: &str) -> (r: &str) requires s@.len() >= 2, (s@[0] as int) < 128, (s@.last() as int) < 128, ensures r@ == s@.subrange(1, s@.len() - 1), { &s[1..s.len() - 1] }
pub uninterp spec fn blank(s: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_blank(s: &str) -> (r: bool) ensures r == blank(s@), { s.chars().all(|c| c.is_ascii_whitespace()) }
pub uninterp spec fn replaced(m: DocumentMeta, s: Seq<char>) -> Seq<char>;
spec fn quoted(s: Seq<char>) -> bool { s.len() >= 2 && ((s[0] == '\'' && s.last() == '\'') || (s[0] == '"' && s.last() == '"')) }
spec fn value_of(s: Seq<char>) -> V {
    if s == "true"@ { V::Bool(true) } else if s == "false"@ { V::Bool(false) } else if s == ""@ { V::Nil }
    else if int_of(s).is_some() { V::Int(int_of(s).unwrap()) } else if real_of(s).is_some() { V::Float(real_of(s).unwrap()) }
    else if quoted(s) { V::Text(s.subrange(1, s.len() - 1)) } else if blank(s) { V::Text(" "@) } else { V::Int(0) }
}
spec fn stack(p: Parser) -> Seq<String> { p.ctx.ifdef_stack@ }
/// nothing else of the parser is touched
spec fn same_doc(a: Parser, b: Parser) -> bool { a.document == b.document && a.bump == b.bump }

impl Line {
//@extract parser/src/line.rs :: impl Line :: fn reassemble_src
//@ sub BumpString::with_capacity_in(self.src_len(), self.tokens.bump) ==> String::new()
//@ sub self.tokens.iter().filter(|t| !matches!(t.kind, AttrRef | Discard)) ==> self.tokens.as_slice()
//@ sub src.push_str(&token.lexeme) ==> if !(token.kind == TokenKind::AttrRef || token.kind == TokenKind::Discard) { vx_push_str(&mut src, &token.lexeme) }
//@ for 0 slice
//@ spec
ensures r@ == src_of(self@),
//@ loop 0
invariant vx_i0 <= vx_s0@.len(), vx_s0@ == self.tokens@, src@ == src_of(self@.subrange(0, vx_i0 as int)),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
proof { assert(self@.subrange(0, vx_i0 as int + 1).drop_last() =~= self@.subrange(0, vx_i0 as int)); assert(self@.subrange(0, vx_i0 as int + 1).last() == tv(self.tokens@[vx_i0 as int])); }
//@ tail
proof { assert(self@.subrange(0, self@.len() as int) =~= self@); }
//@end
//@extract parser/src/line.rs :: impl Line :: fn directive_endif_target
//@ sub self .current_token() .matches(TokenKind::Directive, "endif::") ==> self.vx_first_matches(TokenKind::Directive, "endif::")
//@ sub vx_endif_captures(&src).map(|captures| { let attrs = captures.get(1).map_or("", |c| c.as_str()); BumpString::from_str_in(attrs, self.tokens.bump) }) ==> match vx_endif_captures(&src) { Some(captures) => { let vx_m = captures.get(1); let attrs = match &vx_m { None => "", Some(c) => c.as_str() }; Some(vx_string(attrs)) } None => None }
//@ spec
ensures match r { Some(t) => closes(self@) == Some(t@), None => closes(self@).is_none() },
//@end
//@extract parser/src/line.rs :: impl Line :: fn is_directive_endif
//@ spec
ensures r == closes(self@).is_some(),
//@end
//@extract parser/src/line.rs :: impl Line :: fn opens_conditional
//@ sub captures[2].is_empty() ==> vx_is_empty(captures.vx_at(2))
//@ sub vx_ifeval_captures(&src).is_some_and(|captures| captures[1].is_empty()) ==> (match vx_ifeval_captures(&src) { Some(captures) => vx_is_empty(captures.vx_at(1)), None => false })
//@ spec
ensures r == opens(self@),
//@end
}
impl Op {
//@extract parser/src/tasks/directives/ifeval.rs :: impl Op :: fn from_str
//@ spec
ensures r == op_named(op@),
//@end
}
//@extract parser/src/tasks/directives/ifeval.rs :: - :: fn eval
//@ sub (Value::String(lhs), Op::Eq, Value::String(rhs)) => lhs == rhs ==> (Value::String(lhs), Op::Eq, Value::String(rhs)) => vx_str_eq(&lhs, &rhs)
//@ sub (Value::String(lhs), Op::NotEq, Value::String(rhs)) => lhs != rhs ==> (Value::String(lhs), Op::NotEq, Value::String(rhs)) => !vx_str_eq(&lhs, &rhs)
//@ sub (Value::String(lhs), Op::Less, Value::String(rhs)) => lhs < rhs ==> (Value::String(lhs), Op::Less, Value::String(rhs)) => vx_str_lt(&lhs, &rhs)
//@ sub (Value::String(lhs), Op::LessEq, Value::String(rhs)) => lhs <= rhs ==> (Value::String(lhs), Op::LessEq, Value::String(rhs)) => (vx_str_lt(&lhs, &rhs) || vx_str_eq(&lhs, &rhs))
//@ sub (Value::String(lhs), Op::Greater, Value::String(rhs)) => lhs > rhs ==> (Value::String(lhs), Op::Greater, Value::String(rhs)) => vx_str_lt(&rhs, &lhs)
//@ sub (Value::String(lhs), Op::GreaterEq, Value::String(rhs)) => lhs >= rhs ==> (Value::String(lhs), Op::GreaterEq, Value::String(rhs)) => (vx_str_lt(&rhs, &lhs) || vx_str_eq(&lhs, &rhs))
//@ sub (Value::Float(lhs), Op::Eq, Value::Float(rhs)) => lhs == rhs ==> (Value::Float(lhs), Op::Eq, Value::Float(rhs)) => vx_float_eq(lhs, rhs)
//@ sub (Value::Float(lhs), Op::NotEq, Value::Float(rhs)) => lhs != rhs ==> (Value::Float(lhs), Op::NotEq, Value::Float(rhs)) => !vx_float_eq(lhs, rhs)
//@ sub (Value::Float(lhs), Op::Less, Value::Float(rhs)) => lhs < rhs ==> (Value::Float(lhs), Op::Less, Value::Float(rhs)) => vx_float_lt(lhs, rhs)
//@ sub (Value::Float(lhs), Op::LessEq, Value::Float(rhs)) => lhs <= rhs ==> (Value::Float(lhs), Op::LessEq, Value::Float(rhs)) => vx_float_le(lhs, rhs)
//@ sub (Value::Float(lhs), Op::Greater, Value::Float(rhs)) => lhs > rhs ==> (Value::Float(lhs), Op::Greater, Value::Float(rhs)) => vx_float_lt(rhs, lhs)
//@ sub (Value::Float(lhs), Op::GreaterEq, Value::Float(rhs)) => lhs >= rhs ==> (Value::Float(lhs), Op::GreaterEq, Value::Float(rhs)) => (vx_float_lt(rhs, lhs) || vx_float_eq(lhs, rhs))
//@ sub lhs as f32 ==> vx_float(lhs)
//@ sub rhs as f32 ==> vx_float(rhs)
//@ sub rhs @ Value::Float(_)) => eval(Value::Float(vx_float(lhs)), op, rhs) ==> Value::Float(rhs)) => eval(Value::Float(vx_float(lhs)), op, Value::Float(rhs))
//@ sub (lhs @ Value::Float(_), op, Value::Int(rhs)) => eval(lhs, op, ==> (Value::Float(lhs), op, Value::Int(rhs)) => eval(Value::Float(lhs), op,
//@ spec
ensures r == holds(lhs@, op, rhs@),
decreases (if lhs is Int && rhs is Float || lhs is Float && rhs is Int { 1int } else { 0int }),
//@end
impl Parser {
    #[verifier::external_body]
    fn read_line(&mut self) -> (r: Result<Option<Line>>) ensures read_gives(*old(self), r, *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn string(&self, s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
    #[verifier::external_body]
    fn err_line(&self, m: &str, l: &Line) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn err_at_pattern<M>(&self, m: M, l: SourceLocation, p: &str) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn replace_attr_vals(&self, s: &str) -> (r: String) ensures r@ == replaced(self.document.meta, s@), { unimplemented!() }
    #[verifier::external_body]
    fn try_process_include_directive(&mut self, line: &mut Line) -> (r: Result<DirectiveAction>) { unimplemented!() }
//@extract parser/src/tasks/directives/ifeval.rs :: impl Parser :: fn coerce_eval_expr
//@ sub & * expr ==> expr.as_str()
//@ sub Ok(int) ==> Ok(vx_n)
//@ sub Value::Int(int) ==> Value::Int(vx_n)
//@ sub expr.parse::<isize>() ==> vx_parse_int(&expr)
//@ sub expr.parse::<f32>() ==> vx_parse_float(&expr)
//@ sub expr.len() > 1 ==> vx_len(&expr) > 1
//@ sub expr.starts_with('\'') ==> vx_starts(&expr, '\'')
//@ sub expr.ends_with('\'') ==> vx_ends(&expr, '\'')
//@ sub expr.starts_with('"') ==> vx_starts(&expr, '"')
//@ sub expr.ends_with('"') ==> vx_ends(&expr, '"')
//@ sub &expr[1..expr.len() - 1] ==> vx_inner(&expr)
//@ sub expr.chars().all(|c| c.is_ascii_whitespace()) ==> vx_blank(&expr)
//@ spec
ensures r@ == value_of(replaced(self.document.meta, expr@)),
//@end
//@extract parser/src/tasks/directives/ifdef.rs :: impl Parser :: fn evaluate_ifdef
//@ sub attrs.contains(',') ==> vx_has(attrs, ',')
//@ sub let mut result = attrs.split([',', '+']).fold(!is_any, |current, attr| { $b }) ==> let vx_names = vx_split2(attrs, [',', '+']); let mut vx_acc = !is_any; let mut vx_i0: usize = 0; while vx_i0 < vx_names.len() { let current = vx_acc; let attr = vx_names[vx_i0]; vx_acc = { $b }; vx_i0 = vx_i0 + 1; } let mut result = vx_acc
//@ loop 0
invariant vx_i0 <= vx_names.len(), is_any == attrs@.contains(','), vx_names.len() == parts(attrs@).len(), forall|i: int| 0 <= i < vx_names.len() ==> (#[trigger] vx_names@[i])@ == parts(attrs@)[i],
    is_any ==> vx_acc == any_on(self.document.meta, parts(attrs@).take(vx_i0 as int)),
    !is_any && defined ==> vx_acc == all_on(self.document.meta, parts(attrs@).take(vx_i0 as int)),
    !is_any && !defined ==> (all_on(self.document.meta, parts(attrs@).take(vx_i0 as int)) ==> vx_acc) && (vx_i0 > 0 && !any_on(self.document.meta, parts(attrs@).take(vx_i0 as int)) ==> !vx_acc),
decreases vx_names.len() - vx_i0,
//@ loopbody 0
proof { let p = parts(attrs@); let t = p.take(vx_i0 as int); let u = p.take(vx_i0 + 1); assert(u =~= t.push(p[vx_i0 as int]));
    assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] u[i] == t[i]); assert(u[vx_i0 as int] == p[vx_i0 as int]);
    assert(all_on(self.document.meta, u) == (all_on(self.document.meta, t) && on(self.document.meta, p[vx_i0 as int])));
    assert(any_on(self.document.meta, u) == (any_on(self.document.meta, t) || on(self.document.meta, p[vx_i0 as int]))); }
//@ before if !defined
proof { assert(parts(attrs@).take(parts(attrs@).len() as int) =~= parts(attrs@)); lemma_parts(attrs@); }
//@ spec
ensures decides(self.document.meta, defined, attrs@, r),
//@end
//@extract parser/src/tasks/directives/ifdef.rs :: impl Parser :: fn try_process_ifdef_directive
//@ sub captures.get(1).unwrap().as_str().to_lowercase() ==> vx_lower(captures.vx_at(1))
//@ before Ok(match {
let ghost mid = *self; proof { assert(mid.lexer@ == old(self).lexer.with_tmp(embedded@.push('\n'), (first_start(old(line)@) + text_at(src_of(old(line)@)) as u32) as u32)); assert(same_doc(mid, *old(self))); assert(mid.ctx == old(self).ctx); }
//@ sub &attrs), embedded_line.as_str()) ==> &attrs), vx_is_empty(embedded_line.as_str()), embedded_line.as_str())
//@ sub (false, "") => ==> (false, true, _) =>
//@ sub (false, _) => ==> (false, _, _) =>
//@ sub (true, "") => ==> (true, true, _) =>
//@ sub (true, embedded) => ==> (true, _, embedded) =>
//@ sub self.read_line()? ==> { let vx_r = self.read_line(); proof { assert(read_gives(mid, vx_r, *self)); } vx_r? }
//@ sub let mut src = BumpString::with_capacity_in(embedded.len() + 1, self.bump); src.push_str(embedded); src.push('\n'); ==> let src = vx_with_newline(embedded);
//@ spec
requires old(line)@.len() > 0,
ensures final(line)@ == old(line)@, same_doc(*old(self), *final(self)) || r.is_err() || embedded_read(*old(self), old(line)@, defined, *final(self), r),
    match re_ifdef(src_of(old(line)@)) {
        None => r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::Passthrough) && *final(self) == *old(self),
        Some((attrs, text)) => exists|yes: bool| #[trigger] decides(old(self).document.meta, defined, lower(attrs), yes) && (
            // a block form that holds is remembered until its endif
            if text.len() == 0 && yes { r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::ReadNextLine) && final(self).lexer == old(self).lexer && stack(*final(self)).len() == stack(*old(self)).len() + 1
                && stack(*final(self)).drop_last() == stack(*old(self)) && stack(*final(self)).last()@ == lower(attrs) }
            else if text.len() == 0 { r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::SkipLinesUntilEndIf) && *final(self) == *old(self) }
            else if !yes { r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::ReadNextLine) && *final(self) == *old(self) }
            else { embedded_read(*old(self), old(line)@, defined, *final(self), r) }),
    },
//@end
//@extract parser/src/tasks/directives/ifdef.rs :: impl Parser :: fn skip_lines_until_endif
//@ sub return self.read_line() ==> let ghost mid = *self; let vx_r = self.read_line(); proof { assert(read_gives(mid, vx_r, *self)); assert(mid.lexer@ == skip(p0.lexer@, 1).unwrap()); } return vx_r
//@ sub let mut depth = 1 ==> let mut depth: i32 = 1; let ghost p0 = *self; proof { lemma_line_end(self.lexer@); }
//@ spec
requires old(self).lexer@.len() < 0x4000_0000,
ensures match skip(old(self).lexer@, 1) {
        Some(rest) => exists|mid: Parser| mid.lexer@ == rest && mid.ctx == old(self).ctx && same_doc(mid, *old(self)) && #[trigger] read_gives(mid, r, *final(self)),
        None => (r.is_err() || r == Ok::<Option<Line>, Diagnostic>(None)) && final(self).lexer@.len() == 0 && final(self).ctx == old(self).ctx && same_doc(*final(self), *old(self)),
    },
//@ loop 0
invariant p0 == *old(self), depth >= 1, depth + self.lexer@.len() <= 1 + p0.lexer@.len(), p0.lexer@.len() < 0x4000_0000, skip(self.lexer@, depth as int) == skip(p0.lexer@, 1), self.ctx == p0.ctx, same_doc(*self, p0),
decreases self.lexer@.len(),
//@ loopbody 0
let ghost s0 = self.lexer@; let ghost d0 = depth as int; proof { lemma_line_end(s0); }
//@ loop 1
invariant p0 == *old(self), 0 <= line@.len() <= line_end(s0), line@ == plain_line(s0.subrange(0, line@.len() as int)), self.lexer@ == s0.subrange(line@.len() as int, s0.len() as int), self.ctx == p0.ctx, same_doc(*self, p0),
    line_end(s0) <= s0.len(), line_end(s0) < s0.len() ==> nl(s0[line_end(s0)]), forall|i: int| 0 <= i < line_end(s0) ==> !nl(#[trigger] s0[i]),
decreases self.lexer@.len(),
//@ loopbody 1
proof { let k = line@.len() as int; assert(self.lexer@[0] == s0[k]); if k == line_end(s0) { assert(false); } assert(s0.subrange(0, k + 1) =~= s0.subrange(0, k).push(s0[k])); assert(plain_line(s0.subrange(0, k + 1)) =~= plain_line(s0.subrange(0, k)).push(plain(s0[k]))); assert(s0.subrange(k, s0.len() as int).drop_first() =~= s0.subrange(k + 1, s0.len() as int)); }
//@ before self.lexer.skip_newline()
proof { if (line@.len() as int) < line_end(s0) { assert(self.lexer@[0] == s0[line@.len() as int]); } }
//@ before if line.is_directive_endif()
proof { let k = line@.len() as int; assert(k == line_end(s0)); if k < s0.len() { assert(s0.subrange(k, s0.len() as int)[0] == s0[k]); assert(s0.subrange(k, s0.len() as int).drop_first() =~= s0.subrange(k + 1, s0.len() as int)); }
    assert(self.lexer@ =~= after_line(s0)); assert(self.lexer@.len() < s0.len()); }
//@end
//@extract parser/src/tasks/directives/mod.rs :: impl Parser :: fn try_process_endif_directive
//@ sub expected.as_str() != endif_attrs.to_lowercase() ==> !vx_str_eq(expected.as_str(), &vx_lower(&endif_attrs))
//@ sub !endif_attrs.is_empty() ==> !vx_is_empty(&endif_attrs)
//@ sub vx_msg(), line.first_loc() ==> vx_msg(), line.first_loc()
//@ spec
requires old(line)@.len() > 0,
ensures final(line)@ == old(line)@, final(self).lexer == old(self).lexer, same_doc(*final(self), *old(self)),
    match closes(old(line)@) {
        // no endif after all: text
        None => r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::Passthrough) && stack(*final(self)) == stack(*old(self)),
        Some(t) => if stack(*old(self)).len() > 0 && (t.len() == 0 || lower(t) == stack(*old(self)).last()@) {
                // ends the innermost open conditional
                r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::ReadNextLine) && stack(*final(self)) == stack(*old(self)).drop_last()
            } else { (r.is_err() || r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::Passthrough)) && stack(*final(self)) == stack(*old(self)) },
    },
//@end
//@extract parser/src/tasks/directives/ifeval.rs :: impl Parser :: fn try_process_ifeval_directive
//@ sub let mut pattern = &err_cap[2] ==> let mut pattern = err_cap.vx_at(2)
//@ sub pattern.is_empty() ==> vx_is_empty(pattern)
//@ sub pattern = &err_cap[1] ==> pattern = err_cap.vx_at(1)
//@ sub !&captures[1].is_empty() ==> !vx_is_empty(captures.vx_at(1))
//@ sub &captures[1], ==> captures.vx_at(1),
//@ sub &captures[2] ==> captures.vx_at(2)
//@ sub &captures[3] ==> captures.vx_at(3)
//@ sub &captures[4] ==> captures.vx_at(4)
//@ spec
requires old(line)@.len() > 0,
ensures final(line)@ == old(line)@, final(self).lexer == old(self).lexer, same_doc(*final(self), *old(self)),
    match re_ifeval(src_of(old(line)@)) {
        Some((target, l, op, rr)) => if target.len() > 0 || op_named(op).is_none() { (r.is_err() || r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::Passthrough)) && stack(*final(self)) == stack(*old(self)) }
            else if holds(value_of(replaced(old(self).document.meta, l)), op_named(op).unwrap(), value_of(replaced(old(self).document.meta, rr))) {
                r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::ReadNextLine) && stack(*final(self)).drop_last() == stack(*old(self)) && stack(*final(self)).len() == stack(*old(self)).len() + 1
            } else { r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::SkipLinesUntilEndIf) && stack(*final(self)) == stack(*old(self)) },
        None => (r.is_err() || r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::Passthrough)) && stack(*final(self)) == stack(*old(self)),
    },
//@end
}
/// the text of a one-line conditional that holds is read as a line of its own, in its place
spec fn embedded_read(p: Parser, l: Seq<T>, defined: bool, q: Parser, r: Result<DirectiveAction>) -> bool {
    let text = re_ifdef(src_of(l)).unwrap().1;
    exists|mid: Parser, got: Result<Option<Line>>| mid.lexer@ == p.lexer.with_tmp(text.push('\n'), (first_start(l) + text_at(src_of(l)) as u32) as u32) && mid.ctx == p.ctx && same_doc(mid, p) && #[trigger] read_gives(mid, got, q)
        && match got { Err(_) => r.is_err(), Ok(None) => r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::ReadNextLine), Ok(Some(x)) => r == Ok::<DirectiveAction, Diagnostic>(DirectiveAction::SubstituteLine(x)) }
}
proof fn lemma_parts(s: Seq<char>)
    ensures parts(s).len() > 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_parts(s.drop_last()); } }
#[verifier::external_body]
fn vx_with_newline(s: &str) -> (r: String) ensures r@ == s@.push('\n'), { unimplemented!() }
}
fn main() {}
