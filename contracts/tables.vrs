//@include prelude.inc
use vstd::string::*;
verus! {
// unit: the cells of a table (parser/src/tasks/table/*.rs, ast/src/{table,col_widths}.rs)
//@gsub BumpVec<'arena, Cell<'arena>> ==> Vec<Cell>
//@gsub BumpVec<'arena, PsvCell<'arena>> ==> Vec<PsvCell>
//@gsub BumpVec<'arena, ParseCellData<'arena>> ==> Vec<VxCellData>
//@gsub BumpVec<'arena, Row<'arena>> ==> Vec<Row>
//@gsub BumpVec<'arena, ColSpec> ==> Vec<ColSpec>
//@gsub HashSet<(usize, usize)> ==> VxGrid
//@gsub TableTokens<'arena> ==> TableTokens
//@gsub TableContext<'arena> ==> TableContext
//@gsub PsvCell<'arena> ==> PsvCell
//@gsub CellContent<'arena> ==> VxContent
//@gsub ColWidths<'arena> ==> ColWidths
//@gsub Table<'arena> ==> Table
//@gsub Token<'arena> ==> Token
//@gsub Cell<'arena> ==> Cell
//@gsub Line<'arena> ==> VxLine
//@gsub Row<'arena> ==> Row
//@gsub Line::empty(self.bump) ==> VxLine::empty()
//@gsub bvec![in self.bump] ==> Vec::new()
//@gsub Result<()> ==> std::result::Result<(), VxErr>
//@gsub format!($x) ==> vx_msg()
//@gsub tokens.current().kind($x) ==> vx_kind(tokens.current(), $x)
//@gsub tokens.current().is_whitespaceish() ==> vx_wsish(tokens.current())
//@gsub token.kind($x) ==> (token.kind == $x)
//@expect parser/src/token.rs :: fn is_whitespaceish(&self) -> bool { self.kind(TokenKind::Whitespace) || self.kind(TokenKind::Newline) }

// ---- trusted: text is a sequence of characters, each of one to four bytes ----
spec fn width(c: char) -> int { if (c as int) < 0x80 { 1 } else if (c as int) < 0x800 { 2 } else if (c as int) < 0x10000 { 3 } else { 4 } }
/// the byte offset of the character at `j`
spec fn boff(s: Seq<char>, j: int) -> int
    decreases j,
{ if j <= 0 { 0 } else { boff(s, j - 1) + width(s[j - 1]) } }
/// a byte offset is one of a character of the text
spec fn bound(s: Seq<char>, n: int) -> bool { exists|j: int| 0 <= j <= s.len() && n == #[trigger] boff(s, j) }
proof fn boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j,
    ensures boff(s, i) < boff(s, j),
    decreases j,
{ if i < j - 1 { boff_mono(s, i, j - 1); } }
proof fn boff_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, boff(s, i) == boff(s, j),
    ensures i == j,
{ if i < j { boff_mono(s, i, j); } else if j < i { boff_mono(s, j, i); } }
pub struct VxErr { x: u8 }
pub type Result<T> = std::result::Result<T, VxErr>;
pub struct VxMsg { x: u8 }
#[verifier::external_body]
fn vx_msg() -> VxMsg { unimplemented!() }
#[verifier::external_body]
fn vx_width(c: char) -> (r: usize) ensures r == width(c), 1 <= r <= 4, { c.len_utf8() }
#[verifier::external_body]
fn vx_len(s: &String) -> (r: usize) ensures r == boff(s@, s@.len() as int), r <= 0x7fff_ffff, { s.len() }
#[verifier::external_body]
fn vx_starts(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c), { s.starts_with(c) }
/// `lexeme.as_bytes()[k..].starts_with(c as utf-8)`
#[verifier::external_body]
fn vx_rest_starts(s: &String, k: usize, c: char) -> (r: bool)
    requires bound(s@, k as int),
    ensures forall|j: int| 0 <= j <= s@.len() && k == #[trigger] boff(s@, j) ==> r == (j < s@.len() && s@[j] == c), { unimplemented!() }
#[verifier::external_body]
fn vx_is_char(s: &String, c: char) -> (r: bool) ensures r == (s@ == seq![c]), { unimplemented!() }
/// `char_indices().skip(1).find(|(_, x)| *x == c)`: the byte offset of the first after the first character
spec fn next_at(s: Seq<char>, c: char, j: int) -> bool { 0 < j < s.len() && s[j] == c && forall|i: int| 0 < i < j ==> s[i] != c }
#[verifier::external_body]
fn vx_next_sep(s: &String, c: char) -> (r: Option<(usize, char)>)
    ensures match r {
        Some((k, x)) => x == c && k <= 0x7fff_ffff && exists|j: int| #[trigger] next_at(s@, c, j) && k == boff(s@, j),
        None => forall|i: int| 0 < i < s@.len() ==> s@[i] != c,
    }, { unimplemented!() }
#[verifier::external_body]
fn vx_to(s: &String, k: usize) -> (r: String)
    requires bound(s@, k as int),
    ensures forall|j: int| 0 <= j <= s@.len() && k == #[trigger] boff(s@, j) ==> r@ == s@.take(j), { s[..k].to_string() }
// `u8::from_str`
uninterp spec fn u8_of(s: Seq<char>) -> Option<u8>;
#[verifier::external_body]
fn vx_u8(s: &String) -> (r: std::result::Result<u8, VxErr>) ensures match r { Ok(n) => u8_of(s@) == Some(n), Err(_) => u8_of(s@) is None }, { unimplemented!() }

// ---- tokens ----
//@item parser/src/token.rs :: - :: enum TokenKind
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
use TokenKind::*;
//@item ast/src/source_location.rs :: - :: struct SourceLocation
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
pub struct Token { pub kind: TokenKind, pub loc: SourceLocation, pub lexeme: String, pub attr_replacement: bool }
#[verifier::external_body]
fn vx_token(kind: TokenKind, loc: SourceLocation, lexeme: String, attr_replacement: bool) -> (r: Token)
    ensures r.kind == kind, r.lexeme@ == lexeme@, r.attr_replacement == attr_replacement, { unimplemented!() }
impl SourceLocation {
    #[verifier::external_body]
    fn new(start: u32, end: u32, include_depth: u16) -> Self { unimplemented!() }
    #[verifier::external_body]
    fn setting_end(&self, end: u32) -> Self { unimplemented!() }
    #[verifier::external_body]
    fn clamp_start(&self) -> Self { unimplemented!() }
    #[verifier::external_body]
    fn incr_end(&self) -> Self { unimplemented!() }
}
impl Token {
    fn len(&self) -> (r: usize) ensures r == boff(self.lexeme@, self.lexeme@.len() as int), r <= 0x7fff_ffff, { vx_len(&self.lexeme) }
    fn is_whitespaceish(&self) -> (r: bool) ensures r == ws(*self), { self.kind == Whitespace || self.kind == Newline }
}
spec fn ws(t: Token) -> bool { t.kind == Whitespace || t.kind == Newline }
fn vx_kind(t: Option<&Token>, k: TokenKind) -> (r: bool) ensures r == (t is Some && t->0.kind == k), { match t { Some(t) => t.kind == k, None => false } }
fn vx_wsish(t: Option<&Token>) -> (r: bool) ensures r == (t is Some && ws(*t->0)), { match t { Some(t) => t.is_whitespaceish(), None => false } }
fn vx_kind_len(t: Option<&Token>, k: TokenKind, n: usize) -> (r: bool) ensures r == (t is Some && t->0.kind == k && boff(t->0.lexeme@, t->0.lexeme@.len() as int) == n),
{ match t { Some(t) => t.kind == k && t.len() == n, None => false } }
/// what the lexer makes of these two
#[verifier::external_body]
proof fn lexed(t: Token)
    ensures t.kind == Backslash ==> t.lexeme@ == seq!['\\'], t.kind == DoubleQuote ==> t.lexeme@ == seq!['"'], {}
/// the text of tokens
spec fn flat(l: Seq<Token>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { l[0].lexeme@ + flat(l.skip(1)) } }
/// the text of tokens, some of which have been escaped
spec fn raw(l: Seq<Token>, esc: Seq<bool>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { raw(l.drop_last(), esc.drop_last()) + (if esc.last() { seq!['\\'] } else { Seq::empty() }) + l.last().lexeme@ } }
spec fn fresh_sep(t: Token, sep: char) -> bool { !t.attr_replacement && t.lexeme@.len() > 0 && t.lexeme@[0] == sep }
/// the tokens are at a separator
spec fn at_sep(l: Seq<Token>, sep: char) -> bool { l.len() > 0 && fresh_sep(l[0], sep) }
/// only what has been escaped starts with a separator, and none is within a token
spec fn clean(l: Seq<Token>, esc: Seq<bool>, sep: char) -> bool {
    l.len() == esc.len() && forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).attr_replacement ==> (esc[i] || !fresh_sep(l[i], sep)) && forall|k: int| 0 < k < l[i].lexeme@.len() ==> l[i].lexeme@[k] != sep
}
/// what is left to read
spec fn left(l: Seq<Token>) -> nat { l.len() + flat(l).len() }
proof fn flat_first(l: Seq<Token>)
    requires l.len() > 0,
    ensures flat(l) == l[0].lexeme@ + flat(l.skip(1)), left(l.skip(1)) < left(l),
{ }
#[verifier::external_body]
pub struct VxLine { m: u8 }
impl View for VxLine { type V = Seq<Token>; uninterp spec fn view(&self) -> Seq<Token>; }
impl VxLine {
    #[verifier::external_body]
    fn empty() -> (r: Self) ensures r@ == Seq::<Token>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn current_token(&self) -> (r: Option<&Token>) ensures match r { Some(t) => self@.len() > 0 && *t == self@[0], None => self@.len() == 0 }, { unimplemented!() }
    #[verifier::external_body]
    fn nth_token(&self, n: usize) -> (r: Option<&Token>) ensures match r { Some(t) => n < self@.len() && *t == self@[n as int], None => n >= self@.len() }, { unimplemented!() }
    #[verifier::external_body]
    fn consume_current(&mut self) -> (r: Option<Token>)
        ensures match r { Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }, { unimplemented!() }
    #[verifier::external_body]
    fn discard(&mut self, n: usize) ensures final(self)@ == old(self)@.skip(if n <= old(self)@.len() { n as int } else { old(self)@.len() as int }), { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, t: Token) ensures final(self)@ == old(self)@.push(t), { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    /// Token::drop_leading_bytes of the first token (C02 has the same of a line's tokens)
    #[verifier::external_body]
    fn drop_leading_bytes(&mut self, n: u32)
        requires n > 0 ==> old(self)@.len() > 0 && bound(old(self)@[0].lexeme@, n as int),
        ensures
            n == 0 ==> final(self)@ == old(self)@,
            n > 0 ==> final(self)@.len() == old(self)@.len() && final(self)@.skip(1) == old(self)@.skip(1)
                && final(self)@[0].attr_replacement == old(self)@[0].attr_replacement
                && forall|j: int| 0 <= j <= old(self)@[0].lexeme@.len() && n == #[trigger] boff(old(self)@[0].lexeme@, j) ==> final(self)@[0].lexeme@ == old(self)@[0].lexeme@.skip(j), { unimplemented!() }
}
pub struct TableTokens(pub VxLine);
impl View for TableTokens { type V = Seq<Token>; open spec fn view(&self) -> Seq<Token> { self.0@ } }
impl TableTokens {
    fn vx_seq2(&self, a: TokenKind, b: TokenKind, at: u32) -> (r: bool)
        ensures r == (at + 2 <= self@.len() && self@[at as int].kind == a && self@[at + 1].kind == b),
    { vx_kind(self.nth(at as usize), a) && vx_kind(self.nth(at as usize + 1), b) }
    fn vx_seq3(&self, a: TokenKind, b: TokenKind, c: TokenKind, at: u32) -> (r: bool)
        ensures r == (at + 3 <= self@.len() && self@[at as int].kind == a && self@[at + 1].kind == b && self@[at + 2].kind == c),
    { vx_kind(self.nth(at as usize), a) && vx_kind(self.nth(at as usize + 1), b) && vx_kind(self.nth(at as usize + 2), c) }
    fn vx_seq4(&self, a: TokenKind, b: TokenKind, c: TokenKind, d: TokenKind, at: u32) -> (r: bool)
        ensures r == (at + 4 <= self@.len() && self@[at as int].kind == a && self@[at + 1].kind == b && self@[at + 2].kind == c && self@[at + 3].kind == d),
    { vx_kind(self.nth(at as usize), a) && vx_kind(self.nth(at as usize + 1), b) && vx_kind(self.nth(at as usize + 2), c) && vx_kind(self.nth(at as usize + 3), d) }
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn discard
//@ spec
    ensures final(self)@ == old(self)@.skip(if n <= old(self)@.len() { n as int } else { old(self)@.len() as int }),
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn current
//@ spec
    ensures match r { Some(t) => self@.len() > 0 && *t == self@[0], None => self@.len() == 0 },
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn nth
//@ spec
    ensures match r { Some(t) => n < self@.len() && *t == self@[n as int], None => n >= self@.len() },
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn consume_current
//@ spec
    ensures match r { Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn drop_leading_bytes
//@ spec
    requires n > 0 ==> old(self)@.len() > 0 && bound(old(self)@[0].lexeme@, n as int),
    ensures
        n == 0 ==> final(self)@ == old(self)@,
        n > 0 ==> final(self)@.len() == old(self)@.len() && final(self)@.skip(1) == old(self)@.skip(1)
            && final(self)@[0].attr_replacement == old(self)@[0].attr_replacement
            && forall|j: int| 0 <= j <= old(self)@[0].lexeme@.len() && n == #[trigger] boff(old(self)@[0].lexeme@, j) ==> final(self)@[0].lexeme@ == old(self)@[0].lexeme@.skip(j),
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn is_empty
//@ spec
    ensures r == (self@.len() == 0),
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn starts_with_sep
//@ sub self.current().is_some_and(|token| !token.attr_replacement && token.lexeme.starts_with(sep)) ==> match self.current() { Some(token) => !token.attr_replacement && vx_starts(&token.lexeme, sep), None => false }
//@ spec
    ensures r == at_sep(self@, sep),
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn at_quote
//@ sub (token.kind == TokenKind::DoubleQuote) ==> vx_kind(token, TokenKind::DoubleQuote)
//@ sub !token.is_attr_replacement() ==> (match token { Some(vx_t) => !vx_t.attr_replacement, None => true })
//@ spec
    ensures r == (self@.len() > 0 && self@[0].kind == DoubleQuote && !self@[0].attr_replacement),
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn consume_splitting
//@ sub token.lexeme.char_indices().skip(1).find(|(_, c)| *c == sep) ==> vx_next_sep(&token.lexeme, sep)
//@ sub next_sep.filter(|_| !token.attr_replacement) ==> (if !token.attr_replacement { next_sep } else { None })
//@ sub let token = self.current()?; ==> let Some(token) = self.current() else { return None; };
//@ before Some(self.consume_leading(idx))
proof {
    let j = choose|j: int| #[trigger] next_at(token.lexeme@, sep, j) && idx == boff(token.lexeme@, j);
    split_is(token.lexeme@, j, token.lexeme@.take(j));
}
//@ spec
    requires embeddable_separator is Some,
    ensures
        match r {
            Some(t) => {
                &&& old(self)@.len() > 0 && flat(old(self)@) == t.lexeme@ + flat(final(self)@) && left(final(self)@) < left(old(self)@)
                &&& t.attr_replacement == old(self)@[0].attr_replacement
                &&& old(self)@[0].lexeme@.len() > 0 ==> t.lexeme@.len() > 0 && t.lexeme@[0] == old(self)@[0].lexeme@[0]
                &&& (t.kind == old(self)@[0].kind && t == old(self)@[0] && final(self)@ == old(self)@.skip(1)) || (t.kind == Word && final(self)@.len() == old(self)@.len() && final(self)@.skip(1) == old(self)@.skip(1) && at_sep(final(self)@, embeddable_separator->0))
                &&& !t.attr_replacement ==> forall|k: int| 0 < k < t.lexeme@.len() ==> t.lexeme@[k] != embeddable_separator->0
            },
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        },
//@ body
proof { if self@.len() > 0 { flat_first(self@); } }
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn consume_leading
//@ sub let lexeme = BumpString::from_str_in(&token.lexeme[..len], self.0.bump_arena()); ==> let lexeme = vx_to(&token.lexeme, len);
//@ sub Token { $x } ==> vx_token(TokenKind::Word, loc, lexeme, false)
//@ spec
    requires old(self)@.len() > 0, 0 < len <= 0x7fff_ffff, bound(old(self)@[0].lexeme@, len as int), !old(self)@[0].attr_replacement,
    ensures
        flat(old(self)@) == r.lexeme@ + flat(final(self)@), r.kind == Word, !r.attr_replacement,
        final(self)@.len() == old(self)@.len(), final(self)@.skip(1) == old(self)@.skip(1), !final(self)@[0].attr_replacement,
        forall|j: int| 0 <= j <= old(self)@[0].lexeme@.len() && len == #[trigger] boff(old(self)@[0].lexeme@, j) ==> r.lexeme@ == old(self)@[0].lexeme@.take(j) && final(self)@[0].lexeme@ == old(self)@[0].lexeme@.skip(j),
//@ body
proof { flat_first(self@); }
let ghost j = choose|j: int| 0 <= j <= self@[0].lexeme@.len() && len == #[trigger] boff(self@[0].lexeme@, j);
//@ before vx_token(
proof {
    flat_first(self@);
    assert(old(self)@[0].lexeme@ =~= old(self)@[0].lexeme@.take(j) + self@[0].lexeme@);
    assert(flat(old(self)@) =~= old(self)@[0].lexeme@.take(j) + flat(self@));
}
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn separate
//@ sub Deq::with_capacity(self.0.num_tokens(), self.0.bump_arena()) ==> VxLine::empty()
//@ sub self.0 = Line::new(separated) ==> self.0 = separated
//@ sub sep.len_utf8() ==> vx_width(sep)
//@ sub self.current().unwrap().lexeme.len() ==> vx_len(&self.current().unwrap().lexeme)
//@ sub separated.push(self.consume_leading(sep_len)); ==> let token = self.consume_leading(sep_len); proof { joined(l0, s0, token, self@); } separated.push(token);
//@ spec
    ensures flat(final(self)@) == flat(old(self)@), separate(final(self)@, sep),
//@ before while
proof { assert(flat(old(self)@) =~= flat(separated@) + flat(self@)); }
//@ loop 0
    invariant flat(old(self)@) == flat(separated@) + flat(self@), separate(separated@, sep),
    decreases left(self@),
//@ loopbody 0
let ghost l0 = self@;
let ghost s0 = separated@;
proof { flat_first(l0); if at_sep(l0, sep) { sep_first(l0[0].lexeme@, sep); assert(l0[0].lexeme@.take(1) =~= seq![sep]); boff_len(l0[0].lexeme@, sep); } }
//@ before [1] separated.push(token);
proof {
    joined(l0, s0, token, self@);
    if self@.len() > 0 { flat_first(self@); }
    if at_sep(l0, sep) { assert(l0[0].lexeme@ =~= seq![sep]); assert(token.lexeme@ =~= seq![sep]); }
    assert(apart(token, sep));
}
//@end
//@extract parser/src/tasks/table/mod.rs :: impl TableTokens :: fn consume_sep
//@ sub sep.len_utf8() ==> vx_width(sep)
//@ sub self.current().unwrap().lexeme.len() ==> vx_len(&self.current().unwrap().lexeme)
//@ spec
    ensures
        r == at_sep(old(self)@, sep),
        !r ==> final(self)@ == old(self)@,
        r ==> flat(old(self)@) == seq![sep] + flat(final(self)@) && left(final(self)@) < left(old(self)@),
//@ before let sep_len
proof { flat_first(self@); sep_first(self@[0].lexeme@, sep); }
//@ before true
proof {
    let l0 = old(self)@[0].lexeme@;
    if self@.len() == old(self)@.len() { flat_first(self@); assert(self@[0].lexeme@ == l0.skip(1)); assert(l0 =~= seq![sep] + l0.skip(1)); assert(flat(old(self)@) =~= seq![sep] + flat(self@)); }
    else { assert(l0 =~= seq![sep]); }
}
//@end
}
/// the text of the tokens left is what follows in the text
proof fn flat_skip(l: Seq<Token>, n: int)
    requires 0 <= n <= l.len(),
    ensures exists|h: Seq<char>| flat(l) == #[trigger] (h + flat(l.skip(n))) && (n > 0 && l[n - 1].lexeme@.len() > 0 ==> h.len() > 0 && h.last() == l[n - 1].lexeme@.last()),
        left(l.skip(n)) <= left(l), n > 0 ==> left(l.skip(n)) < left(l),
    decreases n,
{
    if n == 0 { assert(l.skip(0) =~= l); assert(flat(l) =~= Seq::<char>::empty() + flat(l.skip(0))); }
    else {
        flat_first(l);
        let t = l.skip(1);
        flat_skip(t, n - 1);
        assert(t.skip(n - 1) =~= l.skip(n));
        let h = choose|h: Seq<char>| flat(t) == #[trigger] (h + flat(t.skip(n - 1))) && (n - 1 > 0 && t[n - 2].lexeme@.len() > 0 ==> h.len() > 0 && h.last() == t[n - 2].lexeme@.last());
        let g = l[0].lexeme@ + h;
        assert(flat(l) =~= g + flat(l.skip(n)));
        if n == 1 { assert(h + flat(t.skip(0)) == flat(t.skip(0))); assert(h.len() == 0); assert(g =~= l[0].lexeme@); }
        else if l[n - 1].lexeme@.len() > 0 { assert(t[n - 2] == l[n - 1]); assert(g.last() == h.last()); }
    }
}
proof fn started(l: Seq<Token>, s: CellStart, sep: char, now: Seq<Token>)
    requires starts_cell(l, s, sep),
        s.drop_bytes == 0 ==> now == l.skip(s.drop_tokens as int),
        s.drop_bytes > 0 ==> now.len() == l.len() - s.drop_tokens && now.skip(1) == l.skip(s.drop_tokens as int).skip(1)
            && forall|j: int| 0 <= j <= l[s.drop_tokens as int].lexeme@.len() && s.drop_bytes == #[trigger] boff(l[s.drop_tokens as int].lexeme@, j) ==> now[0].lexeme@ == l[s.drop_tokens as int].lexeme@.skip(j),
    ensures left(now) < left(l), exists|head: Seq<char>| head.len() > 0 && head.last() == sep && flat(l) == #[trigger] (head + flat(now)),
{
    let n = s.drop_tokens as int;
    flat_skip(l, n);
    let h = choose|h: Seq<char>| flat(l) == #[trigger] (h + flat(l.skip(n))) && (n > 0 && l[n - 1].lexeme@.len() > 0 ==> h.len() > 0 && h.last() == l[n - 1].lexeme@.last());
    if s.drop_bytes == 0 {
        assert(flat(l) == h + flat(now));
    } else {
        let t = l[n].lexeme@;
        let j = choose|j: int| 0 < j <= t.len() && s.drop_bytes == #[trigger] boff(t, j) && t[j - 1] == sep;
        assert(now[0].lexeme@ == t.skip(j));
        flat_first(l.skip(n));
        assert(l.skip(n)[0] == l[n]);
        flat_first(now);
        let head = h + t.take(j);
        assert(t =~= t.take(j) + t.skip(j));
        assert(flat(l) =~= head + flat(now));
        assert(head.last() == sep);
    }
}
proof fn flat_push(l: Seq<Token>, t: Token)
    ensures flat(l.push(t)) == flat(l) + t.lexeme@,
    decreases l.len(),
{
    if l.len() == 0 { assert(l.push(t).skip(1) =~= l); assert(flat(l.push(t)) =~= flat(l) + t.lexeme@); }
    else { flat_push(l.skip(1), t); assert(l.push(t).skip(1) =~= l.skip(1).push(t)); assert(flat(l.push(t)) =~= flat(l) + t.lexeme@); }
}
spec fn all_kind(l: Seq<Token>, k: TokenKind) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).kind == k }
/// a cell starts here, or nothing is left
spec fn at_cell(l: Seq<Token>, sep: char) -> bool { l.len() == 0 || at_sep(l, sep) || exists|s: CellStart| #[trigger] starts_cell(l, s, sep) }
spec fn no_spans(s: CellSpec) -> bool { s.duplication is None && s.col_span is None && s.row_span is None }
/// what precedes the text of a cell ends in a separator, but for text in front of the first one
spec fn head_of(l0: Seq<Token>, l1: Seq<Token>, head: Seq<char>, sep: char) -> bool {
    flat(l0) == head + flat(l1) && if left(l1) < left(l0) { head.len() > 0 && head.last() == sep } else { l1 == l0 && head.len() == 0 && !at_sep(l0, sep) }
}
spec fn cell_text(l0: Seq<Token>, cell: Seq<Token>, now: Seq<Token>, sep: char, head: Seq<char>, gap: Seq<Token>, esc: Seq<bool>) -> bool {
    flat(l0) == head + flat(gap) + raw(cell, esc) + flat(now) && (head.len() > 0 ==> head.last() == sep) && (head.len() == 0 ==> !at_sep(l0, sep)) && all_kind(gap, Whitespace) && clean(cell, esc, sep)
}
/// a cell is all of the text from its separator to the start of the next
spec fn cell_read(l0: Seq<Token>, cell: PsvCell, now: Seq<Token>, sep: char) -> bool {
    &&& exists|head: Seq<char>, gap: Seq<Token>, esc: Seq<bool>| #[trigger] cell_text(l0, cell.tokens@, now, sep, head, gap, esc)
    &&& asked(l0, cell.spec, sep) || no_spans(cell.spec)
    &&& at_cell(now, sep) && left(now) < left(l0)
}
spec fn same_but_count(a: TableContext, b: TableContext) -> bool {
    a.num_cols == b.num_cols && a.effective_row_idx == b.effective_row_idx && a.spilled_cells@ == b.spilled_cells@ && a.table == b.table && a.phantom_cells@ == b.phantom_cells@
        && a.header_row == b.header_row && a.dsv_last_consumed == b.dsv_last_consumed
        && a.cell_separator == b.cell_separator && a.embeddable_cell_separator == b.embeddable_cell_separator && a.format == b.format
}
proof fn split_is(s: Seq<char>, j: int, before: Seq<char>)
    requires 0 < j < s.len(), before == s.take(j),
    ensures boff(before, before.len() as int) == boff(s, j), boff(s, j) > 0, bound(s, boff(s, j)),
        forall|i: int| 0 <= i <= s.len() && boff(s, j) == #[trigger] boff(s, i) ==> i == j,
{
    boff_take(s, j, j);
    boff_mono(s, 0, j);
    assert forall|i: int| 0 <= i <= s.len() && boff(s, j) == #[trigger] boff(s, i) implies i == j by { boff_inj(s, i, j); }
}
proof fn boff_take(s: Seq<char>, n: int, j: int)
    requires 0 <= j <= n <= s.len(),
    ensures boff(s.take(n), j) == boff(s, j),
    decreases j,
{ if j > 0 { boff_take(s, n, j - 1); } }
/// each separator which isn't from an attribute is a token of its own
spec fn apart(t: Token, sep: char) -> bool { t.attr_replacement || t.lexeme@ == seq![sep] || forall|k: int| 0 <= k < t.lexeme@.len() ==> t.lexeme@[k] != sep }
spec fn separate(l: Seq<Token>, sep: char) -> bool { forall|i: int| 0 <= i < l.len() ==> apart(#[trigger] l[i], sep) }
proof fn joined(l0: Seq<Token>, s0: Seq<Token>, t: Token, l1: Seq<Token>)
    requires flat(l0) == t.lexeme@ + flat(l1),
    ensures flat(s0) + flat(l0) == flat(s0.push(t)) + flat(l1),
{ flat_push(s0, t); assert(flat(s0) + (t.lexeme@ + flat(l1)) =~= (flat(s0) + t.lexeme@) + flat(l1)); }
proof fn boff_len(s: Seq<char>, sep: char)
    requires s.len() > 0, s[0] == sep,
    ensures boff(s, s.len() as int) == width(sep) <==> s.len() == 1, boff(s, s.len() as int) >= width(sep),
{ assert(boff(s, 1) == boff(s, 0) + width(s[0])); if s.len() > 1 { boff_mono(s, 1, s.len() as int); } }
proof fn sep_first(s: Seq<char>, sep: char)
    requires s.len() > 0, s[0] == sep,
    ensures width(sep) == boff(s, 1), bound(s, width(sep)), 1 <= width(sep) <= 4,
        forall|i: int| 0 <= i <= s.len() && width(sep) == #[trigger] boff(s, i) ==> i == 1,
{
    assert(boff(s, 1) == boff(s, 0) + width(s[0]));
    assert forall|i: int| 0 <= i <= s.len() && width(sep) == #[trigger] boff(s, i) implies i == 1 by { boff_inj(s, i, 1); }
}

// ---- the grid ----
pub struct VxContent { x: u8 }
pub struct VxCellData { x: u8 }
/// `HashSet<(usize, usize)>`
#[verifier::external_body]
pub struct VxGrid { m: u8 }
impl View for VxGrid { type V = Set<(usize, usize)>; uninterp spec fn view(&self) -> Set<(usize, usize)>; }
impl VxGrid {
    #[verifier::external_body]
    fn insert(&mut self, p: (usize, usize)) -> (r: bool) ensures final(self)@ == old(self)@.insert(p), { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, p: &(usize, usize)) -> (r: bool) ensures r == self@.contains(*p), { unimplemented!() }
}
//@item ast/src/table.rs :: - :: enum HorizontalAlignment
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ opt #[default]
//@end
//@item ast/src/table.rs :: - :: enum VerticalAlignment
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/table.rs :: - :: enum CellContentStyle
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/table.rs :: - :: enum ColWidth
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/table.rs :: - :: struct ColSpec
//@end
//@item ast/src/table.rs :: - :: struct CellSpec
//@end
//@item ast/src/table.rs :: - :: struct Cell
//@end
//@item ast/src/table.rs :: - :: struct Row
//@end
//@item parser/src/tasks/table/context.rs :: - :: enum HeaderRow
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/tasks/table/context.rs :: - :: enum DsvLastConsumed
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/tasks/table/mod.rs :: - :: enum DataFormat
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
pub struct VxRange { pub start: u32, pub end: u32 }
fn vx_range(start: u32, end: u32) -> (r: VxRange) { VxRange { start, end } }
pub struct PsvCell { pub spec: CellSpec, pub spec_loc: SourceLocation, pub tokens: VxLine, pub loc: VxRange }
pub struct ColWidths(pub Vec<ColWidth>);
pub struct Table { pub col_widths: ColWidths, pub header_row: Option<Row>, pub rows: Vec<Row>, pub footer_row: Option<Row> }
//@item parser/src/tasks/table/context.rs :: - :: struct TableContext
//@end
impl HeaderRow {
//@extract parser/src/tasks/table/context.rs :: impl HeaderRow :: fn known_to_exist
//@ spec
    ensures r == (*self == HeaderRow::FoundImplicit || *self == HeaderRow::ExplicitlySet),
//@end
//@extract parser/src/tasks/table/context.rs :: impl HeaderRow :: fn is_unknown
//@ spec
    ensures r == (*self == HeaderRow::Unknown),
//@end
}
/// the rest of the rectangle of a cell, but for the corner it starts in
spec fn under(cell: Cell, row: int, col: int, p: (usize, usize)) -> bool {
    row <= p.0 < row + cell.row_span && col <= p.1 < col + cell.col_span && !(p.0 == row && p.1 == col)
}
impl TableContext {
//@extract parser/src/tasks/table/context.rs :: impl TableContext :: fn add_phantom_cells
//@ sub if $c { continue; } self.phantom_cells.insert($x); ==> if !($c) { self.phantom_cells.insert($x); }
//@ spec
    requires old(self).effective_row_idx <= usize::MAX - 256, col <= usize::MAX - 256, cell.row_span >= 1, cell.col_span >= 1,
    ensures same_but_grid(*old(self), *final(self)),
        forall|p: (usize, usize)| #[trigger] final(self).phantom_cells@.contains(p) == (old(self).phantom_cells@.contains(p) || under(*cell, old(self).effective_row_idx as int, col as int, p)),
//@ loop 0
    invariant same_but_grid(*old(self), *self), self.effective_row_idx <= usize::MAX - 256, col <= usize::MAX - 256,
        forall|p: (usize, usize)| #[trigger] self.phantom_cells@.contains(p) == (old(self).phantom_cells@.contains(p) || under(*cell, old(self).effective_row_idx as int, col as int, p) && p.0 < old(self).effective_row_idx + row_offset),
//@ loop 1
    invariant same_but_grid(*old(self), *self), self.effective_row_idx <= usize::MAX - 256, col <= usize::MAX - 256, row_offset < cell.row_span,
        forall|p: (usize, usize)| #[trigger] self.phantom_cells@.contains(p) == (old(self).phantom_cells@.contains(p) || under(*cell, old(self).effective_row_idx as int, col as int, p) && (p.0 < old(self).effective_row_idx + row_offset || p.0 == old(self).effective_row_idx + row_offset && p.1 < col + col_offset)),
//@end
//@extract parser/src/tasks/table/context.rs :: impl TableContext :: fn is_phantom
//@ spec
    ensures r == self.phantom_cells@.contains((self.effective_row_idx, col)),
//@end
//@extract parser/src/tasks/table/context.rs :: impl TableContext :: fn free_col
//@ sub mut col: ==> vx_col:
//@ spec
    ensures vx_col <= r, r <= vx_col || r <= self.num_cols,
        forall|c: usize| vx_col <= c < r ==> #[trigger] self.phantom_cells@.contains((self.effective_row_idx, c)),
        r < self.num_cols ==> !self.phantom_cells@.contains((self.effective_row_idx, r)),
//@ body
let mut col = vx_col;
//@ loop 0
    invariant vx_col <= col, col <= vx_col || col <= self.num_cols,
        forall|c: usize| vx_col <= c < col ==> #[trigger] self.phantom_cells@.contains((self.effective_row_idx, c)),
    decreases self.num_cols - col,
//@end
//@extract parser/src/tasks/table/context.rs :: impl TableContext :: fn room_at
//@ sub let mut room = 0; ==> let mut room: u8 = 0;
//@ spec
    requires col <= usize::MAX - 256,
    ensures r <= wanted, free_run(*self, col as int, r as int), r < wanted ==> !free_col_at(*self, col + r),
//@ loop 0
    invariant room <= wanted, col <= usize::MAX - 256, free_run(*self, col as int, room as int),
    ensures room <= wanted, free_run(*self, col as int, room as int), room < wanted ==> !free_col_at(*self, col + room),
    decreases wanted - room,
//@end
}
spec fn free_col_at(ctx: TableContext, c: int) -> bool { c < ctx.num_cols && !ctx.phantom_cells@.contains((ctx.effective_row_idx, c as usize)) }
spec fn free_run(ctx: TableContext, col: int, n: int) -> bool {
    forall|c: usize| col <= c < col + n ==> c < ctx.num_cols && !(#[trigger] ctx.phantom_cells@.contains((ctx.effective_row_idx, c)))
}
/// but for the cells known to reach down
spec fn same_but_grid(a: TableContext, b: TableContext) -> bool {
    a.num_cols == b.num_cols && a.effective_row_idx == b.effective_row_idx && a.spilled_cells@ == b.spilled_cells@ && a.table == b.table
        && a.counting_cols == b.counting_cols && a.header_row == b.header_row && a.dsv_last_consumed == b.dsv_last_consumed
        && a.cell_separator == b.cell_separator && a.embeddable_cell_separator == b.embeddable_cell_separator && a.format == b.format
}
/// but for what is read and found out as the cells of a row are
spec fn reading(a: TableContext, b: TableContext) -> bool {
    a.num_cols == b.num_cols && a.effective_row_idx == b.effective_row_idx && a.table == b.table
        && a.cell_separator == b.cell_separator && a.embeddable_cell_separator == b.embeddable_cell_separator && a.format == b.format
}
fn vx_max(a: u8, b: u8) -> (r: u8) ensures r == (if a > b { a } else { b }), { if a > b { a } else { b } }
/// a cell takes the columns and rows asked for, one of each by default
spec fn spans(cell: Cell, spec: CellSpec) -> bool {
    cell.col_span == (match spec.col_span { Some(n) => if n > 1 { n } else { 1 }, None => 1u8 }) && cell.row_span == (match spec.row_span { Some(n) => if n > 1 { n } else { 1 }, None => 1u8 })
}
impl Cell {
//@extract ast/src/table.rs :: impl Cell :: fn new
//@ sub cell_spec.col_span.unwrap_or(1).max(1) ==> vx_max(cell_spec.col_span.unwrap_or(1), 1)
//@ sub cell_spec.row_span.unwrap_or(1).max(1) ==> vx_max(cell_spec.row_span.unwrap_or(1), 1)
//@ sub cell_spec.h_align.unwrap_or(col_spec .as_ref() .map_or(HorizontalAlignment::Left, |cs| cs.h_align),) ==> cell_spec.h_align.unwrap_or(match &col_spec { None => HorizontalAlignment::Left, Some(cs) => cs.h_align })
//@ sub col_spec.map_or(VerticalAlignment::Top, |cs| cs.v_align) ==> match col_spec { None => VerticalAlignment::Top, Some(cs) => cs.v_align }
//@ spec
    ensures spans(r, cell_spec),
//@end
}

// ---- where a cell starts ----
//@item parser/src/tasks/table/parse_table_spec.rs :: - :: struct CellStart
//@end
#[verifier::external_body]
fn vx_default_spec() -> (r: CellSpec) ensures r.duplication is None, r.col_span is None, r.row_span is None, { unimplemented!() }
/// `CellContentStyle::from_str` of the first character, an ASCII letter
#[verifier::external_body]
fn vx_style(s: &String) -> (r: Option<CellContentStyle>) ensures r is Some ==> s@.len() > 0 && (s@[0] as int) < 0x80, { unimplemented!() }
#[verifier::external_body]
fn vx_first_byte(s: &String) -> (r: Option<u8>) { s.as_bytes().first().copied() }
#[verifier::external_body]
fn vx_is(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@), { s == t }
/// nothing but a number can be what a factor is
//@extract parser/src/tasks/table/parse_table_spec.rs :: - :: fn parse_style
//@ sub token .lexeme .chars() .next() .and_then(|c| c.to_string().parse::<CellContentStyle>().ok()) ==> vx_style(&token.lexeme)
//@ spec
    requires *old(cursor) <= 0xffff,
    ensures *final(cursor) == *old(cursor) || *final(cursor) == *old(cursor) + 1 && *final(cursor) <= tokens@.len(),
        r ==> *final(cursor) == *old(cursor) && *old(cursor) < tokens@.len() && tokens@[*old(cursor) as int].lexeme@.len() > 0 && (tokens@[*old(cursor) as int].lexeme@[0] as int) < 0x80,
        old(spec).duplication == final(spec).duplication, old(spec).col_span == final(spec).col_span, old(spec).row_span == final(spec).row_span,
//@end

spec fn factor(before: CellSpec, after: CellSpec) -> bool { before.h_align == after.h_align && before.v_align == after.v_align && before.style == after.style }
//@extract parser/src/tasks/table/parse_table_spec.rs :: - :: fn parse_duplication_factor
//@ sub tokens.has_seq_at(&[Kind(Digits), Kind(Star)], *cursor) ==> tokens.vx_seq2(Digits, Star, *cursor)
//@ sub tokens.nth(*cursor as usize).map(|t| t.lexeme.parse::<u8>()) ==> vx_parsed(tokens.nth(*cursor as usize))
//@ spec
    requires *old(cursor) <= 0xffff,
    ensures
        final(spec).col_span == old(spec).col_span && final(spec).row_span == old(spec).row_span && factor(*old(spec), *final(spec)),
        match sp_times(tokens@, *old(cursor) as int) {
            Some(n) => *final(cursor) == *old(cursor) + 2 && final(spec).duplication == Some(n),
            None => *final(cursor) == *old(cursor) && final(spec).duplication == old(spec).duplication,
        },
        *final(cursor) == *old(cursor) || *final(cursor) <= tokens@.len(),
//@end
//@extract parser/src/tasks/table/parse_table_spec.rs :: - :: fn parse_span_factor
//@ sub tokens.has_seq_at(&[Kind(Digits), Kind(Plus)], *cursor) ==> tokens.vx_seq2(Digits, Plus, *cursor)
//@ sub tokens.has_seq_at(&[Kind(Dots), Kind(Digits), Kind(Plus)], *cursor) ==> tokens.vx_seq3(Dots, Digits, Plus, *cursor)
//@ sub tokens.has_seq_at(&[Kind(Digits), Kind(Dots), Kind(Digits), Kind(Plus)], *cursor,) ==> tokens.vx_seq4(Digits, Dots, Digits, Plus, *cursor)
//@ sub tokens.nth(*cursor as usize).map(|t| t.lexeme.parse::<u8>()) ==> vx_parsed(tokens.nth(*cursor as usize))
//@ sub tokens .nth(*cursor as usize + 1) .map(|t| t.lexeme.parse::<u8>()) ==> vx_parsed(tokens.nth(*cursor as usize + 1))
//@ sub tokens .nth(*cursor as usize + 2) .map(|t| t.lexeme.parse::<u8>()) ==> vx_parsed(tokens.nth(*cursor as usize + 2))
//@ sub tokens.nth(*cursor as usize).is_kind_len(Dots, 1) ==> vx_kind_len(tokens.nth(*cursor as usize), Dots, 1)
//@ sub tokens.nth(*cursor as usize + 1).is_kind_len(Dots, 1) ==> vx_kind_len(tokens.nth(*cursor as usize + 1), Dots, 1)
//@ spec
    requires *old(cursor) <= 0xffff,
    ensures
        final(spec).duplication == old(spec).duplication && factor(*old(spec), *final(spec)),
        match sp_span(tokens@, *old(cursor) as int) {
            Some((c, w, k)) => *final(cursor) == *old(cursor) + k && final(spec).col_span == (if c is Some { c } else { old(spec).col_span }) && final(spec).row_span == (if w is Some { w } else { old(spec).row_span }),
            None => *final(cursor) == *old(cursor) && final(spec).col_span == old(spec).col_span && final(spec).row_span == old(spec).row_span,
        },
        *final(cursor) == *old(cursor) || *final(cursor) <= tokens@.len(), *final(cursor) <= *old(cursor) + 4,
//@end
spec fn kind_at(l: Seq<Token>, i: int, k: TokenKind) -> bool { 0 <= i < l.len() && l[i].kind == k }
spec fn dot_at(l: Seq<Token>, i: int) -> bool { kind_at(l, i, Dots) && boff(l[i].lexeme@, l[i].lexeme@.len() as int) == 1 }
/// `3*`: this many times
spec fn sp_times(l: Seq<Token>, i: int) -> Option<u8> { if kind_at(l, i, Digits) && kind_at(l, i + 1, Star) { u8_of(l[i].lexeme@) } else { None } }
/// `2+`, `.3+`, `2.3+`: the columns and rows, and how many tokens say so
spec fn sp_span(l: Seq<Token>, i: int) -> Option<(Option<u8>, Option<u8>, int)> {
    if kind_at(l, i, Digits) && kind_at(l, i + 1, Plus) { match u8_of(l[i].lexeme@) { Some(n) => Some((Some(n), None, 2)), None => None } }
    else if kind_at(l, i, Dots) && kind_at(l, i + 1, Digits) && kind_at(l, i + 2, Plus) {
        if dot_at(l, i) { match u8_of(l[i + 1].lexeme@) { Some(n) => Some((None, Some(n), 3)), None => None } } else { None }
    } else if kind_at(l, i, Digits) && kind_at(l, i + 1, Dots) && kind_at(l, i + 2, Digits) && kind_at(l, i + 3, Plus) {
        if !dot_at(l, i + 1) { None } else {
            match (u8_of(l[i].lexeme@), u8_of(l[i + 2].lexeme@)) { (Some(a), Some(b)) => Some((Some(a), Some(b), 4)), _ => None }
        }
    } else { None }
}
fn vx_parsed(t: Option<&Token>) -> (r: Option<std::result::Result<u8, VxErr>>)
    ensures match t { None => r is None, Some(t) => r is Some && match r->0 { Ok(n) => u8_of(t.lexeme@) == Some(n), Err(_) => u8_of(t.lexeme@) is None } },
{ match t { None => None, Some(t) => Some(vx_u8(&t.lexeme)) } }
spec fn same_spans(a: CellSpec, b: CellSpec) -> bool { a.duplication == b.duplication && a.col_span == b.col_span && a.row_span == b.row_span }
//@extract parser/src/tasks/table/parse_table_spec.rs :: - :: fn parse_h_align
//@ sub CalloutNumber if token.lexeme == "<.>" => ==> CalloutNumber if vx_is(&token.lexeme, "<.>") =>
//@ sub _ => return, } *cursor += 1; ==> _ => { vx_none = true; } } if !vx_none { *cursor += 1; }
//@ guards
//@ body
let mut vx_none = false;
//@ spec
    requires *old(cursor) <= 0xffff,
    ensures same_spans(*old(spec), *final(spec)), *final(cursor) == *old(cursor) || *final(cursor) == *old(cursor) + 1 && *final(cursor) <= tokens@.len(),
//@end
//@extract parser/src/tasks/table/parse_table_spec.rs :: - :: fn parse_v_align
//@ sub tokens.nth(*cursor as usize).is_kind_len(Dots, 1) ==> vx_kind_len(tokens.nth(*cursor as usize), Dots, 1)
//@ sub tokens.nth(*cursor as usize + 1).map(|t| t.kind) ==> (match tokens.nth(*cursor as usize + 1) { Some(vx_t) => Some(vx_t.kind), None => None })
//@ spec
    requires *old(cursor) <= 0xffff,
    ensures same_spans(*old(spec), *final(spec)), *final(cursor) == *old(cursor) || *final(cursor) == *old(cursor) + 2 && *final(cursor) <= tokens@.len(),
//@end
/// the tokens it takes to start a cell: up to and with the separator
spec fn starts_cell(l: Seq<Token>, s: CellStart, sep: char) -> bool {
    if s.drop_bytes == 0 { 1 <= s.drop_tokens <= l.len() && l[s.drop_tokens - 1].lexeme@.len() > 0 && l[s.drop_tokens - 1].lexeme@.last() == sep && (s.drop_tokens == 1 ==> true) }
    else {
        s.drop_tokens < l.len() && exists|j: int| 0 < j <= l[s.drop_tokens as int].lexeme@.len() && s.drop_bytes == #[trigger] boff(l[s.drop_tokens as int].lexeme@, j) && l[s.drop_tokens as int].lexeme@[j - 1] == sep
    }
}
/// positions are of sources smaller than 4 GiB
#[verifier::external_body]
fn vx_pos(a: u32, n: u32) -> (r: u32) { a + n }
/// the copies, columns and rows of a cell are those written before its separator
spec fn asked(l: Seq<Token>, s: CellSpec, sep: char) -> bool {
    if at_sep(l, sep) { s.duplication is None && s.col_span is None && s.row_span is None }
    else {
        &&& s.duplication == sp_times(l, 0)
        &&& match sp_span(l, if sp_times(l, 0) is Some { 2 } else { 0 }) { Some((c, w, _)) => s.col_span == c && s.row_span == w, None => s.col_span is None && s.row_span is None }
    }
}
pub struct Parser { pub strict: bool }
impl Parser {
    #[verifier::external_body]
    fn err_at(&self, m: VxMsg, loc: SourceLocation) -> (r: std::result::Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    fn err_token(&self, m: VxMsg, t: Option<&Token>) -> (r: std::result::Result<(), VxErr>) { unimplemented!() }
//@extract parser/src/tasks/table/parse_table_spec.rs :: impl Parser :: fn peek_cell_start
//@ sub let first_token = tokens.current_mut()?; ==> let Some(first_token) = tokens.current() else { return None; };
//@ sub first_token.lexeme.starts_with(sep) ==> vx_starts(&first_token.lexeme, sep)
//@ sub sep.len_utf8() ==> vx_width(sep)
//@ sub CellSpec::default() ==> vx_default_spec()
//@ before return Some(CellStart {
proof { start_is(first_token.lexeme@, 0, sep); }
//@ sub first_token.kind(Word) ==> first_token.kind == Word
//@ sub let first_byte = first_token.lexeme.as_bytes().first()?; ==> let Some(first_byte) = vx_first_byte(&first_token.lexeme) else { return None; };
//@ sub let cursor_token = tokens.nth(cursor as usize)?; ==> let Some(cursor_token) = tokens.nth(cursor as usize) else { return None; };
//@ sub let mut buf = [0; 4]; let sep_bytes = sep.encode_utf8(&mut buf).as_bytes(); ==> let vx_tok: &String = &cursor_token.lexeme; let sep_len = vx_width(sep); proof { start_is(vx_tok@, 0, sep); if style_within_word { start_is(vx_tok@, 1, sep); } }
//@ sub resuming: first_token.loc.start + sep_len as u32 ==> resuming: vx_pos(first_token.loc.start, sep_len as u32)
//@ sub resuming: joined.loc.start + 1 + sep_bytes.len() as u32 ==> resuming: vx_pos(joined.loc.start, 1 + sep_len as u32)
//@ sub tokens.nth(cursor as usize).unwrap() ==> tokens.nth(cursor as usize).unwrap()
//@ sub cursor_token.lexeme.as_bytes()) { ==> vx_tok) {
//@ sub bytes == sep_bytes ==> vx_is_char(bytes, sep)
//@ sub bytes.len() == 2 ==> vx_len(bytes) == 2
//@ sub bytes.len() > 2 ==> vx_len(bytes) > 2
//@ sub bytes[1..].starts_with(sep_bytes) ==> vx_rest_starts(bytes, 1, sep)
//@ sub drop_bytes: 1 + sep_bytes.len() as u32 ==> drop_bytes: 1 + sep_len as u32
//@ spec
    ensures final(tokens)@ == old(tokens)@,
        match r {
            Some(s) => starts_cell(old(tokens)@, s, sep) && !old(tokens)@[0].attr_replacement && asked(old(tokens)@, s.spec, sep),
            None => !at_sep(old(tokens)@, sep),
        },
//@end
//@extract parser/src/tasks/table/parse_table_spec.rs :: impl Parser :: fn starts_psv_cell
//@ spec
    ensures final(tokens)@ == old(tokens)@, at_sep(old(tokens)@, sep) ==> r, r ==> at_cell(old(tokens)@, sep),
//@end
//@extract parser/src/tasks/table/parse_table_spec.rs :: impl Parser :: fn consume_cell_start
//@ sub let data = self.peek_cell_start(tokens, sep)?; ==> let Some(data) = self.peek_cell_start(tokens, sep) else { return None; };
//@ spec
    ensures
        match r {
            Some((spec, _)) => {
                &&& asked(old(tokens)@, spec, sep) && left(final(tokens)@) < left(old(tokens)@)
                &&& exists|head: Seq<char>| head.len() > 0 && head.last() == sep && flat(old(tokens)@) == #[trigger] (head + flat(final(tokens)@))
            },
            None => final(tokens)@ == old(tokens)@ && !at_sep(old(tokens)@, sep),
        },
//@ before tokens.discard(
let ghost l0 = tokens@;
//@ before Some((data.spec
proof { started(l0, data, sep, tokens@); }
//@end
//@extract parser/src/tasks/table/parse_psv_table.rs :: impl Parser :: fn parse_psv_table_cell
//@ sub CellSpec::default() ==> vx_default_spec()
//@ sub start.saturating_sub(1).max(spec_loc.start) ==> 0
//@ sub loc: start..start, ==> loc: vx_range(start, start),
//@ body
let ghost l0 = tokens@;
//@ before [0] let mut cell
let ghost l1 = tokens@;
let ghost head = if left(l1) < left(l0) { choose|head: Seq<char>| head.len() > 0 && head.last() == sep && flat(l0) == #[trigger] (head + flat(l1)) } else { Seq::empty() };
proof { assert(flat(l0) =~= head + flat(l1)); assert(flat(l1) =~= flat(Seq::<Token>::empty()) + flat(l1)); }
let ghost mut gap = Seq::<Token>::empty();
let ghost mut esc = Seq::<bool>::empty();
//@ loop 0
    invariant l0 == old(tokens)@, l0.len() > 0, head_of(l0, l1, head, sep), flat(l1) == flat(gap) + flat(tokens@), all_kind(gap, Whitespace),
        asked(l0, cell.spec, sep) || left(l1) == left(l0) && no_spans(cell.spec), cell.tokens@ == Seq::<Token>::empty(),
        left(tokens@) <= left(l1), !after_space ==> tokens@ == l1, after_space ==> left(tokens@) < left(l1),
        same_but_count(*old(ctx), *ctx), ctx.counting_cols == old(ctx).counting_cols,
    decreases left(tokens@),
//@ loopbody 0
proof { flat_first(tokens@); flat_push(gap, tokens@[0]); assert(flat(gap) + (tokens@[0].lexeme@ + flat(tokens@.skip(1))) =~= (flat(gap) + tokens@[0].lexeme@) + flat(tokens@.skip(1))); gap = gap.push(tokens@[0]); }
//@ before [0] while !tokens.starts_with_sep
let ghost l2 = tokens@;
proof { assert(raw(cell.tokens@, esc) + flat(l2) =~= flat(l2)); }
//@ loop 1
    invariant l0 == old(tokens)@, l0.len() > 0, head_of(l0, l1, head, sep), flat(l1) == flat(gap) + flat(l2), all_kind(gap, Whitespace),
        asked(l0, cell.spec, sep) || left(l1) == left(l0) && no_spans(cell.spec),
        flat(l2) == raw(cell.tokens@, esc) + flat(tokens@), clean(cell.tokens@, esc, sep),
        left(tokens@) < left(l0) || tokens@ == l0 && !at_sep(l0, sep) && !after_space,
        same_but_count(*old(ctx), *ctx), ctx.counting_cols ==> old(ctx).counting_cols, ctx.embeddable_cell_separator == Some(sep), sep == ctx.cell_separator,
    ensures at_cell(tokens@, sep), left(tokens@) < left(l0),
    decreases left(tokens@),
//@ loopbody 1
let ghost b0 = tokens@;
//@ before if ctx.counting_cols
let ghost b1 = tokens@;
let ghost t0 = token;
//@ before cell.loc.end = token.loc.end
proof {
    lexed(t0);
    let e = left(tokens@) < left(b1);
    let o = raw(cell.tokens@, esc);
    assert(cell.tokens@.push(token).drop_last() =~= cell.tokens@);
    assert(esc.push(e).drop_last() =~= esc);
    assert(raw(cell.tokens@.push(token), esc.push(e)) =~= o + (if e { seq!['\\'] } else { Seq::empty() }) + token.lexeme@);
    assert(flat(l2) =~= raw(cell.tokens@.push(token), esc.push(e)) + flat(tokens@));
    esc = esc.push(e);
}
//@ before Ok(Some(cell))
proof { assert(cell_text(l0, cell.tokens@, tokens@, sep, head, gap, esc)) by { assert(flat(l0) =~= head + flat(gap) + raw(cell.tokens@, esc) + flat(tokens@)); } }
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator),
    ensures same_but_count(*old(ctx), *final(ctx)), final(ctx).counting_cols ==> old(ctx).counting_cols,
        match r {
            Ok(Some(cell)) => cell_read(old(tokens)@, cell, final(tokens)@, old(ctx).cell_separator),
            Ok(None) => old(tokens)@.len() == 0 && final(tokens)@ == old(tokens)@,
            Err(_) => left(final(tokens)@) <= left(old(tokens)@),
        },
//@end
}
impl Parser {
/// what of a cell is asked for is what it gets; the text of it is parsed
#[verifier::external_body]
fn finish_cell(&mut self, cell_spec: CellSpec, cell_tokens: VxLine, col_index: usize, ctx: &mut TableContext, loc: VxRange) -> (r: Result<Option<(Cell, u8)>>)
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@, final(ctx).counting_cols == old(ctx).counting_cols, final(ctx).dsv_last_consumed == old(ctx).dsv_last_consumed,
        match r { Ok(Some((c, _))) => spans(c, cell_spec) && made(c, cell_tokens@), _ => true }, { unimplemented!() }
//@extract parser/src/tasks/table/parse_psv_table.rs :: impl Parser :: fn next_psv_cell
//@ noexit
//@ sub in 1..cell.spec.duplication.unwrap_or(1) ==> in 1..(cell.spec.duplication.unwrap_or(1) as usize)
//@ for 1 range
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator),
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).counting_cols ==> old(ctx).counting_cols,
        match r {
            Ok(Some(cell)) => next_read(old(tokens)@, old(ctx).spilled_cells@, cell, final(tokens)@, final(ctx).spilled_cells@, *old(ctx)),
            Ok(None) => final(tokens)@.len() == 0 && final(ctx).spilled_cells@.len() == 0 && old(ctx).spilled_cells@.len() == 0
                && exists|stops: Seq<Seq<Token>>, seen: Seq<PsvCell>| #[trigger] read_all(old(tokens)@, final(tokens)@, stops, seen, old(ctx).cell_separator) && all_wide(seen, old(ctx).num_cols as int),
            Err(_) => true,
        },
//@ before loop
let ghost l0 = tokens@;
let ghost mut stops = seq![l0];
let ghost mut seen = Seq::<PsvCell>::empty();
//@ loop 0
    invariant read_all(l0, tokens@, stops, seen, ctx.cell_separator), all_wide(seen, ctx.num_cols as int), same_but_count(*old(ctx), *ctx), ctx.counting_cols ==> old(ctx).counting_cols,
        ctx.embeddable_cell_separator == Some(ctx.cell_separator), ctx.spilled_cells@.len() == 0, l0 == old(tokens)@, seen.len() > 0 ==> left(tokens@) < left(l0), seen.len() == 0 ==> tokens@ == l0,
    decreases left(tokens@),
//@ loopbody 0
let ghost l1 = tokens@;
//@ before let span
let ghost stops0 = stops;
proof { seen = seen.push(cell); assert(seen.drop_last() =~= seen0); stops = stops.push(tokens@); assert(read_all(l0, tokens@, stops, seen, ctx.cell_separator)); }
//@ loop 1
    invariant reading(*old(ctx), *ctx), ctx.phantom_cells@ == old(ctx).phantom_cells@, ctx.counting_cols ==> old(ctx).counting_cols,
        ctx.spilled_cells@ == Seq::new((vx_i1 - 1) as nat, |i: int| cell), 1 <= vx_i1, vx_i1 <= vx_e1 || vx_i1 == 1, vx_e1 == (match cell.spec.duplication { Some(n) => n, None => 1 }),
    decreases vx_e1 - vx_i1,
//@ loopbody 1
let ghost s0 = ctx.spilled_cells@;
//@ before let Some(cell) = self
let ghost seen0 = seen;
//@ before return Ok(Some(cell))
proof { assert(next_read(old(tokens)@, old(ctx).spilled_cells@, cell, tokens@, ctx.spilled_cells@, *old(ctx))); }
//@end
//@extract parser/src/tasks/table/parse_psv_table.rs :: impl Parser :: fn parse_psv_table_row
//@ sub data.spec.col_span.is_some_and(|span| span > room) ==> (match data.spec.col_span { Some(span) => span > room, None => false })
//@ sub Ok(more.then(|| Row::new(cells))) ==> let ghost vx_c = cells@; let vx_row = if more { Some(Row { cells }) } else { None }; proof { assert(cells_of(vx_row) =~= vx_c); assert(row_read(vx_row, *old(ctx), *ctx, tokens@, at)); } Ok(vx_row)
//@ sub let mut cells = Vec::new(); ==> let mut cells: Vec<Cell> = Vec::new();
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator), old(ctx).effective_row_idx <= usize::MAX - 256, old(ctx).num_cols <= usize::MAX - 512,
        falling(old(ctx).phantom_cells@, old(ctx).effective_row_idx as int),
    ensures
        match r {
            Ok(row) => exists|at: Seq<usize>| #[trigger] row_read(row, *old(ctx), *final(ctx), final(tokens)@, at),
            Err(_) => true,
        },
//@ before let mut col
let ghost mut at = Seq::<usize>::empty();
let ghost r0 = ctx.effective_row_idx;
//@ loop 0
    invariant_except_break !more ==> tokens@.len() == 0 && ctx.spilled_cells@.len() == 0 && col >= ctx.num_cols && cells@.len() == 0,
    invariant reading(*old(ctx), *ctx), r0 == old(ctx).effective_row_idx, r0 <= usize::MAX - 256, ctx.num_cols <= usize::MAX - 512,
        ctx.embeddable_cell_separator == Some(ctx.cell_separator),
        laid(cells@, at, old(ctx).phantom_cells@, ctx.phantom_cells@, r0, col as int), full(at, ctx.phantom_cells@, r0, col as int),
        col <= ctx.num_cols, col < ctx.num_cols ==> !ctx.phantom_cells@.contains((r0, col)),
        falling(old(ctx).phantom_cells@, r0 as int),
    ensures full(at, ctx.phantom_cells@, r0, ctx.num_cols as int) || tokens@.len() == 0 && ctx.spilled_cells@.len() == 0,
        !more ==> tokens@.len() == 0 && ctx.spilled_cells@.len() == 0 && cells@.len() == 0,
        laid(cells@, at, old(ctx).phantom_cells@, ctx.phantom_cells@, r0, ctx.num_cols as int),
        reading(*old(ctx), *ctx),
    decreases 256 * left(tokens@) + ctx.spilled_cells@.len(),
//@ before ctx.add_phantom_cells
let ghost c0 = col;
let ghost ph = ctx.phantom_cells@;
proof { assert(!ctx.phantom_cells@.contains((ctx.effective_row_idx, col))); let m = (col + cell.col_span - 1) as usize; if cell.col_span > 1 { assert(col <= m < col + room); assert(!ctx.phantom_cells@.contains((ctx.effective_row_idx, m))); } else { assert(m == col); } assert(m < ctx.num_cols); }
//@ before cells.push(cell)
proof { placed(cells@, at, old(ctx).phantom_cells@, ph, ctx.phantom_cells@, r0, c0, cell, col); at = at.push(c0); }
//@ before ctx.effective_row_idx += 1
proof { fallen(cells@, at, old(ctx).phantom_cells@, ctx.phantom_cells@, r0, ctx.num_cols as int); assert(laid(cells@, at, old(ctx).phantom_cells@, ctx.phantom_cells@, old(ctx).effective_row_idx, old(ctx).num_cols as int)); if !more { assert(cells@ =~= Seq::<Cell>::empty()); } }
//@end
}
/// cells of the same spans
spec fn alike(a: Seq<Cell>, b: Seq<Cell>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).col_span == b[i].col_span && a[i].row_span == b[i].row_span }
spec fn same_table_but_rows(a: Table, b: Table) -> bool { a.col_widths == b.col_widths && a.footer_row == b.footer_row }
#[verifier::external_body]
fn vx_widths(w: ColWidth, n: usize) -> (r: ColWidths) ensures r.0@ == Seq::new(n as nat, |i: int| w), { unimplemented!() }
spec fn known(h: HeaderRow) -> bool { h == HeaderRow::FoundImplicit || h == HeaderRow::ExplicitlySet }
/// a row is the header, when there is to be one and nothing precedes it, or the next of the body
spec fn row_pushed(a: TableContext, b: TableContext, cells: Seq<Cell>) -> bool {
    if a.table.rows@.len() == 0 && a.table.header_row is None && known(a.header_row) {
        b.table.header_row is Some && alike(cells, b.table.header_row->0.cells@) && b.table.rows@ == a.table.rows@ && b.header_row == a.header_row
    } else {
        b.table.header_row == a.table.header_row && b.table.rows@.len() == a.table.rows@.len() + 1 && b.table.rows@.drop_last() == a.table.rows@ && b.table.rows@.last().cells@ == cells
            && b.header_row == (if a.header_row == HeaderRow::Unknown { HeaderRow::FoundNone } else { a.header_row })
    }
}
impl Parser {
/// cells of a header have no style of their own
#[verifier::external_body]
fn reparse_header_cells(&mut self, row: &mut Row, ctx: &mut TableContext) -> (r: Result<()>)
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@, final(ctx).header_row == old(ctx).header_row, alike(old(row).cells@, final(row).cells@), { unimplemented!() }
//@extract parser/src/tasks/table/parse_table.rs :: impl Parser :: fn push_table_row
//@ sub mut row: Row ==> vx_row: Row
//@ spec
    ensures match r {
        Ok(_) => row_pushed(*old(ctx), *final(ctx), vx_row.cells@) && same_table_but_rows(old(ctx).table, final(ctx).table) && final(ctx).phantom_cells@ == old(ctx).phantom_cells@ && final(ctx).spilled_cells@ == old(ctx).spilled_cells@
            && final(ctx).num_cols == old(ctx).num_cols && final(ctx).effective_row_idx == old(ctx).effective_row_idx && final(ctx).embeddable_cell_separator == old(ctx).embeddable_cell_separator && final(ctx).cell_separator == old(ctx).cell_separator,
        Err(_) => true,
    },
//@ body
let mut row = vx_row;
//@ before ctx.table.rows.push
proof { assert(ctx.table.rows@.push(row).drop_last() =~= ctx.table.rows@); }
//@end
//@extract parser/src/tasks/table/parse_table.rs :: impl Parser :: fn finish_implicit_header_row
//@ sub ColWidths::new(bvec![in self.bump; width; ctx.num_cols]) ==> vx_widths(width, ctx.num_cols)
//@ sub let mut row = Row::new(cells); ==> let mut row = Row { cells };
//@ sub Row::new(cells) ==> Row { cells }
//@ spec
    requires old(ctx).effective_row_idx < usize::MAX, old(ctx).table.rows@.len() == 0, old(ctx).table.header_row is None,
    ensures final(ctx).num_cols == old(ctx).num_cols, final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@,
        final(ctx).embeddable_cell_separator == old(ctx).embeddable_cell_separator, final(ctx).cell_separator == old(ctx).cell_separator,
        match r {
            Ok(_) => if cells@.len() == 0 { *final(ctx) == *old(ctx) } else {
                &&& row_pushed(*old(ctx), *final(ctx), cells@) && final(ctx).effective_row_idx == old(ctx).effective_row_idx + 1
                &&& final(ctx).table.col_widths.0@.len() == old(ctx).num_cols && final(ctx).table.footer_row == old(ctx).table.footer_row
                &&& forall|i: int| 0 <= i < old(ctx).num_cols ==> #[trigger] final(ctx).table.col_widths.0@[i] == (if old(ctx).autowidths { ColWidth::Auto } else { ColWidth::Proportional(1) })
            },
            Err(_) => true,
        },
//@ before ctx.table.rows.push
proof { assert(ctx.table.rows@.push(Row { cells }).drop_last() =~= ctx.table.rows@); }
//@end
//@extract parser/src/tasks/table/parse_psv_table.rs :: impl Parser :: fn parse_psv_implicit_first_row
//@ sub let mut cells = Vec::new(); ==> let mut cells: Vec<Cell> = Vec::new();
//@ sub while let Some(data) = self.next_psv_cell(tokens, ctx)? { $x } ==> loop { let Some(data) = self.next_psv_cell(tokens, ctx)? else { break; }; $x }
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator), old(ctx).effective_row_idx == 0, old(ctx).num_cols == 0, old(ctx).phantom_cells@ == Set::<(usize, usize)>::empty(),
        old(ctx).spilled_cells@.len() == 0, old(ctx).table.rows@.len() == 0, old(ctx).table.header_row is None, 65536 * left(old(tokens)@) <= usize::MAX - 65536,
    ensures
        match r {
            Ok(_) => {
                ||| final(tokens)@.len() == 0 && final(ctx).num_cols == 0
                ||| exists|cells: Seq<Cell>, at: Seq<usize>| #[trigger] first_read(cells, at, *old(ctx), *final(ctx))
            },
            Err(_) => true,
        },
//@ body
let ghost l0 = tokens@;
let ghost mut at = Seq::<usize>::empty();
//@ loop 0
    invariant_except_break true,
    invariant ctx.embeddable_cell_separator == Some(ctx.cell_separator), ctx.effective_row_idx == 0, ctx.table == old(ctx).table, ctx.num_cols + 255 * (255 * left(tokens@) + ctx.spilled_cells@.len()) <= 65536 * left(l0), 65536 * left(l0) <= usize::MAX - 65536,
        laid(cells@, at, Set::<(usize, usize)>::empty(), ctx.phantom_cells@, 0, ctx.num_cols as int), full(at, ctx.phantom_cells@, 0, ctx.num_cols as int), ctx.num_cols == 0 ==> cells@.len() == 0,
        reading(TableContext { num_cols: ctx.num_cols, ..*old(ctx) }, *ctx),
    ensures ctx.num_cols > 0 && ctx.spilled_cells@.len() == 0 || tokens@.len() == 0 && ctx.spilled_cells@.len() == 0,
    decreases 256 * left(tokens@) + ctx.spilled_cells@.len(),
//@ before ctx.add_phantom_cells
let ghost c0 = ctx.num_cols;
let ghost ph = ctx.phantom_cells@;
//@ before cells.push(cell)
proof { placed(cells@, at, Set::<(usize, usize)>::empty(), ph, ctx.phantom_cells@, 0, c0, cell, ctx.num_cols); at = at.push(c0); }
//@ before while vx_kind(tokens.current(), TokenKind::Newline)
let ghost n1 = tokens@.len();
proof {
    fallen(cells@, at, Set::<(usize, usize)>::empty(), ctx.phantom_cells@, 0, ctx.num_cols as int);
    if ctx.num_cols > 0 && cells@.len() == 0 { let z = 0usize; assert(ctx.phantom_cells@.contains((0usize, z)) || at.contains(z)); }
}
//@ loop 1
    invariant tokens@.len() <= n1,
    decreases left(tokens@),
//@ loopbody 1
proof { flat_first(tokens@); }
//@ sub self.finish_implicit_header_row(cells, ctx) ==> let ghost vx_c = cells@; let ghost c1 = *ctx; let vx_r = self.finish_implicit_header_row(cells, ctx); proof { if vx_r is Ok && vx_c.len() > 0 { assert(first_read(vx_c, at, *old(ctx), *ctx)); } } vx_r
//@end
}
/// the cells of the first row are the columns of the table
spec fn first_read(cells: Seq<Cell>, at: Seq<usize>, ctx0: TableContext, ctx: TableContext) -> bool {
    &&& laid(cells, at, Set::<(usize, usize)>::empty(), ctx.phantom_cells@, 0, ctx.num_cols as int) && full(at, ctx.phantom_cells@, 0, ctx.num_cols as int)
    &&& ctx.spilled_cells@.len() == 0 && ctx.num_cols > 0 && ctx.effective_row_idx == 1 && falling(ctx.phantom_cells@, 1)
    &&& ctx.table.col_widths.0@.len() == ctx.num_cols
    &&& if ctx.table.header_row is Some { ctx.table.rows@.len() == 0 && alike(cells, ctx.table.header_row->0.cells@) } else { ctx.table.rows@.len() == 1 && ctx.table.rows@[0].cells@ == cells }
}
/// the content of a cell is that of these tokens
uninterp spec fn made(c: Cell, l: Seq<Token>) -> bool;
/// what the token text can't hold
fn vx_cell(r: Result<Option<(Cell, u8)>>) -> (o: Result<Option<Cell>>)
    ensures match r { Ok(Some((c, _))) => o == Ok::<Option<Cell>, VxErr>(Some(c)), Ok(None) => o == Ok::<Option<Cell>, VxErr>(None), Err(_) => o is Err },
{ match r { Ok(Some((c, _))) => Ok(Some(c)), Ok(None) => Ok(None), Err(e) => Err(e) } }
/// a cell ends at a separator or the end of a line, which it takes
spec fn delimiter(mid: Seq<Token>, now: Seq<Token>, sep: char) -> bool {
    if mid.len() == 0 { now == mid } else if mid[0].kind == Newline { now == mid.skip(1) } else { at_sep(mid, sep) && flat(mid) == seq![sep] + flat(now) }
}
spec fn no_line_end(l: Seq<Token>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).kind != Newline }
/// text of a cell, and what ends it
spec fn dsv_text(l0: Seq<Token>, c: Cell, now: Seq<Token>, sep: char, l: Seq<Token>, esc: Seq<bool>, mid: Seq<Token>) -> bool {
    made(c, l) && flat(l0) == raw(l, esc) + flat(mid) && clean(l, esc, sep) && delimiter(mid, now, sep)
}
spec fn unquoted(s: Seq<char>) -> Seq<char> { s.filter(|c: char| c != '"') }
spec fn csv_text(l0: Seq<Token>, c: Cell, now: Seq<Token>, sep: char, gap: Seq<Token>, l: Seq<Token>, mid: Seq<Token>) -> bool {
    made(c, l) && all_ws(gap) && unquoted(flat(l0)) == unquoted(flat(gap)) + unquoted(flat(l)) + unquoted(flat(mid)) && delimiter(mid, now, sep)
}
spec fn all_ws(l: Seq<Token>) -> bool { forall|i: int| 0 <= i < l.len() ==> ws(#[trigger] l[i]) }
proof fn unquoted_add(a: Seq<char>, b: Seq<char>)
    ensures unquoted(a + b) == unquoted(a) + unquoted(b),
{ Seq::filter_distributes_over_add(a, b, |c: char| c != '"'); }
impl Parser {
//@extract parser/src/tasks/table/parse_dsv_table.rs :: impl Parser :: fn consume_dsv_delimiter
//@ spec
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@,
        !r ==> final(tokens)@ == old(tokens)@ && (old(tokens)@.len() > 0 ==> old(tokens)@[0].kind != Newline && !at_sep(old(tokens)@, old(ctx).cell_separator)),
        r ==> old(tokens)@.len() > 0 && delimiter(old(tokens)@, final(tokens)@, old(ctx).cell_separator) && left(final(tokens)@) < left(old(tokens)@),
//@ body
proof { if tokens@.len() > 0 { flat_first(tokens@); } }
//@end
//@extract parser/src/tasks/table/parse_dsv_table.rs :: impl Parser :: fn finish_dsv_table_cell
//@ noexit
//@ sub CellSpec::default() ==> vx_default_spec()
//@ sub start..end ==> vx_range(start, end)
//@ sub return self.finish_cell($x).map(|data| data.map(|(cell, _)| cell)); ==> let vx_r = vx_cell(self.finish_cell($x)); proof { if vx_r is Ok && vx_r->Ok_0 is Some { assert(dsv_text(l0, vx_r->Ok_0->0, tokens@, sep, l1, esc, b0)); } } return vx_r;
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator),
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@,
        match r {
            Ok(_) => left(final(tokens)@) <= left(old(tokens)@) && (old(tokens)@.len() > 0 ==> left(final(tokens)@) < left(old(tokens)@)),
            _ => true,
        },
        match r {
            Ok(Some(c)) => exists|l: Seq<Token>, esc: Seq<bool>, mid: Seq<Token>| #[trigger] dsv_text(old(tokens)@, c, final(tokens)@, old(ctx).cell_separator, l, esc, mid),
            _ => true,
        },
//@ before loop
let ghost l0 = tokens@;
let ghost sep = ctx.cell_separator;
let ghost mut esc = Seq::<bool>::empty();
//@ loop 0
    invariant reading(*old(ctx), *ctx), ctx.phantom_cells@ == old(ctx).phantom_cells@, ctx.spilled_cells@ == old(ctx).spilled_cells@, ctx.embeddable_cell_separator == Some(sep), sep == ctx.cell_separator, l0 == old(tokens)@,
        flat(l0) == raw(cell_tokens@, esc) + flat(tokens@), clean(cell_tokens@, esc, sep), left(tokens@) < left(l0) || tokens@ == l0,
    decreases left(tokens@),
//@ loopbody 0
let ghost b0 = tokens@;
//@ before let vx_r = vx_cell
let ghost l1 = cell_tokens@;
proof { assert(delimiter(b0, tokens@, sep)); assert(flat(l0) == raw(l1, esc) + flat(b0)); }
//@ before if (token.kind == TokenKind::Backslash)
let ghost b1 = tokens@;
let ghost l1 = cell_tokens@;
proof { lexed(token); }
//@ before [0] cell_tokens.push(
proof {
    let o = raw(l1, esc);
    assert(l1.push(next).drop_last() =~= l1);
    assert(esc.push(true).drop_last() =~= esc);
    assert(raw(l1.push(next), esc.push(true)) =~= o + seq!['\\'] + next.lexeme@);
    assert(flat(l0) =~= raw(l1.push(next), esc.push(true)) + flat(tokens@));
    esc = esc.push(true);
}
//@ before [1] cell_tokens.push(
proof {
    let o = raw(l1, esc);
    assert(l1.push(token).drop_last() =~= l1);
    assert(esc.push(false).drop_last() =~= esc);
    assert(raw(l1.push(token), esc.push(false)) =~= o + token.lexeme@);
    assert(flat(l0) =~= raw(l1.push(token), esc.push(false)) + flat(tokens@));
    esc = esc.push(false);
}
//@ before [2] cell_tokens.push(
proof {
    let o = raw(l1, esc);
    assert(l1.push(token).drop_last() =~= l1);
    assert(esc.push(false).drop_last() =~= esc);
    assert(raw(l1.push(token), esc.push(false)) =~= o + token.lexeme@);
    assert(flat(l0) =~= raw(l1.push(token), esc.push(false)) + flat(tokens@));
    esc = esc.push(false);
}
//@end
}
impl Parser {
//@extract parser/src/tasks/table/parse_csv_table.rs :: impl Parser :: fn finish_csv_table_cell
//@ noexit
//@ guards
//@ sub mut start: u32 ==> vx_start: u32
//@ sub CellSpec::default() ==> vx_default_spec()
//@ sub start..end ==> vx_range(start, end)
//@ sub return self.finish_cell($x).map(|data| data.map(|(cell, _)| cell)); ==> let vx_r = vx_cell(self.finish_cell($x)); proof { if vx_r is Ok && vx_r->Ok_0 is Some { assert(csv_text(l0, vx_r->Ok_0->0, tokens@, sep, gap, l1, b0)); } } return vx_r;
//@ sub self.err_at("Unclosed CSV quote", $x) ==> self.err_at(vx_msg(), $x)
//@ sub self.err_at("Double quote not allowed here, entire field must be quoted", token.loc,) ==> self.err_at(vx_msg(), token.loc)
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator),
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@,
        match r {
            Ok(_) => left(final(tokens)@) <= left(old(tokens)@) && (old(tokens)@.len() > 0 ==> left(final(tokens)@) < left(old(tokens)@)),
            _ => true,
        },
        match r {
            Ok(Some(c)) => exists|gap: Seq<Token>, l: Seq<Token>, mid: Seq<Token>| #[trigger] csv_text(old(tokens)@, c, final(tokens)@, old(ctx).cell_separator, gap, l, mid),
            _ => true,
        },
//@ body
let mut start = vx_start;
let ghost l0 = tokens@;
let ghost sep = ctx.cell_separator;
let ghost mut gap = Seq::<Token>::empty();
proof { if l0.len() > 0 { flat_first(l0); } unquoted_add(Seq::<char>::empty(), flat(l0)); }
//@ before let quote = tokens
proof { lexed(tokens@[0]); quote_gone(tokens@[0].lexeme@); unquoted_add(tokens@[0].lexeme@, flat(tokens@.skip(1))); assert(unquoted(flat(l0)) =~= unquoted(flat(gap)) + unquoted(flat(tokens@.skip(1)))); }
//@ loop 0
    invariant all_ws(gap), unquoted(flat(l0)) == unquoted(flat(gap)) + unquoted(flat(tokens@)), left(tokens@) < left(l0),
    decreases left(tokens@),
//@ loopbody 0
proof {
    flat_first(tokens@); unquoted_add(tokens@[0].lexeme@, flat(tokens@.skip(1)));
    flat_push(gap, tokens@[0]); unquoted_add(flat(gap), tokens@[0].lexeme@);
    assert(unquoted(flat(l0)) =~= unquoted(flat(gap.push(tokens@[0]))) + unquoted(flat(tokens@.skip(1))));
    gap = gap.push(tokens@[0]);
}
//@ before loop
proof { assert(unquoted(Seq::<char>::empty()) =~= Seq::<char>::empty()); assert(unquoted(flat(l0)) =~= unquoted(flat(gap)) + unquoted(flat(cell_tokens@)) + unquoted(flat(tokens@))); }
//@ loop 1
    invariant reading(*old(ctx), *ctx), ctx.phantom_cells@ == old(ctx).phantom_cells@, ctx.spilled_cells@ == old(ctx).spilled_cells@, ctx.embeddable_cell_separator == Some(sep), sep == ctx.cell_separator, l0 == old(tokens)@, all_ws(gap),
        unquoted(flat(l0)) == unquoted(flat(gap)) + unquoted(flat(cell_tokens@)) + unquoted(flat(tokens@)), left(tokens@) < left(l0) || tokens@ == l0,
    decreases left(tokens@),
//@ loopbody 1
let ghost b0 = tokens@;
let ghost l1 = cell_tokens@;
//@ before end = token.loc.end
let ghost b1 = tokens@;
proof {
    lexed(token);
    unquoted_add(token.lexeme@, flat(b1));
    quote_gone(token.lexeme@);
    flat_push(l1, token); unquoted_add(flat(l1), token.lexeme@);
    assert(unquoted(flat(l0)) =~= unquoted(flat(gap)) + unquoted(flat(l1.push(token))) + unquoted(flat(b1)));
    if token.lexeme@ == seq!['"'] { assert(unquoted(flat(l0)) =~= unquoted(flat(gap)) + unquoted(flat(l1)) + unquoted(flat(b1))); }
    if b1.len() > 0 && b1[0].kind == DoubleQuote {
        lexed(b1[0]); flat_first(b1); quote_gone(b1[0].lexeme@); unquoted_add(b1[0].lexeme@, flat(b1.skip(1)));
        flat_push(l1, b1[0]); unquoted_add(flat(l1), b1[0].lexeme@);
        assert(unquoted(flat(l1.push(b1[0]))) =~= unquoted(flat(l1)));
        assert(unquoted(flat(b1)) =~= unquoted(flat(b1.skip(1))));
    }
}
//@end
}
proof fn quote_gone(s: Seq<char>)
    ensures s == seq!['"'] ==> unquoted(s) == Seq::<char>::empty(),
{ if s == seq!['"'] { reveal(Seq::filter); assert(s.drop_last() =~= Seq::<char>::empty()); assert(unquoted(s.drop_last()) =~= Seq::<char>::empty()); assert(unquoted(s) =~= Seq::<char>::empty()); } }
/// a field: after white space, its text up to the delimiter, or none where a line ends after a separator
spec fn field(l0: Seq<Token>, c: Cell, now: Seq<Token>, ctx: TableContext, gap: Seq<Token>, start: Seq<Token>) -> bool {
    &&& all_ws(gap) && flat(l0) == flat(gap) + flat(start)
    &&& (now == start && gap.len() > 0 && made(c, Seq::<Token>::empty()) && ctx.dsv_last_consumed == DsvLastConsumed::Delimiter)
        || (ctx.format is Csv && exists|g: Seq<Token>, l: Seq<Token>, mid: Seq<Token>| #[trigger] csv_text(start, c, now, ctx.cell_separator, g, l, mid))
        || (ctx.format is Delimited && exists|l: Seq<Token>, esc: Seq<bool>, mid: Seq<Token>| #[trigger] dsv_text(start, c, now, ctx.cell_separator, l, esc, mid))
}
spec fn split_format(f: DataFormat) -> bool { f is Csv || f is Delimited }
impl Parser {
//@extract parser/src/tasks/table/parse_dsv_table.rs :: impl Parser :: fn parse_dsv_table_cell
//@ sub let mut trimmed_newlines = 0; ==> let mut trimmed_newlines: usize = 0;
//@ sub trimmed.kind(TokenKind::Newline) ==> trimmed.kind == TokenKind::Newline
//@ sub let spec = CellSpec::default(); ==> let spec = vx_default_spec();
//@ sub start..start ==> vx_range(start, start)
//@ sub return self.finish_cell($x).map(|data| data.map(|(cell, _)| cell)); ==> let vx_r = vx_cell(self.finish_cell($x)); proof { if vx_r is Ok && vx_r->Ok_0 is Some { assert(field(l0, vx_r->Ok_0->0, tokens@, *old(ctx), gap, tokens@)); } } return vx_r;
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator), split_format(old(ctx).format), left(old(tokens)@) <= 0xffff_ffff,
    ensures reading(*old(ctx), *final(ctx)), final(ctx).phantom_cells@ == old(ctx).phantom_cells@, final(ctx).spilled_cells@ == old(ctx).spilled_cells@,
        old(tokens)@.len() == 0 ==> r == Ok::<Option<Cell>, VxErr>(None) && final(tokens)@ == old(tokens)@ && *final(ctx) == *old(ctx),
        match r {
            Ok(None) => left(final(tokens)@) <= left(old(tokens)@),
            Ok(Some(c)) => left(final(tokens)@) < left(old(tokens)@) && exists|gap: Seq<Token>, start: Seq<Token>| #[trigger] field(old(tokens)@, c, final(tokens)@, *old(ctx), gap, start),
            _ => true,
        },
//@ body
let ghost l0 = tokens@;
let ghost mut gap = Seq::<Token>::empty();
proof { assert(flat(l0) =~= flat(gap) + flat(l0)); }
//@ loop 0
    invariant all_ws(gap), flat(l0) == flat(gap) + flat(tokens@), left(tokens@) <= left(l0), gap.len() > 0 ==> left(tokens@) < left(l0), gap.len() == 0 ==> tokens@ == l0, trimmed_newlines <= gap.len(), gap.len() + tokens@.len() == l0.len(), l0.len() <= 0xffff_ffff,
        same_but_count(*old(ctx), *ctx), split_format(ctx.format),
    decreases left(tokens@),
//@ loopbody 0
proof {
    flat_first(tokens@); flat_push(gap, tokens@[0]);
    assert(flat(l0) =~= flat(gap.push(tokens@[0])) + flat(tokens@.skip(1)));
    gap = gap.push(tokens@[0]);
}
//@ before let maybe_cell
let ghost start_l = tokens@;
let ghost sep = ctx.cell_separator;
//@ before Ok(maybe_cell)
proof { if maybe_cell is Some { let c = maybe_cell->0; assert(ctx.format == old(ctx).format); assert(left(tokens@) < left(l0)); assert(ctx.format is Csv ==> exists|g: Seq<Token>, l: Seq<Token>, mid: Seq<Token>| #[trigger] csv_text(start_l, c, tokens@, sep, g, l, mid)); assert(ctx.format is Delimited ==> exists|l: Seq<Token>, esc: Seq<bool>, mid: Seq<Token>| #[trigger] dsv_text(start_l, c, tokens@, sep, l, esc, mid)); assert(field(l0, maybe_cell->0, tokens@, *old(ctx), gap, start_l)); } }
//@end
//@extract parser/src/tasks/table/parse_dsv_table.rs :: impl Parser :: fn parse_dsv_table_row
//@ sub let mut cells = Vec::new(); ==> let mut cells: Vec<Cell> = Vec::new();
//@ sub while let Some(cell) = self.parse_dsv_table_cell(tokens, ctx, cells.len())? { $x } ==> loop { let Some(cell) = self.parse_dsv_table_cell(tokens, ctx, cells.len())? else { break; }; $x }
//@ sub Row::new(cells) ==> Row { cells }
//@ spec
    requires old(ctx).embeddable_cell_separator == Some(old(ctx).cell_separator), split_format(old(ctx).format), left(old(tokens)@) <= 0xffff_ffff, old(ctx).effective_row_idx < usize::MAX,
    ensures match r {
        Ok(Some(row)) => 0 < row.cells@.len() && (old(ctx).num_cols > 0 ==> row.cells@.len() <= old(ctx).num_cols) && final(ctx).effective_row_idx == old(ctx).effective_row_idx + 1 && final(ctx).num_cols == old(ctx).num_cols && final(ctx).table == old(ctx).table
            && left(final(tokens)@) < left(old(tokens)@),
        _ => true,
    },
//@ body
let ghost l0 = tokens@;
//@ loop 0
    invariant_except_break ctx.num_cols > 0 ==> cells@.len() < ctx.num_cols,
    invariant reading(*old(ctx), *ctx), split_format(ctx.format), left(tokens@) <= 0xffff_ffff, ctx.embeddable_cell_separator == Some(ctx.cell_separator),  cells@.len() > 0 ==> left(tokens@) < left(l0),
        left(tokens@) <= left(l0),
    ensures ctx.num_cols > 0 ==> cells@.len() <= ctx.num_cols, cells@.len() > 0 ==> left(tokens@) < left(l0), reading(*old(ctx), *ctx),
    decreases left(tokens@),
//@end
}
impl Clone for PsvCell {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
spec fn cells_of(row: Option<Row>) -> Seq<Cell> { match row { Some(row) => row.cells@, None => Seq::empty() } }
/// a row fills the columns of the table, or nothing is left for it
spec fn row_read(row: Option<Row>, ctx0: TableContext, ctx: TableContext, l: Seq<Token>, at: Seq<usize>) -> bool {
    let done = l.len() == 0 && ctx.spilled_cells@.len() == 0;
    &&& ctx.effective_row_idx == ctx0.effective_row_idx + 1 && ctx.num_cols == ctx0.num_cols && ctx.table == ctx0.table
    &&& falling(ctx.phantom_cells@, ctx.effective_row_idx as int)
    &&& row is None ==> done
    &&& laid(cells_of(row), at, ctx0.phantom_cells@, ctx.phantom_cells@, ctx0.effective_row_idx, ctx0.num_cols as int)
    &&& full(at, ctx.phantom_cells@, ctx0.effective_row_idx, ctx0.num_cols as int) || done
}
/// cells read one after another
spec fn read_all(l0: Seq<Token>, l: Seq<Token>, stops: Seq<Seq<Token>>, seen: Seq<PsvCell>, sep: char) -> bool {
    stops.len() == seen.len() + 1 && stops[0] == l0 && stops.last() == l && forall|i: int| 0 <= i < seen.len() ==> cell_read(#[trigger] stops[i], seen[i], stops[i + 1], sep)
}
spec fn span_of(s: CellSpec) -> int { match s.col_span { Some(n) => n as int, None => 1 } }
/// wider than the table, of which there is a diagnostic
spec fn all_wide(seen: Seq<PsvCell>, n: int) -> bool { forall|i: int| 0 <= i < seen.len() ==> span_of((#[trigger] seen[i]).spec) > n }
/// the next cell is the copy of one that is due, or else the next written, and the copies it asks for are due
spec fn next_read(l0: Seq<Token>, due0: Seq<PsvCell>, cell: PsvCell, l: Seq<Token>, due: Seq<PsvCell>, ctx: TableContext) -> bool {
    if due0.len() > 0 { cell == due0.last() && due == due0.drop_last() && l == l0 }
    else {
        &&& exists|stops: Seq<Seq<Token>>, seen: Seq<PsvCell>| #[trigger] read_all(l0, l, stops, seen, ctx.cell_separator) && seen.len() > 0 && seen.last() == cell && all_wide(seen.drop_last(), ctx.num_cols as int)
        &&& left(l) < left(l0)
        &&& due == Seq::new((match cell.spec.duplication { Some(n) => if n >= 1 { n - 1 } else { 0 }, None => 0 }) as nat, |i: int| cell)
    }
}
/// the rectangle of a cell
spec fn covers(c: Cell, row: usize, at: usize, p: (usize, usize)) -> bool { row <= p.0 < row + c.row_span && at <= p.1 < at + c.col_span }
/// the cells of a row: side by side in columns not reached from above, and they reach down from there
spec fn laid(cells: Seq<Cell>, at: Seq<usize>, ph0: Set<(usize, usize)>, ph: Set<(usize, usize)>, row: usize, n: int) -> bool {
    &&& cells.len() == at.len()
    &&& forall|i: int| 0 <= i < cells.len() ==> (#[trigger] at[i]) + cells[i].col_span <= n && cells[i].col_span >= 1 && cells[i].row_span >= 1
    &&& forall|i: int, j: int| 0 <= i < j < cells.len() ==> (#[trigger] at[i]) + cells[i].col_span <= #[trigger] at[j]
    &&& forall|i: int, c: usize| 0 <= i < cells.len() && (#[trigger] at[i]) <= c < at[i] + cells[i].col_span ==> !(#[trigger] ph0.contains((row, c)))
    &&& forall|p: (usize, usize)| (#[trigger] ph.contains(p)) == (ph0.contains(p) || exists|i: int| 0 <= i < cells.len() && under(cells[i], row as int, #[trigger] at[i] as int, p))
}
/// each column of a row is of a cell that starts or reaches there
spec fn full(at: Seq<usize>, ph: Set<(usize, usize)>, row: usize, n: int) -> bool {
    forall|c: usize| c < n ==> (#[trigger] ph.contains((row, c))) || at.contains(c)
}
/// cells reach down without a gap
spec fn falling(ph: Set<(usize, usize)>, row: int) -> bool {
    forall|r: usize, c: usize| row <= r && (#[trigger] ph.contains((r, c))) ==> forall|q: usize| row <= q < r ==> #[trigger] ph.contains((q, c))
}
proof fn placed(cells: Seq<Cell>, at: Seq<usize>, ph0: Set<(usize, usize)>, ph: Set<(usize, usize)>, ph2: Set<(usize, usize)>, row: usize, col: usize, c: Cell, n: usize)
    requires laid(cells, at, ph0, ph, row, col as int), full(at, ph, row, col as int), c.col_span >= 1, c.row_span >= 1, col + c.col_span <= n,
        forall|x: usize| col <= x < col + c.col_span ==> !(#[trigger] ph.contains((row, x))),
        forall|x: usize| col + c.col_span <= x < n ==> #[trigger] ph2.contains((row, x)),
        forall|p: (usize, usize)| #[trigger] ph2.contains(p) == (ph.contains(p) || under(c, row as int, col as int, p)),
    ensures laid(cells.push(c), at.push(col), ph0, ph2, row, n as int), full(at.push(col), ph2, row, n as int),
{
    let cs = cells.push(c);
    let a2 = at.push(col);
    assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] a2[i]) + cs[i].col_span <= n && cs[i].col_span >= 1 && cs[i].row_span >= 1 by { if i < cells.len() { assert(a2[i] == at[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < cs.len() implies (#[trigger] a2[i]) + cs[i].col_span <= #[trigger] a2[j] by { assert(a2[i] == at[i]); if j < cells.len() { assert(a2[j] == at[j]); } }
    assert forall|i: int, x: usize| 0 <= i < cs.len() && (#[trigger] a2[i]) <= x < a2[i] + cs[i].col_span implies !(#[trigger] ph0.contains((row, x))) by {
        if i < cells.len() { assert(a2[i] == at[i]); } else { assert(!ph.contains((row, x))); }
    }
    assert forall|p: (usize, usize)| (#[trigger] ph2.contains(p)) == (ph0.contains(p) || exists|i: int| 0 <= i < cs.len() && under(cs[i], row as int, #[trigger] a2[i] as int, p)) by {
        if ph.contains(p) && !ph0.contains(p) { let i = choose|i: int| 0 <= i < cells.len() && under(cells[i], row as int, #[trigger] at[i] as int, p); assert(a2[i] == at[i]); assert(under(cs[i], row as int, a2[i] as int, p)); }
        if under(c, row as int, col as int, p) { assert(a2[cells.len() as int] == col); }
        if exists|i: int| 0 <= i < cs.len() && under(cs[i], row as int, #[trigger] a2[i] as int, p) {
            let i = choose|i: int| 0 <= i < cs.len() && under(cs[i], row as int, #[trigger] a2[i] as int, p);
            if i < cells.len() { assert(at[i] == a2[i]); assert(under(cells[i], row as int, at[i] as int, p)); assert(ph.contains(p)); }
        }
    }
    assert forall|x: usize| x < n implies (#[trigger] ph2.contains((row, x))) || a2.contains(x) by {
        if x < col { if at.contains(x) { let k = choose|k: int| 0 <= k < at.len() && at[k] == x; assert(a2[k] == x); } else { assert(ph.contains((row, x))); } }
        else if x == col { assert(a2[cells.len() as int] == x); }
        else if x < col + c.col_span { assert(under(c, row as int, col as int, (row, x))); }
    }
}
proof fn fallen(cells: Seq<Cell>, at: Seq<usize>, ph0: Set<(usize, usize)>, ph: Set<(usize, usize)>, row: usize, n: int)
    requires laid(cells, at, ph0, ph, row, n), falling(ph0, row as int),
    ensures falling(ph, row + 1),
{
    assert forall|r: usize, c: usize, q: usize| row + 1 <= r && (#[trigger] ph.contains((r, c))) && row + 1 <= q < r implies #[trigger] ph.contains((q, c)) by {
        if ph0.contains((r, c)) { assert(ph0.contains((q, c))); }
        else { let i = choose|i: int| 0 <= i < cells.len() && under(cells[i], row as int, #[trigger] at[i] as int, (r, c)); assert(under(cells[i], row as int, at[i] as int, (q, c))); }
    }
}
/// no two cells of a table overlap
proof fn no_overlap(cells: Seq<Cell>, at: Seq<usize>, ph0: Set<(usize, usize)>, ph: Set<(usize, usize)>, row: usize, n: int, i: int, p: (usize, usize))
    requires laid(cells, at, ph0, ph, row, n), falling(ph0, row as int), 0 <= i < cells.len(), covers(cells[i], row, at[i], p),
    ensures !ph0.contains(p), forall|j: int| 0 <= j < cells.len() && j != i ==> !covers(cells[j], row, #[trigger] at[j], p),
{
    if ph0.contains(p) { assert(ph0.contains((p.0, p.1))); assert(ph0.contains((row, p.1))); }
    assert forall|j: int| 0 <= j < cells.len() && j != i implies !covers(cells[j], row, #[trigger] at[j], p) by { if j < i { assert(at[j] + cells[j].col_span <= at[i]); } else { assert(at[i] + cells[i].col_span <= at[j]); } }
}
/// of a token, the bytes up to and with the separator at `before`
proof fn start_is(s: Seq<char>, before: int, sep: char)
    requires before == 0 || before == 1 && s.len() > 0 && (s[0] as int) < 0x80,
    ensures bound(s, before), boff(s, before) == before,
        forall|j: int| 0 <= j <= s.len() && before == #[trigger] boff(s, j) ==> j == before,
        before < s.len() && s[before] == sep ==> boff(s, before + 1) == before + width(sep) && boff(s, s.len() as int) >= before + width(sep) && (boff(s, s.len() as int) - before == width(sep) <==> s.len() == before + 1),
{
    assert(boff(s, 0) == 0);
    if before == 1 { assert(boff(s, 1) == boff(s, 0) + width(s[0])); }
    assert forall|j: int| 0 <= j <= s.len() && before == #[trigger] boff(s, j) implies j == before by { boff_inj(s, j, before); }
    if before < s.len() && s[before] == sep {
        assert(boff(s, before + 1) == boff(s, before) + width(s[before]));
        if s.len() > before + 1 { boff_mono(s, before + 1, s.len() as int); }
    }
}
}
fn main() {}
