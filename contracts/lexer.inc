//@include prelude.inc
use vstd::utf8::*;
use vstd::string::*;
use vstd::slice::*;
verus! {
// unit: byte-level tokenizer (parser/src/lexer/source_lexer.rs)

// ---- trusted models ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Bump { x: u8 }
#[verifier::external_body]
pub struct SourceFile { x: u8 }
#[verifier::external_body]
pub struct PluginNames { x: u8 }
/// bumpalo's String, seen as its UTF-8 bytes
#[verifier::external_body]
pub struct BumpString { x: String }
impl View for BumpString {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl BumpString {
    #[verifier::external_body]
    fn from_str_in(s: &str, b: Bump) -> (r: BumpString)
        ensures r@ == encode_utf8(s@),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_from_utf8(v: &[u8]) -> (r: &str)
    requires valid_utf8(v@),
    ensures encode_utf8(r@) == v@,
{ std::str::from_utf8(v).unwrap() }
#[verifier::external_body]
fn vx_sub(v: &Vec<u8>, a: usize, b: usize) -> (r: &[u8])
    requires a <= b <= v.len(),
    ensures r@ == v@.subrange(a as int, b as int),
{ &v[a..b] }
#[verifier::external_body]
fn vx_from(v: &Vec<u8>, a: usize) -> (r: &[u8])
    requires a <= v.len(),
    ensures r@ == v@.subrange(a as int, v.len() as int),
{ &v[a..] }
#[verifier::external_body]
fn vx_get(v: &Vec<u8>, i: usize) -> (r: Option<u8>)
    ensures r == (if i < v.len() { Some(v@[i as int]) } else { None::<u8> }),
{ v.get(i).copied() }
#[verifier::external_body]
fn vx_get_sub(v: &Vec<u8>, a: usize, b: usize) -> (r: Option<&[u8]>)
    ensures
        a <= b <= v.len() ==> r.is_some() && r.unwrap()@ == v@.subrange(a as int, b as int),
        !(a <= b <= v.len()) ==> r.is_none(),
{ v.get(a..b) }
#[verifier::external_body]
fn vx_has(v: &[u8], c: u8) -> (r: bool)
    ensures r == v@.contains(c),
{ v.contains(&c) }
#[verifier::external_body]
fn vx_ends_with(v: &[u8], w: &[u8]) -> (r: bool)
    ensures r == (v.len() >= w.len() && v@.subrange(v.len() - w.len(), v.len() as int) == w@),
{ v.ends_with(w) }
#[verifier::external_body]
fn vx_eq(v: &[u8], w: &[u8]) -> (r: bool)
    ensures r == (v@ == w@),
{ v == w }
#[verifier::external_body]
fn vx_opt_eq(v: Option<&[u8]>, w: &[u8]) -> (r: bool)
    ensures r == (v.is_some() && v.unwrap()@ == w@),
{ v == Some(w) }
#[verifier::external_body]
fn vx_plugin_has(p: &PluginNames, lexeme: &[u8]) -> bool { unimplemented!() }
#[verifier::external_body]
fn vx_ref_is(o: Option<&u8>, c: u8) -> (r: bool)
    ensures r == (o.is_some() && *o.unwrap() == c),
{ o == Some(&c) }

/// stands for std's slice iterator, one `next` at a time
pub struct VxIter<'a> { s: &'a [u8], i: usize }
impl<'a> VxIter<'a> {
    fn next(&mut self) -> (r: Option<&'a u8>)
        ensures
            final(self).s@ == old(self).s@,
            r == (if old(self).i < old(self).s.len() { Some(&old(self).s@[old(self).i as int]) } else { None::<&u8> }),
            final(self).i == (if old(self).i < old(self).s.len() { old(self).i + 1 } else { old(self).i as int }),
    {
        if self.i < self.s.len() { self.i += 1; Some(&self.s[self.i - 1]) } else { None }
    }
}
pub open spec fn is_digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn is_alpha(b: u8) -> bool { 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a }
pub open spec fn is_hex(b: u8) -> bool { is_digit(b) || 0x41 <= b <= 0x46 || 0x61 <= b <= 0x66 }
pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == is_digit(*b);
pub assume_specification[ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == is_alpha(*b);
pub assume_specification[ u8::is_ascii_alphanumeric ](b: &u8) -> (r: bool) ensures r == (is_alpha(*b) || is_digit(*b));
pub assume_specification[ u8::is_ascii_hexdigit ](b: &u8) -> (r: bool) ensures r == is_hex(*b);
pub assume_specification[ u8::is_ascii_whitespace ](b: &u8) -> (r: bool)
    ensures r == (*b == 0x20 || *b == 0x09 || *b == 0x0a || *b == 0x0c || *b == 0x0d);

//@gsub <'arena> ==>
//@gsub &'arena Bump ==> Bump
//@gsub BumpVec<'arena, u8> ==> Vec<u8>
//@gsub Rc<BumpVec<'arena, BumpString>> ==> PluginNames
//@gsub std::str::from_utf8(&self.src[$a..$b]).unwrap() ==> vx_from_utf8(vx_sub(&self.src, $a, $b))
//@gsub &self.src[$a as usize..$b as usize] ==> vx_sub(&self.src, $a as usize, $b as usize)
//@gsub &self.src[end as usize + 1..$b as usize] ==> vx_sub(&self.src, end as usize + 1, $b as usize)
//@gsub self.src.get(self.pos as usize..self.pos as usize + N) ==> vx_get_sub(&self.src, self.pos as usize, self.pos as usize + N)
//@gsub self.src.get($i).copied() ==> vx_get(&self.src, $i)
//@gsub self.src.get($i) == Some(&$c) ==> vx_get(&self.src, $i) == Some($c)
//@gsub self.src[self.pos as usize + 1..].iter() ==> VxIter { s: vx_from(&self.src, self.pos as usize + 1), i: 0 }
//@gsub self.src[self.pos as usize..].iter() ==> vx_from(&self.src, self.pos as usize)

//@item parser/src/token.rs :: - :: enum TokenKind
//@ attr #[derive(Clone, Copy)]
//@end
use TokenKind::*;
//@item ast/src/source_location.rs :: - :: struct SourceLocation
//@ attr #[derive(Clone, Copy)]
//@end
//@item parser/src/token.rs :: - :: struct Token
//@end
//@item parser/src/lexer/source_lexer.rs :: - :: struct SourceLexer
//@end
//@item parser/src/lexer/source_lexer.rs :: - :: const TMP_DEPTH
//@end
impl SourceLocation {
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn new
//@ spec
    requires start <= end,
    ensures r.start == start, r.end == end, r.include_depth == include_depth,
//@end
}

// ---- specification ----
spec fn ws(b: u8) -> bool { b == 0x20 || b == 0x09 || b == 0x0b || b == 0x0c }
spec fn all_are(s: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == c }
spec fn all_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
spec fn delim_byte(b: u8) -> bool {
    b == 0x5f || b == 0x2d || b == 0x2a || b == 0x3d || b == 0x2e || b == 0x2b || b == 0x2f || b == 0x60
}
spec fn eol_at(s: Seq<u8>, i: int) -> bool { i >= s.len() || s[i] == 0x0a || s[i] == 0x0d }
spec fn run_at(s: Seq<u8>, a: int, n: int, c: u8) -> bool {
    a + n <= s.len() && forall|i: int| a <= i < a + n ==> #[trigger] s[i] == c
}
/// what a block delimiter line is: the whole of a line made of one repeated delimiter byte
/// (```` ``` ```` may be followed by a language)
spec fn delim_at(s: Seq<u8>, p: int, n: int, c: u8) -> bool {
    &&& delim_byte(c)
    &&& run_at(s, p, n, c)
    &&& (c == 0x60 ==> n == 3 && !(p + 3 < s.len() && s[p + 3] == 0x60))
    &&& (c == 0x2d ==> n == 2 || n == 4)
    &&& (c != 0x60 && c != 0x2d ==> n >= 4)
    &&& (c != 0x60 ==> eol_at(s, p + n))
}
spec fn line_start(s: Seq<u8>, p: int) -> bool { p == 0 || (p - 1 < s.len() && s[p - 1] == 0x0a) }
spec fn callout_text(s: Seq<u8>) -> bool {
    let n = s.len();
    ||| s == seq![0x3cu8, 0x2e, 0x3e]
    ||| s == seq![0x3cu8, 0x21, 0x2d, 0x2d, 0x2e, 0x2d, 0x2d, 0x3e]
    ||| n >= 3 && s[0] == 0x3c && s[n - 1] == 0x3e && forall|i: int| 1 <= i < n - 1 ==> is_digit(#[trigger] s[i])
    ||| n >= 8 && s[0] == 0x3c && s[1] == 0x21 && s[2] == 0x2d && s[3] == 0x2d && s[n - 3] == 0x2d && s[n - 2] == 0x2d
        && s[n - 1] == 0x3e && forall|i: int| 4 <= i < n - 3 ==> is_digit(#[trigger] s[i])
}
spec fn sp_eol(s: Seq<u8>, i: int) -> bool { i >= s.len() || s[i] == 0x20 || s[i] == 0x09 || s[i] == 0x0a || s[i] == 0x0d }
/// a character reference: `&name;`, `&#digits;` or `&#xhex;`
spec fn ent_class(a: u8, b: u8, c: u8) -> bool {
    if a == 0x23 { if b == 0x78 { is_hex(c) } else { is_digit(c) } } else { is_alpha(c) || is_digit(c) }
}
spec fn byte_or0(s: Seq<u8>, i: int) -> u8 { if i < s.len() { s[i] } else { 0 } }
spec fn ent_lead(a: u8, b: u8) -> int { if a == 0x23 && b == 0x78 { 3 } else { 2 } }
spec fn entity_text(t: Seq<u8>) -> bool {
    &&& t.len() >= 4 && t.len() >= ent_lead(t[1], t[2]) + 2 && t[0] == 0x26 && t[t.len() - 1] == 0x3b
    &&& (is_alpha(t[1]) || t[1] == 0x23)
    &&& forall|i: int| ent_lead(t[1], t[2]) <= i < t.len() - 1 ==> ent_class(t[1], t[2], #[trigger] t[i])
}
spec fn entity_at(s: Seq<u8>, p: int, e: int) -> bool { p < e <= s.len() && entity_text(s.subrange(p, e)) }
/// a delimiter-line token starts a line, and every delimiter line is one
spec fn kind_first(kind: TokenKind, s: Seq<u8>, p: int) -> bool {
    &&& (kind == TokenKind::DelimiterLine ==> line_start(s, p))
    &&& ((exists|e: int| #[trigger] entity_at(s, p, e)) ==> kind == TokenKind::Entity || (p >= 1 && s[p - 1] == 0x5c))
    &&& (line_start(s, p) && (exists|n: int, c: u8| #[trigger] delim_at(s, p, n, c)) ==> kind == TokenKind::DelimiterLine)
}
/// runs are maximal: the byte after a run token does not continue it
spec fn kind_maximal(kind: TokenKind, s: Seq<u8>, e: int) -> bool {
    e < s.len() ==> match kind {
        TokenKind::EqualSigns => s[e] != 0x3d,
        TokenKind::Dashes => s[e] != 0x2d,
        TokenKind::Dots => s[e] != 0x2e,
        TokenKind::ForwardSlashes => s[e] != 0x2f,
        TokenKind::OpenParens => s[e] != 0x28,
        TokenKind::CloseParens => s[e] != 0x29,
        TokenKind::Whitespace => !ws(s[e]),
        TokenKind::Digits => !is_digit(s[e]),
        TokenKind::TermDelimiter => sp_eol(s, e),
        _ => true,
    }
}
/// the text of a token fits its kind
spec fn kind_ok(kind: TokenKind, s: Seq<u8>) -> bool {
    match kind {
        TokenKind::EqualSigns => all_are(s, 0x3d),
        TokenKind::Dashes => all_are(s, 0x2d),
        TokenKind::Dots => all_are(s, 0x2e),
        TokenKind::ForwardSlashes => all_are(s, 0x2f),
        TokenKind::OpenParens => all_are(s, 0x28),
        TokenKind::CloseParens => all_are(s, 0x29),
        TokenKind::Whitespace => forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i]),
        TokenKind::Digits => all_digits(s),
        TokenKind::Ampersand => s == seq![0x26u8],
        TokenKind::LessThan => s == seq![0x3cu8],
        TokenKind::GreaterThan => s == seq![0x3eu8],
        TokenKind::Comma => s == seq![0x2cu8],
        TokenKind::Caret => s == seq![0x5eu8],
        TokenKind::Tilde => s == seq![0x7eu8],
        TokenKind::Underscore => s == seq![0x5fu8],
        TokenKind::Star => s == seq![0x2au8],
        TokenKind::Bang => s == seq![0x21u8],
        TokenKind::QuestionMark => s == seq![0x3fu8],
        TokenKind::Backtick => s == seq![0x60u8],
        TokenKind::Plus => s == seq![0x2bu8],
        TokenKind::OpenBracket => s == seq![0x5bu8],
        TokenKind::CloseBracket => s == seq![0x5du8],
        TokenKind::OpenBrace => s == seq![0x7bu8],
        TokenKind::CloseBrace => s == seq![0x7du8],
        TokenKind::Hash => s == seq![0x23u8],
        TokenKind::Percent => s == seq![0x25u8],
        TokenKind::DoubleQuote => s == seq![0x22u8],
        TokenKind::SingleQuote => s == seq![0x27u8],
        TokenKind::Pipe => s == seq![0x7cu8],
        TokenKind::Backslash => s == seq![0x5cu8],
        TokenKind::Colon => s == seq![0x3au8],
        TokenKind::SemiColon => s == seq![0x3bu8],
        TokenKind::Newline => s == seq![0x0au8] || s == seq![0x0du8, 0x0au8],
        TokenKind::AttrRef => s.len() >= 3 && s[0] == 0x7b && s[s.len() - 1] == 0x7d
            && forall|i: int| 1 <= i < s.len() - 1 ==> (is_alpha(#[trigger] s[i]) || is_digit(s[i]) || s[i] == 0x2d || s[i] == 0x5f),
        TokenKind::Entity => entity_text(s),
        TokenKind::TermDelimiter => s == seq![0x3au8, 0x3au8] || s == seq![0x3bu8, 0x3bu8]
            || s == seq![0x3au8, 0x3au8, 0x3au8] || s == seq![0x3au8, 0x3au8, 0x3au8, 0x3au8],
        TokenKind::CalloutNumber => callout_text(s),
        TokenKind::DelimiterLine => s.len() >= 2 && delim_byte(s[0]) && all_are(s, s[0]),
        TokenKind::MacroName => s.len() >= 2 && s[s.len() - 1] == 0x3a,
        TokenKind::Directive => s.len() >= 3 && s[s.len() - 1] == 0x3a && s[s.len() - 2] == 0x3a,
        TokenKind::UriScheme | TokenKind::MaybeEmail | TokenKind::Punctuation | TokenKind::AttrPassDbl
            | TokenKind::Word => s.len() >= 1,
        _ => false,
    }
}
spec fn word_stop(b: u8, with_at: bool) -> bool {
    (b == 0x40 && with_at) || b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d || b == 0x0b || b == 0x0c || b == 0x3a
    || b == 0x3b || b == 0x3c || b == 0x3e || b == 0x2c || b == 0x5e || b == 0x5f || b == 0x7e || b == 0x2a || b == 0x21
    || b == 0x3f || b == 0x60 || b == 0x2b || b == 0x2e || b == 0x5b || b == 0x5d || b == 0x7b || b == 0x7d || b == 0x28
    || b == 0x29 || b == 0x3d || b == 0x7c || b == 0x22 || b == 0x27 || b == 0x5c || b == 0x25 || b == 0x23 || b == 0x26
    || b == 0x2d || b == 0x1b
}
impl SourceLexer {
    /// where scanning may stand: at a character boundary, or past the end
    spec fn at_boundary(&self) -> bool { self.pos >= self.src.len() || is_char_boundary(self.src@, self.pos as int) }
    spec fn good(&self) -> bool { self.wf() && self.at_boundary() && self.pos < 0xffff_8000 }
    /// nothing left to read
    spec fn done_reading(&self) -> bool { self.pos >= self.src.len() }
}
impl SourceLexer {
    spec fn wf(&self) -> bool {
        &&& valid_utf8(self.src@)
        &&& self.src.len() + self.offset <= 0xffff_0000
        &&& self.pos <= 0xffff_ff00
    }
    spec fn same(&self, o: &SourceLexer) -> bool {
        self.src@ == o.src@ && self.offset == o.offset && self.leveloffset == o.leveloffset
            && self.max_include_depth == o.max_include_depth
    }
    /// the token is exactly src[a..b], located there
    spec fn is_tok(&self, t: Token, a: int, b: int) -> bool {
        &&& 0 <= a <= b <= self.src.len()
        &&& t.loc.start == a + self.offset
        &&& t.loc.end == b + self.offset
        &&& t.loc.include_depth == 0
        &&& t.lexeme@ == self.src@.subrange(a, b)
        &&& !t.attr_replacement
    }
    /// mid-scan state: one byte of a token starting at `a` has been consumed
    spec fn mid(&self, a: int) -> bool {
        self.wf() && 0 <= a < self.src.len() && self.pos == a + 1 && is_char_boundary(self.src@, a)
    }
    /// a token covering src[a..pos] was produced
    spec fn done(&self, o: &SourceLexer, t: Token, a: int) -> bool {
        &&& self.same(o) && self.wf()
        &&& a < self.pos <= self.src.len()
        &&& self.is_tok(t, a, self.pos as int)
        &&& is_char_boundary(self.src@, self.pos as int)
        &&& kind_ok(t.kind, self.src@.subrange(a, self.pos as int))
    }
}
proof fn lemma_sub_valid(s: Seq<u8>, a: int, b: int)
    requires valid_utf8(s), 0 <= a <= b <= s.len(), is_char_boundary(s, a), is_char_boundary(s, b),
    ensures valid_utf8(s.subrange(a, b)),
{
    valid_utf8_split(s, b);
    let t = s.subrange(0, b);
    assert(valid_utf8(t));
    lemma_prefix(s, a, b);
    valid_utf8_split(t, a);
    assert(t.subrange(a, t.len() as int) =~= s.subrange(a, b));
}
proof fn lemma_prefix(s: Seq<u8>, a: int, b: int)
    requires valid_utf8(s), 0 <= a <= b <= s.len(), is_char_boundary(s, a), is_char_boundary(s, b),
    ensures is_char_boundary(s.subrange(0, b), a),
{
    valid_utf8_split(s, b);
    let t = s.subrange(0, b);
    is_char_boundary_start_end_of_seq(t);
    if a < b {
      is_char_boundary_iff_not_is_continuation_byte(s, a);
      is_char_boundary_iff_not_is_continuation_byte(t, a);
    }
}
proof fn lemma_ascii_boundary(s: Seq<u8>, i: int)
    requires valid_utf8(s), 0 <= i < s.len(), s[i] < 0x80,
    ensures is_char_boundary(s, i), is_char_boundary(s, i + 1),
{
    is_char_boundary_iff_not_is_continuation_byte(s, i);
    valid_utf8_split(s, i);
    let t = s.subrange(i, s.len() as int);
    assert(t[0] == s[i]);
    is_char_boundary_start_end_of_seq(s);
    if i + 1 < s.len() {
        is_char_boundary_iff_not_is_continuation_byte(s, i+1);
        assert(t[1] == s[i+1]);
        is_char_boundary_iff_not_is_continuation_byte(t, 1);
        assert(t.subrange(1, t.len() as int) =~= s.subrange(i+1, s.len() as int));
        assert(is_char_boundary(t, 1)) by { reveal_with_fuel(is_char_boundary, 3); };
    }
}

proof fn lemma_ascii_all(s: Seq<u8>)
    requires valid_utf8(s),
    ensures
        forall|i: int| 0 <= i < s.len() && s[i] < 0x80 ==> #[trigger] is_char_boundary(s, i),
        forall|i: int| 0 < i <= s.len() && s[i - 1] < 0x80 ==> #[trigger] is_char_boundary(s, i),
        is_char_boundary(s, 0), is_char_boundary(s, s.len() as int),
{
    is_char_boundary_start_end_of_seq(s);
    assert forall|i: int| 0 <= i < s.len() && s[i] < 0x80 implies #[trigger] is_char_boundary(s, i) by { lemma_ascii_boundary(s, i); }
    assert forall|i: int| 0 < i <= s.len() && s[i - 1] < 0x80 implies #[trigger] is_char_boundary(s, i) by { lemma_ascii_boundary(s, i - 1); }
}
proof fn lemma_multi_boundary(s: Seq<u8>, a: int)
    requires valid_utf8(s), 0 <= a < s.len(), is_char_boundary(s, a), 0xC2 <= s[a] < 0xF0,
    ensures
        s[a] < 0xE0 ==> a + 2 <= s.len() && is_char_boundary(s, a + 2),
        s[a] >= 0xE0 ==> a + 3 <= s.len() && is_char_boundary(s, a + 3),
{
    valid_utf8_split(s, a);
    let t = s.subrange(a, s.len() as int);
    reveal_with_fuel(valid_utf8, 2);
    let n: int = if s[a] < 0xE0 { 2 } else { 3 };
    assert(t[0] == s[a]);
    assert(n <= t.len() && is_char_boundary(t, n)) by {
        reveal_with_fuel(is_char_boundary, 4);
    }
    is_char_boundary_start_end_of_seq(s);
    if a + n < s.len() {
        assert(t[n] == s[a + n]);
        is_char_boundary_iff_not_is_continuation_byte(t, n);
        is_char_boundary_iff_not_is_continuation_byte(s, a + n);
    }
}
}
