//@include prelude.inc
use vstd::string::*;
verus! {
// unit: ids, anchors and cross references (parser/src/tasks/{section_id,anchors,diagnose_document}.rs, backend/src/utils.rs, core/src/file.rs)
// and the buffers their texts are rendered in (backend/src/html/htmlbuf.rs)
//@gsub BumpString<'arena> ==> String
//@gsub SourceString<'arena> ==> SourceString
//@gsub Anchor<'arena> ==> Anchor
//@gsub InlineNodes<'arena> ==> VxNodes
//@gsub MultiAttrList<'arena> ==> VxAttrs
//@gsub Line<'arena> ==> VxLine
//@gsub Block<'arena> ==> Block
//@gsub self.ctx.anchor_ids.borrow_mut() ==> self.ids
//@gsub self.ctx.anchor_ids.borrow() ==> self.ids
//@gsub self.document.meta ==> self.meta
//@gsub file::has_adoc_ext( ==> has_adoc_ext(
//@gsub file::has_ext( ==> has_ext(
//@gsub file::ext( ==> ext(
//@gsub file::remove_ext( ==> remove_ext(
//@gsub file::basename( ==> basename(
//@gsub Result<()> ==> std::result::Result<(), VxErr>
//@expect dr-html-backend/src/asciidoctor_html.rs :: fn outer_htmlbufs(&mut self) -> &mut Vec<String> { &mut self.outer_html }
//@expect backend-html5s/src/html5s.rs :: fn outer_htmlbufs(&mut self) -> &mut Vec<String> { &mut self.outer_html }
//@expect dr-html-backend/src/asciidoctor_html.rs :: fn alt_htmlbuf(&mut self) -> &mut String { &mut self.alt_html }
//@expect backend-html5s/src/html5s.rs :: fn alt_htmlbuf(&mut self) -> &mut String { &mut self.alt_html }
//@expect parser/src/tasks/section_id.rs :: Regex::new( r"\[\[.*?\]\]" )

// ---- trusted: text is a sequence of characters, each of one to four bytes ----
spec fn width(c: char) -> int { if (c as int) < 0x80 { 1 } else if (c as int) < 0x800 { 2 } else if (c as int) < 0x10000 { 3 } else { 4 } }
/// the byte offset of the character at `j`
spec fn boff(s: Seq<char>, j: int) -> int
    decreases j,
{ if j <= 0 { 0 } else { boff(s, j - 1) + width(s[j - 1]) } }
proof fn boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j,
    ensures boff(s, i) < boff(s, j),
    decreases j,
{ if i < j - 1 { boff_mono(s, i, j - 1); } }
proof fn boff_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, boff(s, i) == boff(s, j),
    ensures i == j,
{ if i < j { boff_mono(s, i, j); } else if j < i { boff_mono(s, j, i); } }
spec fn first(s: Seq<char>, c: char) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first(s.skip(1), c) } }
spec fn last(s: Seq<char>, c: char) -> int
    decreases s.len(),
{ if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last(s.drop_last(), c) } }
proof fn first_is(s: Seq<char>, c: char)
    ensures 0 <= first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c)] == c,
        forall|i: int| 0 <= i < first(s, c) ==> s[i] != c,
    decreases s.len(),
{
    if s.len() > 0 && s[0] != c {
        first_is(s.skip(1), c);
        assert forall|i: int| 0 <= i < first(s, c) implies s[i] != c by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
proof fn last_is(s: Seq<char>, c: char)
    ensures -1 <= last(s, c) < s.len(), last(s, c) >= 0 ==> s[last(s, c)] == c,
        forall|i: int| last(s, c) < i < s.len() ==> s[i] != c,
    decreases s.len(),
{
    if s.len() > 0 && s.last() != c {
        last_is(s.drop_last(), c);
        assert forall|i: int| last(s, c) < i < s.len() implies s[i] != c by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
}
#[verifier::external_body]
fn vx_find(s: &str, c: char) -> (r: Option<usize>)
    ensures match r { Some(i) => first(s@, c) < s@.len() && i == boff(s@, first(s@, c)) && i < usize::MAX, None => first(s@, c) == s@.len() }, { s.find(c) }
#[verifier::external_body]
fn vx_rfind(s: &str, c: char) -> (r: Option<usize>)
    ensures match r { Some(i) => last(s@, c) >= 0 && i == boff(s@, last(s@, c)) && i < usize::MAX, None => last(s@, c) < 0 }, { s.rfind(c) }
#[verifier::external_body]
fn vx_from(s: &str, k: usize) -> (r: &str)
    requires exists|j: int| 0 <= j <= s@.len() && k == #[trigger] boff(s@, j),
    ensures forall|j: int| 0 <= j <= s@.len() && k == #[trigger] boff(s@, j) ==> r@ == s@.skip(j), { &s[k..] }
#[verifier::external_body]
fn vx_to(s: &str, k: usize) -> (r: &str)
    requires exists|j: int| 0 <= j <= s@.len() && k == #[trigger] boff(s@, j),
    ensures forall|j: int| 0 <= j <= s@.len() && k == #[trigger] boff(s@, j) ==> r@ == s@.take(j), { &s[..k] }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
fn vx_starts(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c), { s.starts_with(c) }
#[verifier::external_body]
fn vx_has(s: &str, c: char) -> (r: bool) ensures r == (first(s@, c) < s@.len()), { s.contains(c) }
#[verifier::external_body]
fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0), { s.is_empty() }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@, { s.to_string() }
#[verifier::external_body]
fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty(), { String::new() }
#[verifier::external_body]
fn vx_push_str(d: &mut String, s: &str) ensures final(d)@ == old(d)@ + s@, { d.push_str(s) }
#[verifier::external_body]
fn vx_push(d: &mut String, c: char) ensures final(d)@ == old(d)@.push(c), { d.push(c) }
#[verifier::external_body]
fn vx_pop(d: &mut String) ensures final(d)@ == (if old(d)@.len() > 0 { old(d)@.drop_last() } else { old(d)@ }), { d.pop(); }
#[verifier::external_body]
fn vx_width(c: char) -> (r: usize) ensures r == width(c), { c.len_utf8() }
#[verifier::external_body]
fn vx_last_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@.last()) } else { None }), { s.chars().last() }
#[verifier::external_body]
fn vx_first_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }), { s.chars().next() }
/// `split(['/', '\\']).next_back()`: what follows the last of the two
#[verifier::external_body]
fn vx_last_part(s: &str) -> (r: &str) ensures r@ == sp_base(s@), { unimplemented!() }
/// `split(c).next()`, `splitn(2, c).next()`: what precedes the first `c`
#[verifier::external_body]
fn vx_before(s: &str, c: char) -> (r: &str) ensures r@ == s@.take(first(s@, c)), { unimplemented!() }
/// `split_once(c)` and the second of `splitn(2, c)`: what follows the first `c`
#[verifier::external_body]
fn vx_after(s: &str, c: char) -> (r: Option<&str>)
    ensures match r { Some(t) => first(s@, c) < s@.len() && t@ == s@.skip(first(s@, c) + 1), None => first(s@, c) == s@.len() }, { unimplemented!() }
#[verifier::external_body]
fn vx_strip(s: &str, c: char) -> (r: Option<&str>)
    ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => !(s@.len() > 0 && s@[0] == c) }, { s.strip_prefix(c) }
fn vx_nonempty(o: Option<&str>) -> (r: Option<&str>)
    ensures match r { Some(t) => o == Some(t) && t@.len() > 0, None => o is None || o->0@.len() == 0 },
{ match o { Some(t) => if vx_is_empty(t) { None } else { Some(t) }, None => None } }
/// the decimal numeral: different for different numbers, and starting with a digit
pub uninterp spec fn dec(n: int) -> Seq<char>;
#[verifier::external_body]
proof fn dec_inj(a: int, b: int) ensures dec(a) == dec(b) ==> a == b, dec(a).len() > 0, {}
#[verifier::external_body]
fn vx_dec(n: i32) -> (r: String) ensures r@ == dec(n as int), { n.to_string() }
/// a character iterator that can be peeked
#[verifier::external_body]
pub struct VxChars { m: u8 }
impl View for VxChars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxChars {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }, { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c), { unimplemented!() }
}
#[verifier::external_body]
fn vx_peekable(s: &str) -> (r: VxChars) ensures r@ == s@, { unimplemented!() }
pub uninterp spec fn alnum(c: char) -> bool;
pub uninterp spec fn lower(c: char) -> Seq<char>;
spec fn ascii_alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
spec fn ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
#[verifier::external_body]
fn vx_ascii_alnum(c: char) -> (r: bool) ensures r == ascii_alnum(c), { c.is_ascii_alphanumeric() }
#[verifier::external_body]
fn vx_ascii_lower(c: char) -> (r: char) ensures r == ascii_lower(c), { c.to_ascii_lowercase() }
#[verifier::external_body]
fn vx_alnum(c: char) -> (r: bool) ensures r == alnum(c), { c.is_alphanumeric() }
#[verifier::external_body]
fn vx_lower(c: char) -> (r: Vec<char>) ensures r@ == lower(c), { c.to_lowercase().collect() }
/// what the two regular expressions remove
pub uninterp spec fn sans_aux(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sans_entities(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_sans_aux(s: &str) -> (r: String) ensures r@ == sans_aux(s@), { unimplemented!() }
#[verifier::external_body]
fn vx_sans_entities(s: &str) -> (r: String) ensures r@ == sans_entities(s@), { unimplemented!() }

// ---- trusted: the parser's sets and maps are sets and maps ----
pub struct VxErr { pub m: u8 }
#[verifier::external_body]
pub struct VxIds { m: u8 }
impl View for VxIds { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl VxIds {
    /// a document holds fewer ids than an `i32` counts
    #[verifier::external_body]
    proof fn small(&self) ensures self@.finite(), self@.len() < 0x7fff_ff00, {}
    #[verifier::external_body]
    fn contains(&self, s: &String) -> (r: bool) ensures r == self@.contains(s@), { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, s: String) ensures final(self)@ == old(self)@.insert(s@), { unimplemented!() }
}
pub enum AV { S(Seq<char>), B(bool) }
impl View for AttrValue { type V = AV; open spec fn view(&self) -> AV { match self { AttrValue::String(s) => AV::S(s@), AttrValue::Bool(b) => AV::B(*b) } } }
#[verifier::external_body]
pub struct VxMeta { m: u8 }
impl View for VxMeta { type V = Map<Seq<char>, AV>; uninterp spec fn view(&self) -> Map<Seq<char>, AV>; }
spec fn value(m: Map<Seq<char>, AV>, k: Seq<char>) -> Option<AV> { if m.contains_key(k) { Some(m[k]) } else { None } }
spec fn text(m: Map<Seq<char>, AV>, k: Seq<char>) -> Option<Seq<char>> { match value(m, k) { Some(AV::S(s)) => Some(s), Some(AV::B(true)) => Some(Seq::empty()), _ => None } }
impl VxMeta {
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&AttrValue>)
        ensures match r { Some(v) => value(self@, k@) == Some(v@), None => value(self@, k@) is None }, { unimplemented!() }
    #[verifier::external_body]
    fn str(&self, k: &str) -> (r: Option<&str>)
        ensures match r { Some(v) => text(self@, k@) == Some(v@), None => text(self@, k@) is None }, { unimplemented!() }
    #[verifier::external_body]
    fn is_false(&self, k: &str) -> (r: bool) ensures r == (value(self@, k@) == Some(AV::B(false))), { unimplemented!() }
}
/// the line of a heading, inline nodes, the attributes of a block
#[verifier::external_body]
pub struct VxLine { m: u8 }
impl VxLine {
    pub uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body]
    fn reassemble_src(&self) -> (r: String) ensures r@ == self.src(), { unimplemented!() }
}
#[verifier::external_body]
pub struct VxNodes { m: u8 }
impl VxNodes {
    pub uninterp spec fn empty() -> VxNodes;
    #[verifier::external_body]
    fn new() -> (r: VxNodes) ensures r == VxNodes::empty(), { unimplemented!() }
    pub uninterp spec fn loc(&self) -> Option<SourceLocation>;
    #[verifier::external_body]
    fn first_loc(&self) -> (r: Option<SourceLocation>) ensures r == self.loc(), { unimplemented!() }
}
#[verifier::external_body]
fn vx_cloned(o: Option<&VxNodes>) -> (r: Option<VxNodes>) ensures match o { Some(n) => r == Some(*n), None => r is None }, { unimplemented!() }
fn vx_or<'a>(a: Option<&'a VxNodes>, b: &'a Option<VxNodes>) -> (r: Option<&'a VxNodes>)
    ensures match a { Some(n) => r == Some(n), None => match b { Some(n) => r == Some(n), None => r is None } },
{ match a { Some(n) => Some(n), None => match b { Some(n) => Some(n), None => None } } }
fn vx_loc_or(a: Option<SourceLocation>, b: Option<SourceLocation>, c: SourceLocation) -> (r: SourceLocation)
    ensures r == (match a { Some(l) => l, None => match b { Some(l) => l, None => c } }),
{ match a { Some(l) => l, None => match b { Some(l) => l, None => c } } }
pub struct SourceString { pub src: String, pub loc: SourceLocation }
impl SourceString { fn new(src: String, loc: SourceLocation) -> (r: SourceString) ensures r.src == src, r.loc == loc, { SourceString { src, loc } } }
#[verifier::external_body]
pub struct VxAttrs { m: u8 }
impl VxAttrs {
    pub uninterp spec fn id_v(&self) -> Option<SourceString>;
    pub uninterp spec fn named_v(&self, k: Seq<char>) -> Option<VxNodes>;
    #[verifier::external_body]
    fn id(&self) -> (r: Option<&SourceString>) ensures match r { Some(i) => self.id_v() == Some(*i), None => self.id_v() is None }, { unimplemented!() }
    #[verifier::external_body]
    fn named(&self, k: &str) -> (r: Option<&VxNodes>) ensures match r { Some(n) => self.named_v(k@) == Some(*n), None => self.named_v(k@) is None }, { unimplemented!() }
}
fn vx_id_loc(a: &VxAttrs) -> (r: Option<SourceLocation>) ensures r == (match a.id_v() { Some(i) => Some(i.loc), None => None }),
{ match a.id() { Some(i) => Some(i.loc), None => None } }
#[verifier::external_body]
pub struct VxAnchors { m: u8 }
impl View for VxAnchors { type V = Map<Seq<char>, Anchor>; uninterp spec fn view(&self) -> Map<Seq<char>, Anchor>; }
impl VxAnchors {
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&Anchor>)
        ensures match r { Some(a) => self@.contains_key(k@) && *a == self@[k@], None => !self@.contains_key(k@) }, { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, a: Anchor) ensures final(self)@ == old(self)@.insert(k@, a), { unimplemented!() }
}
#[verifier::external_body]
fn vx_same_loc(a: &Option<SourceLocation>, b: &Option<SourceLocation>) -> (r: bool) ensures r == (*a == *b), { unimplemented!() }
fn vx_elsewhere(o: Option<&Anchor>, l: &Option<SourceLocation>) -> (r: bool)
    ensures r == (match o { Some(a) => a.source_loc != *l, None => false }),
{ match o { Some(a) => !vx_same_loc(&a.source_loc, l), None => false } }
/// the references made, by target
#[verifier::external_body]
pub struct VxXrefs { m: u8 }
impl View for VxXrefs { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl VxXrefs {
    #[verifier::external_body]
    fn pairs(&self) -> (r: Vec<(String, SourceLocation)>)
        ensures forall|t: Seq<char>| self@.contains(t) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == t, { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, t: String, l: SourceLocation) ensures final(self)@ == old(self)@.insert(t@), { unimplemented!() }
}
#[verifier::external_body]
pub struct VxLexer { m: u8 }
impl VxLexer {
    /// the file a source is read from
    pub uninterp spec fn file(&self, i: u16) -> Seq<char>;
    pub uninterp spec fn source_of(&self, p: Seq<char>) -> Option<u16>;
    pub uninterp spec fn main_is(&self, p: Seq<char>) -> bool;
    #[verifier::external_body]
    fn source_idx_of_xref_target(&self, p: &str) -> (r: Option<u16>) ensures r == self.source_of(p@), { unimplemented!() }
    #[verifier::external_body]
    fn same_file(&self, a: u16, b: u16) -> (r: bool) ensures r == (self.file(a) == self.file(b)), { unimplemented!() }
    #[verifier::external_body]
    fn main_ends_with(&self, p: &str) -> (r: bool) ensures r == self.main_is(p@), { unimplemented!() }
}
/// what the functions here use of the parser
pub struct VxParser { pub ids: VxIds, pub anchors: VxAnchors, pub xrefs: VxXrefs, pub meta: VxMeta, pub lexer: VxLexer, pub strict: bool, pub in_cell: bool, pub cell_src: Option<SourceLocation> }
impl VxParser {
    /// in strict mode (and only then) a diagnostic is an error
    #[verifier::external_body]
    fn err_at(&self, l: SourceLocation) -> (r: std::result::Result<(), VxErr>) ensures (r is Err) == self.strict, { unimplemented!() }
}
#[verifier::external_body]
fn vx_clone_str(s: &String) -> (r: String) ensures r@ == s@, { s.clone() }
#[verifier::external_body]
pub struct VxFiles { m: u8 }
impl View for VxFiles { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
#[verifier::external_body]
fn vx_any_is(fs: &VxFiles, p: &str) -> (r: bool) ensures r == fs@.contains(p@), { unimplemented!() }
#[verifier::external_body]
fn vx_any_stem_is(fs: &VxFiles, p: &str) -> (r: bool) ensures r == exists|f: Seq<char>| #[trigger] fs@.contains(f) && sp_remove_ext(f) == p@, { unimplemented!() }
/// the attributes and the names of the files included, as far as references go
pub struct DocumentMeta { pub attrs: VxMeta, pub included_files: VxFiles }
impl DocumentMeta {
    fn str(&self, k: &str) -> (r: Option<&str>)
        ensures match r { Some(v) => text(self.attrs@, k@) == Some(v@), None => text(self.attrs@, k@) is None },
    { self.attrs.str(k) }
}

#[verifier::external_body]
fn vx_hash(s: &str) -> (r: String) ensures r@ == seq!['#'] + s@, { format!("#{}", s) }
fn vx_some_is(o: Option<&str>, p: &str) -> (r: bool) ensures r == (match o { Some(s) => s@ == p@, None => false }),
{ match o { Some(s) => vx_str_eq(s, p), None => false } }

//@item core/src/attrs.rs :: - :: enum AttrValue
//@end
//@item ast/src/source_location.rs :: - :: struct SourceLocation
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/macro.rs :: - :: enum XrefKind
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/block.rs :: - :: enum BlockContext
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/node.rs :: - :: struct Anchor
//@ sub Anchor<'arena> ==> Anchor
//@end
pub struct VxChunkMeta { pub attrs: VxAttrs, pub dot_line_title: Option<VxNodes>, pub start_loc: SourceLocation }
/// a block, as far as its id goes: discrete headings bear their own
pub enum EmptyMetadata { DiscreteHeading { level: u8, content: VxNodes, id: Option<String> }, Other }
pub enum BlockContent { Empty(EmptyMetadata), Other }
pub struct Block { pub meta: VxChunkMeta, pub content: BlockContent, pub context: BlockContext }

// ---- file names ----
spec fn max(a: int, b: int) -> int { if a > b { a } else { b } }
spec fn sp_base(s: Seq<char>) -> Seq<char> { s.skip(max(last(s, '/'), last(s, '\\')) + 1) }
spec fn sp_ext(s: Seq<char>) -> Option<Seq<char>> { let b = sp_base(s); if last(b, '.') < 0 { None } else { Some(b.skip(last(b, '.') + 1)) } }
spec fn sp_remove_ext(s: Seq<char>) -> Seq<char> { if sp_ext(s) is None { s } else { s.take(last(s, '.')) } }
spec fn sp_adoc(s: Seq<char>) -> bool { let e = sp_ext(s); e == Some("adoc"@) || e == Some("asciidoc"@) || e == Some("asc"@) || e == Some("ad"@) }
spec fn sp_stem(s: Seq<char>) -> Seq<char> { let b = sp_base(s); b.take(first(b, '.')) }
/// the last dot of a name with an extension is that of the extension
proof fn ext_dot(s: Seq<char>)
    ensures sp_ext(s) is Some ==> last(s, '.') >= 0 && sp_ext(s) == Some(s.skip(last(s, '.') + 1)),
        sp_base(s).len() <= s.len(), 
{
    last_is(s, '/'); last_is(s, '\\'); last_is(s, '.');
    let b = sp_base(s);
    let k = max(last(s, '/'), last(s, '\\')) + 1;
    last_is(b, '.');
    if last(b, '.') >= 0 {
        assert(b[last(b, '.')] == s[k + last(b, '.')]);
        assert(last(s, '.') >= k + last(b, '.'));
        if last(s, '.') > k + last(b, '.') { assert(b[last(s, '.') - k] == s[last(s, '.')]); }
        assert(b.skip(last(b, '.') + 1) =~= s.skip(last(s, '.') + 1));
    }
}
//@extract core/src/file.rs :: - :: fn basename
//@ sub input.split(&['/', '\\']).next_back().unwrap_or(input) ==> vx_last_part(input)
//@ spec
    ensures r@ == sp_base(input@),
//@end
proof fn after_char(s: Seq<char>, j: int, k: int)
    requires 0 <= j < s.len(), k == boff(s, j), (s[j] as int) < 0x80,
    ensures k + 1 == boff(s, j + 1),
        forall|i: int| 0 <= i && k + 1 == #[trigger] boff(s, i) ==> i == j + 1,
{
    assert(boff(s, j + 1) == boff(s, j) + width(s[j]));
    assert forall|i: int| 0 <= i && k + 1 == #[trigger] boff(s, i) implies i == j + 1 by { boff_inj(s, i, j + 1); }
}
//@extract core/src/file.rs :: - :: fn ext
//@ sub basename.rfind('.') ==> vx_rfind(basename, '.')
//@ sub &basename[idx + 1..] ==> vx_from(basename, idx + 1)
//@ spec
    ensures match r { Some(e) => sp_ext(input@) == Some(e@), None => sp_ext(input@) is None },
//@ before Some(vx_from
proof { last_is(basename@, '.'); after_char(basename@, last(basename@, '.'), idx as int); }
//@end
//@extract core/src/file.rs :: - :: fn has_ext
//@ sub basename(input).rfind('.') ==> vx_rfind(basename(input), '.')
//@ spec
    ensures r == (sp_ext(input@) is Some),
//@end
//@extract core/src/file.rs :: - :: fn has_adoc_ext
//@ spec
    ensures r == sp_adoc(path@),
//@end
//@extract core/src/file.rs :: - :: fn remove_ext
//@ sub input.rfind('.') ==> vx_rfind(input, '.')
//@ sub &input[..idx] ==> vx_to(input, idx)
//@ spec
    ensures r@ == sp_remove_ext(input@),
//@ body
proof { ext_dot(input@); last_is(input@, '.'); }
//@end
//@extract core/src/file.rs :: - :: fn stem
//@ sub basename(input).split('.').next().unwrap_or(input) ==> vx_before(basename(input), '.')
//@ spec
    ensures r@ == sp_stem(input@),
//@end

// ---- where a reference leads ----
spec fn id_of(t: Seq<char>) -> Seq<char> { if first(t, '#') < t.len() { t.skip(first(t, '#') + 1) } else { t } }
spec fn path_of(t: Seq<char>) -> Seq<char> { t.take(first(t, '#')) }
spec fn hashed(t: Seq<char>) -> bool { first(t, '#') < t.len() }
spec fn interdoc(t: Seq<char>, k: XrefKind) -> bool {
    !(t.len() > 0 && t[0] == '#') && match k {
        XrefKind::Shorthand => hashed(t),
        XrefKind::Macro => hashed(t) || { let b = sp_base(t); first(b, '.') < b.len() },
    }
}
spec fn included(p: Seq<char>, m: DocumentMeta) -> bool {
    if sp_adoc(p) { text(m.attrs@, "asciidork-docfilename"@) == Some(p) || m.included_files@.contains(p) }
    else { sp_ext(p) is None && exists|f: Seq<char>| #[trigger] m.included_files@.contains(f) && sp_remove_ext(f) == p }
}
spec fn suffix(m: DocumentMeta) -> Seq<char> {
    match text(m.attrs@, "relfilesuffix"@) { Some(s) => s, None => match text(m.attrs@, "outfilesuffix"@) { Some(s) => s, None => Seq::empty() } }
}
spec fn prefix_of(m: DocumentMeta) -> Seq<char> { match text(m.attrs@, "relfileprefix"@) { Some(s) => s, None => Seq::empty() } }
spec fn other_file(t: Seq<char>, m: DocumentMeta, k: XrefKind) -> Seq<char> {
    let p = path_of(t);
    let b = sp_base(p);
    prefix_of(m) + (if sp_adoc(p) { sp_remove_ext(p) } else { p })
        + (if k == XrefKind::Shorthand || sp_adoc(p) || first(b, '.') == b.len() { suffix(m) } else { Seq::empty() })
}
spec fn sp_href(t: Seq<char>, m: DocumentMeta, k: XrefKind, with_id: bool) -> Seq<char> {
    let id = if hashed(t) { id_of(t) } else { Seq::empty() };
    if !interdoc(t, k) { seq!['#'] + id_of(t) }
    else if included(path_of(t), m) { seq!['#'] + id }
    else { other_file(t, m, k) + (if with_id && id.len() > 0 { seq!['#'] + id } else { Seq::empty() }) }
}
/// a link within the document leads to the id whose anchor's text it prints
proof fn href_is_the_id(t: Seq<char>, m: DocumentMeta, k: XrefKind, with_id: bool)
    requires !interdoc(t, k) || (hashed(t) && included(path_of(t), m)),
    ensures sp_href(t, m, k, with_id) == seq!['#'] + id_of(t),
{
}
//@extract backend/src/utils.rs :: mod xref :: fn remove_leading_hash
//@ sub input.strip_prefix('#') ==> vx_strip(input, '#')
//@ spec
    ensures r@ == (if input@.len() > 0 && input@[0] == '#' { input@.skip(1) } else { input@ }),
//@end
//@extract backend/src/utils.rs :: mod xref :: fn get_id
//@ sub target.split_once('#').map(|x| x.1) ==> vx_after(target, '#')
//@ spec
    ensures r@ == id_of(target@),
//@end
//@extract backend/src/utils.rs :: mod xref :: fn is_interdoc
//@ sub target.starts_with('#') ==> vx_starts(target, '#')
//@ sub target.contains('#') ==> vx_has(target, '#')
//@ sub basename(target).contains('.') ==> vx_has(basename(target), '.')
//@ spec
    ensures r == interdoc(target@, xref_kind),
//@ body
proof { first_is(target@, '#'); first_is(sp_base(target@), '.'); }
//@end
//@extract backend/src/utils.rs :: mod xref :: fn xref_path_was_included
//@ sub Some(path) == doc_meta.str("asciidork-docfilename") ==> vx_some_is(doc_meta.str("asciidork-docfilename"), path)
//@ sub doc_meta.included_files.borrow().iter().any(|included_file| included_file == path) ==> vx_any_is(&doc_meta.included_files, path)
//@ sub doc_meta.included_files.borrow().iter().any(|included_file| remove_ext(included_file) == path) ==> vx_any_stem_is(&doc_meta.included_files, path)
//@ spec
    ensures r == included(path@, *doc_meta),
//@end
//@extract backend/src/utils.rs :: mod xref :: fn push_interdoc_suffix
//@ sub doc_meta.str("relfilesuffix").unwrap_or_else(|| doc_meta.str("outfilesuffix").unwrap_or("")) ==> match doc_meta.str("relfilesuffix") { Some(vx_s) => vx_s, None => doc_meta.str("outfilesuffix").unwrap_or("") }
//@ sub href.push_str(suffix) ==> vx_push_str(href, suffix)
//@ spec
    ensures final(href)@ == old(href)@ + suffix(*doc_meta),
//@ body
proof { reveal_strlit(""); }
//@end
//@extract backend/src/utils.rs :: mod xref :: fn push_interdoc_prefix
//@ sub href.push_str(prefix) ==> vx_push_str(href, prefix)
//@ spec
    ensures final(href)@ =~= old(href)@ + prefix_of(*doc_meta),
//@end
//@extract backend/src/utils.rs :: mod xref :: fn interdoc_xref_href
//@ sub let mut parts = target.splitn(2, '#'); ==> 
//@ sub parts.next().unwrap() ==> vx_before(target, '#')
//@ sub parts.next().filter(|id| !id.is_empty()) ==> vx_nonempty(vx_after(target, '#'))
//@ sub String::with_capacity(path.len() + 8 + id.map_or(0, str::len)) ==> vx_new_string()
//@ sub href.push_str($x) ==> vx_push_str(&mut href, $x)
//@ sub href.push('#') ==> vx_push(&mut href, '#')
//@ sub basename(path).contains('.') ==> vx_has(basename(path), '.')
//@ spec
    requires interdoc(target@, xref_kind),
    ensures r@ =~= sp_href(target@, *doc_meta, xref_kind, with_id),
//@ body
proof { first_is(target@, '#'); first_is(sp_base(path_of(target@)), '.'); }
//@end
//@extract backend/src/utils.rs :: mod xref :: fn href
//@ sub format!("#{}", remove_leading_hash(target)) ==> vx_hash(remove_leading_hash(target))
//@ spec
    ensures r@ =~= sp_href(target@, *doc_meta, xref_kind, with_id),
//@ body
proof { first_is(target@, '#'); if target@.len() > 0 && target@[0] == '#' { assert(first(target@, '#') == 0); } }
//@end

// ---- generated ids ----
spec fn numbered(id: Seq<char>, sep: Option<char>, n: int) -> Seq<char> { (match sep { Some(c) => id.push(c), None => id }) + dec(n) }
proof fn sequenced_inj(id: Seq<char>, sep: Option<char>, a: int, b: int)
    ensures numbered(id, sep, a) == numbered(id, sep, b) ==> a == b, numbered(id, sep, a).len() > 0,
{
    dec_inj(a, b);
    let h = match sep { Some(c) => id.push(c), None => id };
    if numbered(id, sep, a) == numbered(id, sep, b) {
        assert(dec(a) =~= (h + dec(a)).skip(h.len() as int));
        assert(dec(b) =~= (h + dec(b)).skip(h.len() as int));
    }
}
spec fn seqs(id: Seq<char>, sep: Option<char>, n: int) -> Set<Seq<char>>
    decreases n,
{ if n <= 2 { Set::empty() } else { seqs(id, sep, n - 1).insert(numbered(id, sep, n - 1)) } }
proof fn seqs_len(id: Seq<char>, sep: Option<char>, n: int)
    requires n >= 2,
    ensures seqs(id, sep, n).finite(), seqs(id, sep, n).len() == n - 2,
        forall|s: Seq<char>| seqs(id, sep, n).contains(s) ==> exists|k: int| 2 <= k < n && s == numbered(id, sep, k),
    decreases n,
{
    if n > 2 {
        seqs_len(id, sep, n - 1);
        let t = numbered(id, sep, n - 1);
        if seqs(id, sep, n - 1).contains(t) {
            let k = choose|k: int| 2 <= k < n - 1 && t == numbered(id, sep, k);
            sequenced_inj(id, sep, n - 1, k);
        }
        assert forall|s: Seq<char>| seqs(id, sep, n).contains(s) implies exists|k: int| 2 <= k < n && s == numbered(id, sep, k) by {
            if s != t { let k = choose|k: int| 2 <= k < n - 1 && s == numbered(id, sep, k); assert(2 <= k < n && s == numbered(id, sep, k)); }
            else { assert(2 <= n - 1 < n && s == numbered(id, sep, n - 1)); }
        }
    }
}
/// the first of the numbered ids that is free
spec fn free(taken: Set<Seq<char>>, id: Seq<char>, sep: Option<char>, r: Seq<char>) -> bool {
    exists|n: int| 2 <= n && r == #[trigger] numbered(id, sep, n) && !taken.contains(r) && forall|k: int| 2 <= k < n ==> taken.contains(#[trigger] numbered(id, sep, k))
}
pub struct SS { pub id: Seq<char>, pub last: char, pub tag: bool }
pub enum Scan { Done(SS), Aux, Entities }
spec fn separates(c: char) -> bool { c == ' ' || c == '-' || c == '.' || c == ',' || c == '\t' }
spec fn put(s: SS, cs: Seq<char>) -> SS { SS { id: s.id + cs, last: if cs.len() > 0 { cs.last() } else { s.last }, tag: s.tag } }
/// what a heading's text contributes: letters and digits, lower-cased, and the separator, once, for what is between words
spec fn slug(t: Seq<char>, sep: Option<char>, no_entities: bool, no_aux: bool, s: SS) -> Scan
    decreases t.len(),
{
    if t.len() == 0 { Scan::Done(s) }
    else {
        let c = t[0];
        let u = t.skip(1);
        if c == '<' && u.len() > 0 && u[0] == '<' { slug(u.skip(1), sep, no_entities, no_aux, s) }
        else if c == '<' { slug(u, sep, no_entities, no_aux, SS { tag: true, ..s }) }
        else if c == '>' { slug(u, sep, no_entities, no_aux, SS { tag: false, ..s }) }
        else if separates(c) { slug(u, sep, no_entities, no_aux, match sep { Some(q) => if q != s.last { put(s, seq![q]) } else { s }, None => s }) }
        else if c == '[' && u.len() > 0 && u[0] == '[' && !no_aux { Scan::Aux }
        else if c == '&' && !no_entities { Scan::Entities }
        else if s.tag { slug(u, sep, no_entities, no_aux, s) }
        else if ascii_alnum(c) { slug(u, sep, no_entities, no_aux, put(s, seq![ascii_lower(c)])) }
        else if alnum(c) { slug(u, sep, no_entities, no_aux, put(s, lower(c))) }
        else { slug(u, sep, no_entities, no_aux, s) }
    }
}
spec fn start(prefix: Seq<char>) -> SS { SS { id: prefix, last: if prefix.len() > 0 { prefix.last() } else { '\0' }, tag: false } }
/// the text of the id of a heading, before it is made unique
spec fn base_id(t: Seq<char>, prefix: Seq<char>, sep: Option<char>, no_entities: bool, no_aux: bool) -> Seq<char>
    decreases (if no_entities { 0int } else { 1 }) + (if no_aux { 0int } else { 1 }),
{
    match slug(t, sep, no_entities, no_aux, start(prefix)) {
        Scan::Aux => if no_aux { Seq::empty() } else { base_id(sans_aux(t), prefix, sep, no_entities, true) },
        Scan::Entities => if no_entities { Seq::empty() } else { base_id(sans_entities(t), prefix, sep, true, no_aux) },
        Scan::Done(s) => {
            let a = if Some(s.last) == sep && s.id.len() > 0 { s.id.drop_last() } else { s.id };
            if prefix.len() == 0 && sep is Some && a.len() > 0 && a[0] == sep->0 { a.skip(1) } else { a }
        },
    }
}
spec fn generated(taken: Set<Seq<char>>, base: Seq<char>, sep: Option<char>, r: Seq<char>) -> bool {
    if base.len() == 0 || taken.contains(base) { free(taken, base, sep, r) } else { r == base }
}
proof fn slug_aux(t: Seq<char>, sep: Option<char>, ne: bool, na: bool, s: SS)
    ensures slug(t, sep, ne, na, s) is Aux ==> !na, slug(t, sep, ne, na, s) is Entities ==> !ne,
    decreases t.len(),
{
    if t.len() > 0 {
        let c = t[0];
        let u = t.skip(1);
        if c == '<' && u.len() > 0 && u[0] == '<' { slug_aux(u.skip(1), sep, ne, na, s); }
        else if c == '<' { slug_aux(u, sep, ne, na, SS { tag: true, ..s }); }
        else if c == '>' { slug_aux(u, sep, ne, na, SS { tag: false, ..s }); }
        else if separates(c) { slug_aux(u, sep, ne, na, match sep { Some(q) => if q != s.last { put(s, seq![q]) } else { s }, None => s }); }
        else if c == '[' && u.len() > 0 && u[0] == '[' && !na { }
        else if c == '&' && !ne { }
        else if s.tag { slug_aux(u, sep, ne, na, s); }
        else if ascii_alnum(c) { slug_aux(u, sep, ne, na, put(s, seq![ascii_lower(c)])); }
        else if alnum(c) { slug_aux(u, sep, ne, na, put(s, lower(c))); }
        else { slug_aux(u, sep, ne, na, s); }
    }
}
spec fn idprefix(m: Map<Seq<char>, AV>) -> Seq<char> { match value(m, "idprefix"@) { Some(AV::B(true)) => Seq::empty(), Some(AV::S(s)) => s, _ => seq!['_'] } }
spec fn idseparator(m: Map<Seq<char>, AV>) -> Option<char> { match value(m, "idseparator"@) { Some(AV::B(true)) => None, Some(AV::S(s)) => if s.len() > 0 { Some(s[0]) } else { None }, _ => Some('_') } }
/// a generated id is not empty and nothing else's
proof fn generated_is_new(taken: Set<Seq<char>>, base: Seq<char>, sep: Option<char>, r: Seq<char>)
    requires generated(taken, base, sep, r),
    ensures !taken.contains(r), r.len() > 0,
{
    if base.len() == 0 || taken.contains(base) {
        let n = choose|n: int| 2 <= n && r == #[trigger] numbered(base, sep, n) && !taken.contains(r) && forall|k: int| 2 <= k < n ==> taken.contains(#[trigger] numbered(base, sep, k));
        sequenced_inj(base, sep, n, n);
    }
}

// ---- anchors and references ----
fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == (if a < b { a } else { b }), { if a < b { a } else { b } }
/// where the document holds what is at a location: a cell's own text is in the source of the cell, before its end
spec fn placed(cell: Option<SourceLocation>, l: SourceLocation) -> SourceLocation {
    match cell {
        None => l,
        Some(c) => if l.include_depth == 0 { SourceLocation { start: if l.start < c.end { l.start } else { c.end }, end: if l.end < c.end { l.end } else { c.end }, include_depth: c.include_depth } }
            else { SourceLocation { start: c.start, end: c.start, include_depth: c.include_depth } },
    }
}
spec fn placed_anchor(cell: Option<SourceLocation>, l: SourceLocation, a: Anchor) -> Anchor {
    Anchor {
        source_idx: placed(cell, l).include_depth,
        source_loc: if l.include_depth == 0 { match a.source_loc { Some(s) => Some(placed(cell, s)), None => None } } else { a.source_loc },
        ..a
    }
}
/// an id is remembered; its first anchor is the one referred to, and another is diagnosed
spec fn registered(a: VxParser, b: VxParser, id: Seq<char>, l: SourceLocation, given: Anchor, err: bool) -> bool {
    let anchor = placed_anchor(a.cell_src, l, given);
    b.ids@ == a.ids@.insert(id) && b.xrefs == a.xrefs && b.strict == a.strict && b.meta == a.meta && b.cell_src == a.cell_src
        && if a.anchors@.contains_key(id) && a.anchors@[id].source_loc != anchor.source_loc { b.anchors@ == a.anchors@ && err == a.strict }
           else { b.anchors@ == a.anchors@.insert(id, anchor) && !err }
}
/// the id a block is rendered with and what a reference to it quotes
spec fn block_target(b: Block) -> Option<(Seq<char>, SourceLocation, Anchor)> {
    let c = b.context;
    let id = match b.content {
        BlockContent::Empty(EmptyMetadata::DiscreteHeading { id: Some(id), content, .. }) =>
            Some((id@, match b.meta.attrs.id_v() { Some(i) => i.loc, None => match content.loc() { Some(l) => l, None => b.meta.start_loc } }, content)),
        BlockContent::Empty(EmptyMetadata::DiscreteHeading { id: None, .. }) => None,
        _ => match b.meta.attrs.id_v() {
            Some(i) => Some((i.src@, i.loc, match b.meta.attrs.named_v("title"@) { Some(t) => t, None => match b.meta.dot_line_title { Some(t) => t, None => VxNodes::empty() } })),
            None => None,
        },
    };
    // these are rendered without an id, or have it registered with their heading
    if c == BlockContext::Comment || c == BlockContext::DocumentAttributeDecl || c == BlockContext::PageBreak || c == BlockContext::Passthrough
        || c == BlockContext::Section || c == BlockContext::ThematicBreak { None }
    else {
        match id {
            Some((i, l, t)) => Some((i, l, Anchor { reftext: b.meta.attrs.named_v("reftext"@), title: t, source_loc: Some(l), source_idx: l.include_depth, is_biblio: false })),
            None => None,
        }
    }
}
/// a reference is recorded without the hash its target may begin with
spec fn local(t: Seq<char>) -> Seq<char> { if t.len() > 1 && t[0] == '#' { t.skip(1) } else { t } }
/// what is looked for: the id its link leads to, in the source file the target names if it names one
spec fn sought(l: VxLexer, t: Seq<char>, r: Option<(Option<u16>, Seq<char>)>) -> bool {
    let p = path_of(t);
    if t == seq!['#'] { r == Some((None::<u16>, "__self__"@)) }
    else if hashed(t) {
        if sp_adoc(p) || sp_ext(p) is None { match l.source_of(p) { Some(i) => r == Some((Some(i), id_of(t))), None => r is None } }
        else { r == Some((None::<u16>, id_of(t))) }
    }
    else if sp_adoc(t) && l.main_is(t) { r == Some((None::<u16>, "__self__"@)) }
    else { r == Some((None::<u16>, id_of(t))) }
}
proof fn sought_one(l: VxLexer, t: Seq<char>)
    ensures forall|a: Option<(Option<u16>, Seq<char>)>, b: Option<(Option<u16>, Seq<char>)>| #[trigger] sought(l, t, a) && #[trigger] sought(l, t, b) ==> a == b,
{
}
spec fn valid(p: VxParser, t: Seq<char>) -> bool {
    exists|r: Option<(Option<u16>, Seq<char>)>| #[trigger] sought(p.lexer, t, r) && match r {
        None => false,
        Some((i, id)) => id == "__self__"@ || (p.anchors@.contains_key(id) && (match i { None => true, Some(i) => p.lexer.file(i) == p.lexer.file(p.anchors@[id].source_idx) })),
    }
}
#[verifier::external_body]
fn vx_longer(s: &String, n: usize) -> (r: bool) requires n == 1, ensures s@.len() > 0 && (s@[0] as int) < 128 ==> r == (s@.len() > 1), { s.len() > n }
#[verifier::external_body]
fn vx_drop_first(s: &mut String) requires old(s)@.len() > 0, (old(s)@[0] as int) < 128, ensures final(s)@ == old(s)@.skip(1), { s.drain(..1); }
#[verifier::external_body]
fn vx_take(s: &mut String) -> (r: String) ensures r == *old(s), final(s)@ == Seq::<char>::empty(), { std::mem::take(s) }
#[verifier::external_body]
fn vx_replace(s: &mut String, t: String) -> (r: String) ensures r == *old(s), *final(s) == t, { std::mem::replace(s, t) }
fn vx_pop_string(v: &mut Vec<String>) -> (r: String)
    requires old(v)@.len() > 0,
    ensures r == old(v)@.last(), final(v)@ == old(v)@.drop_last(),
{ v.pop().unwrap() }

impl VxParser {
//@extract parser/src/tasks/section_id.rs :: impl Parser :: fn sequence_sectid
//@ noexit
//@ sub BumpString::with_capacity_in(id.len() + 2, self.bump) ==> vx_new_string()
//@ sub let mut i = 2; ==> let mut i: i32 = 2;
//@ sub sequenced.push_str(id) ==> vx_push_str(&mut sequenced, id)
//@ sub sequenced.push(c) ==> vx_push(&mut sequenced, c)
//@ sub sequenced.push_str(&i.to_string()) ==> vx_push_str(&mut sequenced, vx_dec(i).as_str())
//@ spec
    ensures free(self.ids@, id@, separator, r@), r@.len() > 0,
//@ body
proof { self.ids.small(); }
//@ loop 0
    invariant i >= 2, self.ids@.finite(), self.ids@.len() < 0x7fff_ff00, i - 2 <= self.ids@.len(),
        forall|k: int| 2 <= k < i ==> self.ids@.contains(#[trigger] numbered(id@, separator, k)),
    decreases self.ids@.len() + 2 - i,
//@ before if !self.ids
proof { assert(sequenced@ =~= numbered(id@, separator, i as int)); sequenced_inj(id@, separator, i as int, i as int); }
//@ before i += 1
proof {
    let q = seqs(id@, separator, i + 1);
    seqs_len(id@, separator, i + 1);
    assert forall|s: Seq<char>| q.contains(s) implies self.ids@.contains(s) by { }
    vstd::set_lib::lemma_len_subset(q, self.ids@);
}
//@end
//@extract parser/src/tasks/section_id.rs :: impl Parser :: fn _autogen_sect_id
//@ sub BumpString::with_capacity_in(line.len() + prefix.len() + 3, self.bump) ==> vx_new_string()
//@ sub prefix.chars().last().unwrap_or('\0') ==> vx_last_char(prefix).unwrap_or('\0')
//@ sub id.push_str(prefix) ==> vx_push_str(&mut id, prefix)
//@ sub line.chars().peekable() ==> vx_peekable(line)
//@ sub while let Some(c) = chars.next() { ==> loop { let ghost vx_t = chars@; let ghost vx_s = SS { id: id@, last: last_c, tag: in_html_tag }; let Some(c) = chars.next() else { break; };
//@ sub chars.peek() == Some(&'<') ==> chars.at('<')
//@ sub chars.peek() == Some(&'[') ==> chars.at('[')
//@ sub separator.map(|c| c != last_c).unwrap_or(false) ==> separator.is_some() && separator.unwrap() != last_c
//@ sub id.push($x) ==> vx_push(&mut id, $x)
//@ sub AUX_ID_RE.replace_all(line, "$1") ==> vx_sans_aux(line)
//@ sub ENTITY_RE.replace_all(line, "") ==> vx_sans_entities(line)
//@ sub mut c if c.is_ascii_alphanumeric() => { c.make_ascii_lowercase(); ==> c if vx_ascii_alnum(c) => { let c = vx_ascii_lower(c);
//@ sub c if c.is_alphanumeric() ==> c if vx_alnum(c)
//@ sub c.to_lowercase().for_each(|c| { $x }) ==> let vx_l = vx_lower(c); let ghost c0 = c; let mut vx_n: usize = 0; while vx_n < vx_l.len() { let c = vx_l[vx_n]; vx_n += 1; $x } proof { assert(lower(c0).take(vx_n as int) =~= lower(c0)); }
//@ sub id.pop() ==> vx_pop(&mut id)
//@ sub id.starts_with(c) ==> vx_starts(id.as_str(), c)
//@ sub self.string(&id[c.len_utf8()..]) ==> vx_owned(vx_from(id.as_str(), vx_width(c)))
//@ sub id.is_empty() ==> vx_is_empty(id.as_str())
//@ spec
    ensures generated(self.ids@, base_id(line@, prefix@, separator, removed_entities, removed_aux_ids), separator, r@),
    decreases (if removed_entities { 0int } else { 1 }) + (if removed_aux_ids { 0int } else { 1 }),
//@ body
proof { slug_aux(line@, separator, removed_entities, removed_aux_ids, start(prefix@)); }
//@ before if Some(last_c) == separator
proof { assert(boff(id@, 1) == boff(id@, 0) + width(id@[0])); }
//@ before id = vx_owned
proof { assert(boff(id@, 1) == boff(id@, 0) + width(id@[0])); assert(boff(id@, 1) == width(c)); }
//@ after last_c = separator.unwrap();
proof { assert(id@ =~= vx_s.id + seq![separator->0]); }
//@ after let c = vx_ascii_lower(c); last_c = c; vx_push(&mut id, c);
proof { assert(id@ =~= vx_s.id + seq![c]); }
//@ after while vx_n < vx_l.len() { let c = vx_l[vx_n]; vx_n += 1; last_c = c; vx_push(&mut id, c);
proof { assert(lower(c0).take(vx_n as int) =~= lower(c0).take(vx_n - 1).push(c)); assert(id@ =~= vx_s.id + lower(c0).take(vx_n as int)); }
//@ before let vx_l = vx_lower
proof { assert(id@ =~= vx_s.id + Seq::<char>::empty()); assert(lower(c).take(0) =~= Seq::<char>::empty()); }
//@ loop 0
    invariant
        slug(line@, separator, removed_entities, removed_aux_ids, start(prefix@)) == slug(chars@, separator, removed_entities, removed_aux_ids, SS { id: id@, last: last_c, tag: in_html_tag }),
        slug(line@, separator, removed_entities, removed_aux_ids, start(prefix@)) is Aux ==> !removed_aux_ids,
        slug(line@, separator, removed_entities, removed_aux_ids, start(prefix@)) is Entities ==> !removed_entities,
    ensures slug(line@, separator, removed_entities, removed_aux_ids, start(prefix@)) == Scan::Done(SS { id: id@, last: last_c, tag: in_html_tag }),
    decreases chars@.len(),
//@ loop 1
    invariant vx_l@ == lower(c0), vx_n <= vx_l@.len(), 
        (SS { id: id@, last: last_c, tag: in_html_tag }) == put(vx_s, lower(c0).take(vx_n as int)),
    decreases vx_l@.len() - vx_n,
//@end
//@extract parser/src/tasks/section_id.rs :: impl Parser :: fn autogen_sect_id
//@ spec
    ensures generated(self.ids@, base_id(line@, prefix@, separator, false, false), separator, r@),
//@end
//@extract parser/src/tasks/section_id.rs :: impl Parser :: fn section_id
//@ sub self.string(&id.src) ==> vx_clone_str(&id.src)
//@ sub custom_id.clone() ==> vx_clone_str(&custom_id)
//@ sub s.chars().next() ==> vx_first_char(s.as_str())
//@ sub Some(AttrValue::String(s)) => s, ==> Some(AttrValue::String(s)) => s.as_str(),
//@ sub auto_gen_id.clone() ==> vx_clone_str(&auto_gen_id)
//@ spec
    ensures
        final(self).anchors == old(self).anchors && final(self).xrefs == old(self).xrefs && final(self).strict == old(self).strict,
        match r {
            // its own id is kept
            Some(id) => final(self).ids@ == old(self).ids@.insert(id@) && match attrs.id_v() {
                Some(own) => id@ == own.src@,
                None => value(old(self).meta@, "sectids"@) != Some(AV::B(false)) && generated(old(self).ids@, base_id(line.src(), idprefix(old(self).meta@), idseparator(old(self).meta@), false, false), idseparator(old(self).meta@), id@)
            },
            None => attrs.id_v() is None && value(old(self).meta@, "sectids"@) == Some(AV::B(false)) && final(self).ids@ == old(self).ids@
        },
//@ body
proof { reveal_strlit(""); reveal_strlit("_"); assert("_"@ =~= seq!['_']); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@extract parser/src/parser.rs :: impl Parser :: fn doc_loc
//@ sub loc.start.min(cell.end) ==> vx_min(loc.start, cell.end)
//@ sub loc.end.min(cell.end) ==> vx_min(loc.end, cell.end)
//@ spec
    ensures r == placed(self.cell_src, loc),
//@end
//@extract parser/src/tasks/anchors.rs :: impl Parser :: fn insert_anchor
//@ sub mut anchor: ==> vx_anchor:
//@ sub anchor.source_loc = anchor.source_loc.map(|loc| self.doc_loc(loc)); ==> anchor.source_loc = match anchor.source_loc { Some(loc) => Some(self.doc_loc(loc)), None => None };
//@ sub let mut anchors = self.document.anchors.borrow_mut(); ==> let anchors = &mut self.anchors;
//@ sub anchors.get(&id.src).filter(|a| a.source_loc != anchor.source_loc).is_some() ==> vx_elsewhere(anchors.get(&id.src), &anchor.source_loc)
//@ sub self.err_at($m, id.loc,) ==> self.err_at(id.loc)
//@ sub id.src.clone() ==> vx_clone_str(&id.src)
//@ spec
    ensures registered(*old(self), *final(self), id.src@, id.loc, vx_anchor, r is Err),
//@ body
let mut anchor = vx_anchor;
//@end
//@extract parser/src/tasks/anchors.rs :: impl Parser :: fn anchor_from
//@ sub InlineNodes::new(self.bump) ==> VxNodes::new()
//@ spec
    ensures r.reftext == reftext, r.title == VxNodes::empty(), r.source_loc == Some(source_loc), r.source_idx == source_loc.include_depth, r.is_biblio == is_biblio,
//@end
//@extract parser/src/tasks/anchors.rs :: impl Parser :: fn insert_block_anchor
//@ sub use BlockContext::*; ==> 
//@ sub let named = |name| meta.attrs.iter().find_map(|attrs| attrs.named.get(name)); ==> 
//@ sub ?Comment | ==> BlockContext::Comment |
//@ sub ?DocumentAttributeDecl | ==> BlockContext::DocumentAttributeDecl |
//@ sub ?PageBreak | ==> BlockContext::PageBreak |
//@ sub ?Passthrough | ==> BlockContext::Passthrough |
//@ sub ?Section | ==> BlockContext::Section |
//@ sub ?ThematicBreak ) ==> BlockContext::ThematicBreak )
//@ sub meta.attrs.id().map(|id| id.loc) ==> vx_id_loc(&meta.attrs)
//@ sub loc.or(content.first_loc()).unwrap_or(meta.start_loc) ==> vx_loc_or(loc, content.first_loc(), meta.start_loc)
//@ sub id.clone() ==> vx_clone_str(id)
//@ sub self.string(&id.src) ==> vx_clone_str(&id.src)
//@ sub named("title").or(meta.dot_line_title.as_ref()) ==> vx_or(meta.attrs.named("title"), &meta.dot_line_title)
//@ sub named("reftext").cloned() ==> vx_cloned(meta.attrs.named("reftext"))
//@ sub title.cloned().unwrap_or(InlineNodes::new(self.bump)) ==> vx_cloned(title).unwrap_or(VxNodes::new())
//@ spec
    ensures match block_target(*block) {
        Some((id, l, anchor)) => registered(*old(self), *final(self), id, l, anchor, r is Err),
        None => r is Ok && *final(self) == *old(self),
    },
//@end
//@extract parser/src/tasks/diagnose_document.rs :: impl Parser :: fn target_data
//@ sub target == "#" ==> vx_str_eq(target, "#")
//@ sub target.find('#') ==> vx_find(target, '#')
//@ sub &target[idx + 1..] ==> vx_from(target, idx + 1)
//@ sub &target[..idx] ==> vx_to(target, idx)
//@ sub self.lexer.source_idx_of_xref_target(prefix).map(|src_idx| (Some(src_idx), id)) ==> match self.lexer.source_idx_of_xref_target(prefix) { Some(src_idx) => Some((Some(src_idx), id)), None => None }
//@ sub self.lexer.source_file_at(0).file_name().ends_with(target) ==> self.lexer.main_ends_with(target)
//@ spec
    ensures sought(self.lexer, target@, match r { Some((i, t)) => Some((i, t@)), None => None }),
//@ body
proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); first_is(target@, '#'); }
//@ before let id = vx_from
proof { after_char(target@, first(target@, '#'), idx as int); assert forall|i: int| 0 <= i && idx == #[trigger] boff(target@, i) implies i == first(target@, '#') by { boff_inj(target@, i, first(target@, '#')); } }
//@end
//@extract parser/src/tasks/diagnose_document.rs :: impl Parser :: fn invalid_xref
//@ sub self.err_at($m, loc,) ==> self.err_at(loc)
//@ spec
    ensures (r is Err) == self.strict,
//@end
//@extract parser/src/tasks/diagnose_document.rs :: impl Parser :: fn diagnose_invalid_xrefs
//@ sub self.ctx.table_cell_ctx != TableCellContext::None ==> self.in_cell
//@ sub for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() { ==> let vx_ps = self.xrefs.pairs(); let mut vx_n: usize = 0; while vx_n < vx_ps.len() { let ref_target = &vx_ps[vx_n].0; let ref_loc = &vx_ps[vx_n].1; vx_n += 1;
//@ sub id == "__self__" ==> vx_str_eq(id, "__self__")
//@ sub let anchors = self.document.anchors.borrow(); ==> let anchors = &self.anchors;
//@ sub let file = |idx| self.lexer.source_file_at(idx); ==> 
//@ sub idx.is_some_and(|idx| file(idx) != file(anchor.source_idx)) ==> (match idx { Some(idx) => !self.lexer.same_file(idx, anchor.source_idx), None => false })
//@ spec
    ensures
        self.strict && !self.in_cell ==> (r is Ok <==> forall|t: Seq<char>| #[trigger] self.xrefs@.contains(t) ==> valid(*self, t)),
        !self.strict ==> r is Ok,
//@ loop 0
    invariant 
        vx_n <= vx_ps@.len(),
        forall|t: Seq<char>| self.xrefs@.contains(t) <==> exists|i: int| 0 <= i < vx_ps@.len() && (#[trigger] vx_ps@[i]).0@ == t,
        self.strict ==> forall|i: int| 0 <= i < vx_n ==> valid(*self, (#[trigger] vx_ps@[i]).0@),
    decreases vx_ps@.len() - vx_n,
//@ loopbody 0
proof { assert(self.xrefs@.contains(vx_ps@[vx_n as int].0@)); sought_one(self.lexer, vx_ps@[vx_n as int].0@); }
//@end
//@extract parser/src/tasks/parse_inlines/mod.rs :: impl Parser :: fn push_xref
//@ sub target.src.clone() ==> vx_clone_str(&target.src)
//@ sub ref_id.len() > 1 && ref_id.starts_with('#') ==> vx_longer(&ref_id, 1) && vx_starts(ref_id.as_str(), '#')
//@ sub ref_id.drain(..1) ==> vx_drop_first(&mut ref_id)
//@ sub self.ctx.xrefs.borrow_mut().insert ==> self.xrefs.insert
//@ spec
    requires target.loc.start < 0xffff_ffff,
    ensures final(self).xrefs@ == old(self).xrefs@.insert(local(target.src@)), final(self).ids == old(self).ids, final(self).anchors == old(self).anchors,
//@end
}
/// what the back ends' buffers are made of
pub struct VxBuffers { pub html: String, pub alt_html: String, pub outer_html: Vec<String> }
impl VxBuffers {
//@extract backend/src/html/htmlbuf.rs :: trait AltHtmlBuf :: fn start_buffering
//@ sub std::mem::take(self.htmlbuf()) ==> vx_take(&mut self.html)
//@ sub self.outer_htmlbufs() ==> self.outer_html
//@ spec
    ensures final(self).outer_html@ == old(self).outer_html@.push(old(self).html), final(self).html@ == Seq::<char>::empty(), final(self).alt_html == old(self).alt_html,
//@end
//@extract backend/src/html/htmlbuf.rs :: trait AltHtmlBuf :: fn swap_take_buffer
//@ sub self.outer_htmlbufs().pop().unwrap_or_default() ==> vx_pop_string(&mut self.outer_html)
//@ sub std::mem::replace(self.htmlbuf(), outer) ==> vx_replace(&mut self.html, outer)
//@ spec
    requires old(self).outer_html@.len() > 0,
    ensures r == old(self).html, final(self).html == old(self).outer_html@.last(), final(self).outer_html@ == old(self).outer_html@.drop_last(), final(self).alt_html == old(self).alt_html,
//@end
//@extract backend/src/html/htmlbuf.rs :: trait AltHtmlBuf :: fn stop_buffering
//@ sub *self.alt_htmlbuf() = ==> self.alt_html =
//@ spec
    requires old(self).outer_html@.len() > 0,
    ensures final(self).alt_html == old(self).html, final(self).html == old(self).outer_html@.last(), final(self).outer_html@ == old(self).outer_html@.drop_last(),
//@end
//@extract backend/src/html/htmlbuf.rs :: trait AltHtmlBuf :: fn take_buffer
//@ sub std::mem::take(self.alt_htmlbuf()) ==> vx_take(&mut self.alt_html)
//@ spec
    ensures r == old(self).alt_html, final(self).alt_html@ == Seq::<char>::empty(), final(self).html == old(self).html, final(self).outer_html == old(self).outer_html,
//@end
//@extract backend/src/html/htmlbuf.rs :: trait AltHtmlBuf :: fn push_buffered
//@ sub self.push_str(&buffer) ==> vx_push_str(&mut self.html, &buffer)
//@ spec
    ensures final(self).html@ == old(self).html@ + old(self).alt_html@, final(self).alt_html@ == Seq::<char>::empty(), final(self).outer_html == old(self).outer_html,
//@end
}
/// buffers nest: what is written between starting and stopping is buffered, whatever was buffered meanwhile, and what was written before is untouched
fn vx_nesting(b: &mut VxBuffers, x: &str, y: &str)
    ensures final(b).html == old(b).html, final(b).outer_html@ == old(b).outer_html@, final(b).alt_html@ == x@ + y@,
{
    b.start_buffering();
    vx_push_str(&mut b.html, x);
    b.start_buffering();
    let _ = b.swap_take_buffer();
    vx_push_str(&mut b.html, y);
    b.stop_buffering();
    proof { assert(b.alt_html@ =~= x@ + y@); assert(b.outer_html@ =~= old(b).outer_html@); }
}
}
fn main() {}
