//@include lexer.inc
verus! {
// unit: positions -> lines, columns and text (diagnostics, `raw_lines`, location arithmetic)

// ---- specification ----
/// number of newlines in s[0..n]
spec fn newlines(s: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { newlines(s, n - 1) + (if s[n - 1] == 0x0a { 1int } else { 0 }) }
}
/// where the line holding position p starts
spec fn line_begin(s: Seq<u8>, p: int) -> int
    decreases p,
{
    if p <= 0 { 0 } else if s[p - 1] == 0x0a { p } else { line_begin(s, p - 1) }
}
/// where the text of the line holding position p ends (exclusive)
spec fn line_end(s: Seq<u8>, p: int) -> int
    decreases s.len() - p,
{
    if p >= s.len() || s[p] == 0x0a || s[p] == 0x0d { p } else { line_end(s, p + 1) }
}
spec fn ascii_ws(b: u8) -> bool { b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0c || b == 0x0d }
spec fn trim_end(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 || !ascii_ws(s.last()) { s } else { trim_end(s.drop_last()) }
}
proof fn lemma_newlines_bound(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= newlines(s, n) <= n,
    decreases n,
{
    if n > 0 { lemma_newlines_bound(s, n - 1); }
}
proof fn lemma_line_begin(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures 0 <= line_begin(s, p) <= p,
        line_begin(s, p) == 0 || s[line_begin(s, p) - 1] == 0x0a,
        forall|i: int| line_begin(s, p) <= i < p ==> s[i] != 0x0a,
    decreases p,
{
    if p > 0 && s[p - 1] != 0x0a { lemma_line_begin(s, p - 1); }
}
/// the column and the line number are those of the text: going back `column` bytes from p reaches the
/// start of a line, and exactly `line - 1` newlines come before it
proof fn theorem_line_col(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures newlines(s, p) == newlines(s, line_begin(s, p)),
    decreases p,
{
    if p > 0 && s[p - 1] != 0x0a { theorem_line_col(s, p - 1); }
}
proof fn lemma_line_end(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures p <= line_end(s, p) <= s.len(), eol_at(s, line_end(s, p)),
    decreases s.len() - p,
{
    if p < s.len() && s[p] != 0x0a && s[p] != 0x0d { lemma_line_end(s, p + 1); }
}
#[verifier::external_body]
fn vx_trim_ascii_end(s: &str) -> (r: &str)
    ensures encode_utf8(r@) == trim_end(encode_utf8(s@)),
{ s.trim_ascii_end() }

impl SourceLexer {
    /// a location inside (or at the end of) this source
    spec fn in_src(&self, p: int) -> bool { self.offset <= p <= self.offset + self.src.len() }
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn byte_at
//@ spec
requires self.wf(), pos >= self.offset,
ensures r == (if pos - self.offset < self.src.len() { Some(self.src@[pos - self.offset]) } else { None::<u8> }),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn byte_before
//@ spec
requires self.wf(),
ensures r == (if pos > self.offset && pos - 1 - self.offset < self.src.len() { Some(self.src@[pos - 1 - self.offset]) } else { None::<u8> }),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn str_from_loc
//@ spec
requires self.wf(), loc.start <= loc.end, self.in_src(loc.start as int), self.in_src(loc.end as int),
    is_char_boundary(self.src@, loc.start - self.offset), is_char_boundary(self.src@, loc.end - self.offset),
ensures encode_utf8(r@) == self.src@.subrange(loc.start - self.offset, loc.end - self.offset),
//@ body
proof { lemma_sub_valid(self.src@, loc.start - self.offset, loc.end - self.offset); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn line_of
//@ sub str.trim_ascii_end() ==> vx_trim_ascii_end(str)
//@ spec
requires self.wf(), self.in_src(location as int),
ensures
    ({ let p = location - self.offset;
       let b = line_begin(self.src@, p);
       r@ == trim_end(self.src@.subrange(b, line_end(self.src@, p))) }),
//@ body
let ghost vx_p = location - self.offset;
proof { lemma_line_begin(self.src@, vx_p); lemma_line_end(self.src@, vx_p); is_char_boundary_start_end_of_seq(self.src@); }
//@ loop 0
invariant self.wf(), vx_p <= self.src.len(), end == vx_p, 0 <= start <= vx_p, line_begin(self.src@, start as int) == line_begin(self.src@, vx_p),
ensures start == line_begin(self.src@, vx_p),
decreases start,
//@ loop 1
invariant_except_break self.wf(), src_len == self.src.len(), vx_p <= end <= src_len, line_end(self.src@, end as int) == line_end(self.src@, vx_p),
ensures end == line_end(self.src@, vx_p),
decreases src_len - end,
//@ before let str
proof {
    if 0 < start { lemma_ascii_boundary(self.src@, start - 1); }
    if (end as int) < self.src.len() { lemma_ascii_boundary(self.src@, end as int); }
    lemma_sub_valid(self.src@, start as int, end as int);
}
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn line_number_with_offset
//@ spec
requires self.wf(), self.in_src(location as int),
ensures
    r.0 == newlines(self.src@, location - self.offset) + 1,
    r.1 == location - self.offset - line_begin(self.src@, location - self.offset),
//@ body
let ghost vx_p = location - self.offset;
//@ loop 0
invariant self.wf(), vx_p == location, vx_p <= self.src.len(),
    line_number == newlines(self.src@, idx as int) + 1, 1 <= line_number <= idx + 1,
    offset == idx - line_begin(self.src@, idx as int), 0 <= offset <= idx,
//@end
}
/// the lines of a source, as `raw_lines` hands them out: one per newline-terminated stretch
spec fn next_line_end(s: Seq<u8>, p: int) -> int
    decreases s.len() - p,
{
    if p >= s.len() || s[p] == 0x0a { p } else { next_line_end(s, p + 1) }
}
//@item parser/src/lexer/source_lexer.rs :: - :: struct LinesIter
//@end
#[verifier::external_body]
fn vx_slice(v: &[u8], a: usize, b: usize) -> (r: &[u8])
    requires a <= b <= v.len(),
    ensures r@ == v@.subrange(a as int, b as int),
{ &v[a..b] }
impl<'a> LinesIter<'a> {
    spec fn ok(&self) -> bool {
        valid_utf8(self.src@) && self.start == self.end && self.src.len() < 0xffff_ffff
        && (self.start <= self.src.len() ==> self.start == 0 || self.src@[self.start - 1] == 0x0a)
    }
//@extract parser/src/lexer/source_lexer.rs :: impl Iterator for LinesIter :: fn next
//@ sub Option<Self::Item> ==> Option<&'a str>
//@ sub vx_sub(&self.src, self.start, self.end) ==> vx_slice(self.src, self.start, self.end)
//@ spec
requires old(self).ok(),
ensures final(self).ok(), final(self).src@ == old(self).src@,
    ({ let e = next_line_end(old(self).src@, old(self).start as int);
       match r {
        Some(l) => encode_utf8(l@) == old(self).src@.subrange(old(self).start as int, e) && final(self).start == e + 1
            && old(self).start <= e <= old(self).src.len() && (e < old(self).src.len() ==> old(self).src@[e] == 0x0a),
        None => old(self).start >= old(self).src.len() && final(self).start == old(self).start,
       } }),
    old(self).start < old(self).src.len() ==> r.is_some(),
//@ loop 0
invariant self.src@ == old(self).src@, self.start == old(self).start, self.start <= self.end <= self.src.len(), self.start < self.src.len(),
    old(self).ok(),
    next_line_end(self.src@, self.end as int) == next_line_end(self.src@, self.start as int),
ensures self.end == next_line_end(self.src@, self.start as int), (self.end as int) < self.src.len() ==> self.src@[self.end as int] == 0x0a,
decreases self.src.len() - self.end,
//@ before let line
proof { is_char_boundary_start_end_of_seq(self.src@);
    if 0 < self.start { lemma_ascii_boundary(self.src@, self.start - 1); }
    if (self.end as int) < self.src.len() { lemma_ascii_boundary(self.src@, self.end as int); }
    lemma_sub_valid(self.src@, self.start as int, self.end as int); }
//@end
}
impl SourceLocation {
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn spanning
//@ spec
requires start.start <= end.start, start.end <= end.end, start.include_depth == end.include_depth,
ensures r.start == start.start, r.end == end.end, r.include_depth == start.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn adding_to_end
//@ spec
requires self.start <= self.end, self.end + adding <= u32::MAX,
ensures r.start == self.start, r.end == self.end + adding, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn subtracting_from_start
//@ spec
requires self.start <= self.end, subtracting <= self.start,
ensures r.start == self.start - subtracting, r.end == self.end, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn setting_end
//@ spec
requires self.start <= end,
ensures r.start == self.start, r.end == end, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn clamp_start
//@ spec
ensures r.start == self.start, r.end == self.start, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn clamp_end
//@ spec
ensures r.start == self.end, r.end == self.end, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn decr_end
//@ spec
requires self.start < self.end,
ensures r.start == self.start, r.end == self.end - 1, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn incr_end
//@ spec
requires self.start <= self.end, self.end < u32::MAX,
ensures r.start == self.start, r.end == self.end + 1, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn decr_start
//@ spec
requires 0 < self.start <= self.end,
ensures r.start == self.start - 1, r.end == self.end, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn incr_start
//@ spec
requires self.start < self.end,
ensures r.start == self.start + 1, r.end == self.end, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn incr
//@ spec
requires self.start <= self.end, self.end < u32::MAX,
ensures r.start == self.start + 1, r.end == self.end + 1, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn decr
//@ spec
requires 0 < self.start <= self.end,
ensures r.start == self.start - 1, r.end == self.end - 1, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn offset
//@ spec
requires self.start <= self.end, self.end + offset <= u32::MAX,
ensures r.start == self.start + offset, r.end == self.end + offset, r.include_depth == self.include_depth,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn size
//@ spec
requires self.start <= self.end,
ensures r == self.end - self.start,
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn is_empty
//@ spec
ensures r == (self.start == self.end),
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn uid
//@ spec
ensures r == self.include_depth * 0x1_0000_0000 + self.start,
//@ body
proof { let a = self.include_depth as u64; let b = self.start as u64; assert(((a << 32) | b) == a * 0x1_0000_0000 + b) by(bit_vector) requires a <= 0xffff, b <= 0xffff_ffff; }
//@end
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn extend
//@ sub self.start.min(other.start) ==> vx_min(self.start, other.start)
//@ sub self.end.max(other.end) ==> vx_max(self.end, other.end)
//@ spec
ensures final(self).include_depth == old(self).include_depth,
    final(self).start == (if old(self).start <= other.start { old(self).start } else { other.start }),
    final(self).end == (if old(self).end >= other.end { old(self).end } else { other.end }),
//@end
}
fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }), { if a <= b { a } else { b } }
fn vx_max(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }), { if a >= b { a } else { b } }
/// a location identifies its start: distinct (source, start) pairs get distinct ids
proof fn theorem_uid_injective(d1: u16, s1: u32, d2: u16, s2: u32)
    requires d1 * 0x1_0000_0000 + s1 == d2 * 0x1_0000_0000 + s2,
    ensures d1 == d2, s1 == s2,
{
}
//@item ast/src/multi_source_location.rs :: - :: struct MultiSourceLocation
//@end
impl MultiSourceLocation {
//@extract ast/src/multi_source_location.rs :: impl MultiSourceLocation :: fn spanning
//@ spec
ensures r.start_pos == start.start, r.start_depth == start.include_depth, r.end_pos == end.end, r.end_depth == end.include_depth,
//@end
//@extract ast/src/multi_source_location.rs :: impl MultiSourceLocation :: fn setting_start
//@ spec
ensures r.start_pos == start.start, r.start_depth == start.include_depth, r.end_pos == self.end_pos, r.end_depth == self.end_depth,
//@end
//@extract ast/src/multi_source_location.rs :: impl MultiSourceLocation :: fn setting_end
//@ spec
ensures r.start_pos == self.start_pos, r.start_depth == self.start_depth, r.end_pos == end.end, r.end_depth == end.include_depth,
//@end
//@extract ast/src/multi_source_location.rs :: impl MultiSourceLocation :: fn extend_end
//@ spec
ensures final(self).start_pos == old(self).start_pos, final(self).start_depth == old(self).start_depth, final(self).end_pos == other.end_pos, final(self).end_depth == other.end_depth,
//@end
//@extract ast/src/multi_source_location.rs :: impl MultiSourceLocation :: fn coalesce
//@ spec
ensures self.start_depth != self.end_depth ==> r.is_none(),
    self.start_depth == self.end_depth ==> r.is_some() && r.unwrap().start == self.start_pos && r.unwrap().end == self.end_pos && r.unwrap().include_depth == self.start_depth,
//@end
//@extract ast/src/multi_source_location.rs :: impl MultiSourceLocation :: fn uid
//@ spec
ensures r == self.start_depth * 0x1_0000_0000 + self.start_pos,
//@ body
proof { let a = self.start_depth as u64; let b = self.start_pos as u64; assert(((a << 32) | b) == a * 0x1_0000_0000 + b) by(bit_vector) requires a <= 0xffff, b <= 0xffff_ffff; }
//@end
//@extract ast/src/multi_source_location.rs :: impl From<SourceLocation> for MultiSourceLocation :: fn from
//@ spec
ensures r.start_pos == loc.start, r.start_depth == loc.include_depth, r.end_pos == loc.end, r.end_depth == loc.include_depth,
//@end
}
}
//@include root.inc
verus! {
impl BumpString {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures encode_utf8(r@) == self@, { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures encode_utf8(r@) == self@, { unimplemented!() }
    /// `str::find`: byte index of the first occurrence
    #[verifier::external_body]
    fn find(&self, p: &str) -> (r: Option<usize>)
        ensures r.is_some() ==> occurs(self@, encode_utf8(p@), r.unwrap() as int), r.is_none() ==> forall|i: int| !occurs(self@, encode_utf8(p@), i),
    { unimplemented!() }
}
spec fn occurs(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
#[verifier::external_body]
fn vx_string(s: &str) -> (r: String) ensures r@ == s@, { String::from(s) }
#[verifier::external_body]
fn vx_str_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len(), { s.len() }
impl Clone for SourceFile {
    #[verifier::external_body]
    fn clone(&self) -> (r: SourceFile) ensures r == *self, { unimplemented!() }
}
impl RootLexer {
    spec fn at(&self, loc: SourceLocation) -> bool {
        &&& (loc.include_depth as int) < self.sources.len()
        &&& self.sources@[loc.include_depth as int].wf()
        &&& self.sources@[loc.include_depth as int].in_src(loc.start as int)
    }
    spec fn src(&self, loc: SourceLocation) -> Seq<u8> { self.sources@[loc.include_depth as int].src@ }
    spec fn p(&self, loc: SourceLocation) -> int { loc.start - self.sources@[loc.include_depth as int].offset }
    spec fn spec_line(&self, loc: SourceLocation) -> Seq<u8> {
        trim_end(self.src(loc).subrange(line_begin(self.src(loc), self.p(loc)), line_end(self.src(loc), self.p(loc))))
    }
    spec fn spec_num(&self, loc: SourceLocation) -> int { newlines(self.src(loc), self.p(loc)) + 1 }
    spec fn spec_col(&self, loc: SourceLocation) -> int { self.p(loc) - line_begin(self.src(loc), self.p(loc)) }
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn source_file_at
//@ spec
requires (idx as int) < self.sources.len(),
ensures *r == self.sources@[idx as int].file,
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn loc
//@ spec
requires (self.idx as int) < self.sources.len(),
ensures r.start == self.sources@[self.idx as int].pos, r.end == r.start, r.include_depth == self.idx,
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn byte_at
//@ spec
requires (include_depth as int) < self.sources.len(), self.sources@[include_depth as int].wf(), pos >= self.sources@[include_depth as int].offset,
ensures ({ let s = self.sources@[include_depth as int]; r == (if pos - s.offset < s.src.len() { Some(s.src@[pos - s.offset]) } else { None::<u8> }) }),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn byte_before
//@ spec
requires (loc.include_depth as int) < self.sources.len(), self.sources@[loc.include_depth as int].wf(),
ensures ({ let s = self.sources@[loc.include_depth as int];
    r == (if loc.start > s.offset && loc.start - 1 - s.offset < s.src.len() { Some(s.src@[loc.start - 1 - s.offset]) } else { None::<u8> }) }),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn str_from_loc
//@ spec
requires self.at(loc), loc.start <= loc.end, self.sources@[loc.include_depth as int].in_src(loc.end as int),
    is_char_boundary(self.src(loc), self.p(loc)), is_char_boundary(self.src(loc), loc.end - self.sources@[loc.include_depth as int].offset),
ensures encode_utf8(r@) == self.src(loc).subrange(self.p(loc), loc.end - self.sources@[loc.include_depth as int].offset),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn line_of
//@ spec
requires self.at(loc),
ensures r@ == self.spec_line(loc),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn line_number_with_offset
//@ spec
requires self.at(loc),
ensures r.0 == self.spec_num(loc), r.1 == self.spec_col(loc),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn line_number
//@ spec
requires self.at(loc),
ensures r == self.spec_num(loc),
//@end
}
//@item parser/src/diagnostic.rs :: - :: struct Diagnostic
//@end
/// the parser as the reporting functions see it
pub struct Parser { lexer: RootLexer, strict: bool }
spec fn same_bytes(s: String, b: Seq<u8>) -> bool { encode_utf8(s@) == b }
impl Parser {
    /// the report names the file, line number and line text of `loc`
    spec fn placed(&self, r: Result<(), Diagnostic>, loc: SourceLocation) -> bool {
        match r {
            Ok(_) => !self.strict,
            Err(d) => self.strict && d.line_num == self.lexer.spec_num(loc) && same_bytes(d.line, self.lexer.spec_line(loc))
                && d.source_file == self.lexer.sources@[loc.include_depth as int].file,
        }
    }
//@gsub message: impl Into<String> ==> message: String
//@gsub Result<()> ==> Result<(), Diagnostic>
//@gsub message.into() ==> message
//@gsub String::from(line.as_str()) ==> vx_string(line.as_str())
//@extract parser/src/diagnostic.rs :: impl Parser :: fn handle_err
//@ sub self.errors.borrow_mut().push(err); ==>
//@ spec
ensures self.strict ==> r == Err::<(), Diagnostic>(err), !self.strict ==> r.is_ok(),
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_line_starting
//@ spec
requires self.lexer.at(loc),
ensures self.placed(r, loc), match r { Err(d) => d.message@ == message@ && d.underline_start == self.lexer.spec_col(loc), _ => true },
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_line_of
//@ spec
requires self.lexer.at(loc),
ensures self.placed(r, loc), match r { Err(d) => d.message@ == message@ && d.underline_start == 0 && d.underline_width == self.lexer.spec_line(loc).len() as u32, _ => true },
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_at_pattern
//@ sub pattern.len() ==> vx_str_len(pattern)
//@ spec
requires self.lexer.at(line_start), self.lexer.spec_line(line_start).len() <= u32::MAX,
ensures self.placed(r, line_start),
    match r { Err(d) => d.message@ == message@ && ({ let l = self.lexer.spec_line(line_start); let p = encode_utf8(pattern@);
        (exists|i: int| occurs(l, p, i)) ==> occurs(l, p, d.underline_start as int) && d.underline_width == p.len() as u32 }), _ => true },
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_at
//@ spec
requires self.lexer.at(loc), loc.start <= loc.end,
ensures self.placed(r, loc), match r { Err(d) => d.message@ == message@ && d.underline_start == self.lexer.spec_col(loc) && d.underline_width == loc.end - loc.start, _ => true },
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_token_full
//@ spec
requires self.lexer.at(token.loc),
ensures self.placed(r, token.loc), match r { Err(d) => d.message@ == message@ && d.underline_start == self.lexer.spec_col(token.loc) && d.underline_width == token.lexeme@.len() as u32, _ => true },
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_token_start
//@ spec
requires self.lexer.at(token.loc),
ensures self.placed(r, token.loc), match r { Err(d) => d.message@ == message@ && d.underline_start == self.lexer.spec_col(token.loc) && d.underline_width == 1, _ => true },
//@end
//@extract parser/src/diagnostic.rs :: impl Parser :: fn err_token
//@ sub token.map_or_else(|| self.lexer.loc(), |t| t.loc) ==> (match token { Some(t) => t.loc, None => self.lexer.loc() })
//@ spec
requires token.is_some() ==> self.lexer.at(token.unwrap().loc),
    token.is_none() ==> (self.lexer.idx as int) < self.lexer.sources.len() && self.lexer.sources@[self.lexer.idx as int].wf()
        && self.lexer.sources@[self.lexer.idx as int].in_src(self.lexer.sources@[self.lexer.idx as int].pos as int),
ensures token.is_some() ==> self.placed(r, token.unwrap().loc),
    match r { Err(d) => d.message@ == message@ && d.underline_width == 1 && (token.is_some() ==> d.underline_start == self.lexer.spec_col(token.unwrap().loc)), _ => true },
//@end
}
}
fn main() {}
