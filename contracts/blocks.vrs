//@include prelude.inc
verus! {
// unit: lists and what they hold (parser/src/tasks/{parse_list,parse_block,parse_section}.rs, parser/src/{line,contiguous_lines,list_context,parser}.rs)
//@gsub BumpVec<'arena, (InlineNodes<'arena>, SourceString<'arena>)> ==> Vec<(InlineNodes, SourceString)>
//@gsub BumpVec<'arena, Block<'arena>> ==> Vec<Block>
//@gsub Deq<'arena, Line<'arena>> ==> Deq<Line>
//@gsub ContiguousLines<'arena> ==> ContiguousLines
//@gsub InlineNodes<'arena> ==> InlineNodes
//@gsub SourceString<'arena> ==> SourceString
//@gsub ListItem<'arena> ==> ListItem
//@gsub ChunkMeta<'arena> ==> ChunkMeta
//@gsub Section<'arena> ==> Section
//@gsub PeekedSection<'arena> ==> PeekedSection
//@gsub Sectioned<'arena> ==> Sectioned
//@gsub Block<'arena> ==> Block
//@gsub Line<'arena> ==> Line
//@gsub BumpVec::new_in($x) ==> Vec::new()
//@gsub bvec![in self.bump] ==> Vec::new()
//@gsub Deq::with_capacity($x) ==> Deq::vx_new()
//@gsub ContiguousLines::with_capacity($x) ==> ContiguousLines::vx_new()
//@gsub format!($x) ==> vx_msg()
//@gsub self.ctx.list.stack.push( ==> self.ctx.list.stack.0.push(
//@gsub self.ctx.list.stack.pop( ==> self.ctx.list.stack.0.pop(
//@gsub Context:: ==> BlockContext::
//@gsub Content:: ==> BlockContent::
//@gsub self.bump ==> vx_bump()
//@gsub ContiguousLines::empty($x) ==> ContiguousLines::vx_new()
pub struct Bump;
fn vx_bump() -> Bump { Bump }
pub struct VxMsg;
fn vx_msg() -> VxMsg { VxMsg }
pub struct Diagnostic { x: u8 }
pub type Result<T> = std::result::Result<T, Diagnostic>;
#[derive(Clone, Copy)]
pub struct SourceLocation { pub x: u64 }
impl SourceLocation {
    #[verifier::external_body]
    fn clamp_start(self) -> SourceLocation { unimplemented!() }
    #[verifier::external_body]
    fn extend(&mut self, o: SourceLocation) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> bool { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct MultiSourceLocation { pub x: u64 }
impl MultiSourceLocation {
    #[verifier::external_body]
    fn spanning(a: SourceLocation, b: SourceLocation) -> MultiSourceLocation { unimplemented!() }
    #[verifier::external_body]
    fn extend_end(&mut self, o: &MultiSourceLocation) { unimplemented!() }
}
//@item parser/src/token.rs :: - :: enum TokenKind
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/list.rs :: - :: enum ListMarker
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/list.rs :: - :: enum ListVariant
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/block.rs :: - :: enum BlockContext
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/delimiter.rs :: - :: enum DelimiterKind
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/delimiter.rs :: - :: struct Delimiter
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
use TokenKind::*;

// ---- which list a marker is of ----
/// two markers are of the same list: of the same kind and length, digits and callouts whatever their number
pub open spec fn same_list(a: ListMarker, b: ListMarker) -> bool {
    match (a, b) {
        (ListMarker::Digits(_), ListMarker::Digits(_)) => true,
        (ListMarker::Callout(_), ListMarker::Callout(_)) => true,
        _ => a == b,
    }
}
pub open spec fn is_desc(m: ListMarker) -> bool { m is Colons || m is SemiColons }
pub open spec fn variant_of(m: ListMarker) -> ListVariant {
    match m {
        ListMarker::Dot(_) | ListMarker::Digits(_) => ListVariant::Ordered,
        ListMarker::Dash | ListMarker::Star(_) => ListVariant::Unordered,
        ListMarker::Colons(_) | ListMarker::SemiColons => ListVariant::Description,
        ListMarker::Callout(_) => ListVariant::Callout,
    }
}
pub open spec fn nests(stack: Seq<ListMarker>, m: ListMarker) -> bool {
    stack.len() > 0 && forall|i: int| 0 <= i < stack.len() ==> !same_list(#[trigger] stack[i], m)
}
pub open spec fn goes_on(stack: Seq<ListMarker>, m: ListMarker) -> bool { stack.len() > 0 && same_list(stack.last(), m) }
impl ListMarker {
//@extract ast/src/list.rs :: impl ListMarker :: fn is_description
//@ spec
    ensures r == is_desc(*self),
//@end
//@extract ast/src/list.rs :: impl ListMarker :: fn callout_num
//@ spec
    ensures true,
//@end
}
//@extract ast/src/list.rs :: impl From<ListMarker> for ListVariant :: fn from
//@ rename vx_variant
//@ sub Self ==> ListVariant
//@ spec
    ensures r == variant_of(marker),
//@end
pub struct ListStack(pub Vec<ListMarker>);
impl View for ListStack { type V = Seq<ListMarker>; open spec fn view(&self) -> Seq<ListMarker> { self.0@ } }
fn vx_all<F: Fn(&ListMarker) -> bool>(v: &Vec<ListMarker>, f: F) -> (r: bool)
    requires forall|m: &ListMarker| f.requires((m,)),
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), forall|m: &ListMarker| f.requires((m,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), true),
        decreases v@.len() - i,
    {
        if !f(&v[i]) { assert(f.ensures((&v@[i as int],), false)); return false; }
        i += 1;
    }
    true
}
fn vx_contains(v: &Vec<ListMarker>, m: &ListMarker) -> (r: bool)
    ensures r == v@.contains(*m),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] != *m,
        decreases v@.len() - i,
    {
        if v[i] == *m { assert(v@[i as int] == *m); return true; }
        i += 1;
    }
    false
}
fn vx_last(v: &Vec<ListMarker>) -> (r: Option<ListMarker>)
    ensures r == (if v@.len() == 0 { None::<ListMarker> } else { Some(v@.last()) }),
{ if v.len() == 0 { None } else { Some(v[v.len() - 1]) } }
impl ListStack {
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { self.0.len() == 0 }
    fn last(&self) -> (r: Option<ListMarker>) ensures r == (if self@.len() == 0 { None::<ListMarker> } else { Some(self@.last()) }), { vx_last(&self.0) }
/// a list starts inside the ones it is in exactly where its marker is of none of them
//@extract parser/src/list_context.rs :: impl ListStack :: fn starts_nested_list
//@ sub self.iter().all(|marker| !matches!(marker, ListMarker::Digits(_))) ==> vx_all(&self.0, |marker: &ListMarker| -> (b: bool) ensures b == !(*marker is Digits) { !matches!(*marker, ListMarker::Digits(_)) })
//@ sub self.iter().all(|marker| !matches!(marker, ListMarker::Callout(_))) ==> vx_all(&self.0, |marker: &ListMarker| -> (b: bool) ensures b == !(*marker is Callout) { !matches!(*marker, ListMarker::Callout(_)) })
//@ sub self.contains($x) ==> vx_contains(&self.0, $x)
//@ spec
    ensures r == nests(self@, next_marker),
//@end
/// an item goes on with the innermost list exactly where its marker is of that list
//@extract parser/src/list_context.rs :: impl ListStack :: fn continues_current_list
//@ sub self.last().is_some_and(|last| match (last, next) { $x }) ==> match self.last() { None => false, Some(last) => match (last, next) { $x } }
//@ sub *last == next ==> last == next
//@ spec
    ensures r == goes_on(self@, next),
//@end
//@extract parser/src/list_context.rs :: impl ListStack :: fn depth
//@ sub self.len() ==> self.0.len()
//@ spec
    ensures self@.len() < 256 ==> r == self@.len(),
//@end
}
pub struct ListContext { pub stack: ListStack, pub parsing_continuations: bool, pub outer_depth: u8 }
pub open spec fn min255(x: int) -> int { if x > 255 { 255 } else { x } }
impl ListContext {
//@extract parser/src/list_context.rs :: impl ListContext :: fn depth
//@ spec
    ensures self.stack@.len() < 256 ==> r == min255(self.outer_depth + self.stack@.len()),
//@end
}

// ---- lines: what is printed of them is `text` ----
#[verifier::external_body]
pub struct Line { x: u8 }
pub struct Lexeme { x: u8 }
pub struct Token { pub kind: TokenKind, pub loc: SourceLocation, pub lexeme: Lexeme }
pub uninterp spec fn tok_delim(t: Token) -> Option<Delimiter>;
/// what is printed of a line, `//` lines, attributes, markers and the like are nothing
pub uninterp spec fn text(l: Line) -> Seq<int>;
pub uninterp spec fn ntok(l: Line) -> nat;
/// nothing of it has been consumed
pub uninterp spec fn full(l: Line) -> bool;
pub uninterp spec fn kind0(l: Line) -> Option<TokenKind>;
pub uninterp spec fn mark(l: Line) -> Option<ListMarker>;
pub uninterp spec fn slashes(l: Line) -> bool;
pub uninterp spec fn bracketed(l: Line) -> bool;
pub uninterp spec fn anchor_like(l: Line) -> bool;
pub uninterp spec fn delim(l: Line) -> Option<Delimiter>;
/// the level of the section that a line heads, as the attributes at it have it
pub uninterp spec fn level_at(l: Line) -> Option<u8>;
pub open spec fn heading(l: Line) -> bool { level_at(l).is_some() }
pub uninterp spec fn titled(l: Line) -> bool;
pub open spec fn comment(l: Line) -> bool { full(l) && slashes(l) }
pub open spec fn attr_line(l: Line) -> bool { full(l) && kind0(l) == Some(OpenBracket) && bracketed(l) }
#[verifier::external_body]
fn vx_tok_delim(t: &Token) -> (r: Delimiter) requires tok_delim(*t).is_some(), ensures Some(r) == tok_delim(*t), { unimplemented!() }
#[verifier::external_body]
fn vx_same_delimiter(a: Option<Delimiter>, d: Delimiter) -> (r: bool) ensures r == (a == Some(d)), { unimplemented!() }
pub open spec fn anchor_line(l: Line) -> bool { full(l) && kind0(l) == Some(OpenBracket) && anchor_like(l) }
pub open spec fn plus_line(l: Line) -> bool { ntok(l) == 1 && kind0(l) == Some(Plus) && full(l) }
/// what the tokens of a line are like (trusted, of the lexer)
pub broadcast axiom fn line_axioms(l: Line)
    ensures
        ntok(l) == 0 <==> (#[trigger] kind0(l)).is_none(),
        ntok(l) == 0 ==> text(l) =~= Seq::<int>::empty() && mark(l).is_none(),
        slashes(l) ==> kind0(l) == Some(ForwardSlashes),
        comment(l) ==> text(l) =~= Seq::<int>::empty() && mark(l).is_none(),
        plus_line(l) ==> text(l) =~= Seq::<int>::empty(),
        delim(l).is_some() <==> kind0(l) == Some(DelimiterLine),
        delim(l).is_some() && ntok(l) == 1 ==> text(l) =~= Seq::<int>::empty(),
        delim(l).is_some() && ntok(l) > 1 ==> delim(l).unwrap().len == 3 && delim(l).unwrap().kind == DelimiterKind::Listing,
        heading(l) ==> ntok(l) > 2 && (kind0(l) == Some(EqualSigns) || kind0(l) == Some(Hash)),
        titled(l) ==> kind0(l) == Some(Dots) && full(l),
        kind0(l) == Some(DelimiterLine) || kind0(l) == Some(EqualSigns) || kind0(l) == Some(Hash) ==> mark(l).is_none();
pub open spec fn texts(s: Seq<Line>) -> Seq<int>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { text(s[0]) + texts(s.skip(1)) } }
proof fn texts_cat(a: Seq<Line>, b: Seq<Line>)
    ensures texts(a + b) =~= texts(a) + texts(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).skip(1) =~= a.skip(1) + b); texts_cat(a.skip(1), b); }
}
proof fn texts_one(l: Line)
    ensures texts(seq![l]) =~= text(l),
{ assert(seq![l].skip(1) =~= Seq::empty()); reveal_with_fuel(texts, 2); }
proof fn texts_push(a: Seq<Line>, l: Line)
    ensures texts(a.push(l)) =~= texts(a) + text(l),
{ assert(a.push(l) =~= a + seq![l]); texts_cat(a, seq![l]); texts_one(l); }
proof fn texts_front(a: Seq<Line>, l: Line)
    ensures texts(seq![l] + a) =~= text(l) + texts(a),
{ texts_cat(seq![l], a); texts_one(l); }
impl Lexeme {
    #[verifier::external_body]
    fn as_str(&self) -> &str { unimplemented!() }
}
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> bool { unimplemented!() }
impl Token {
    #[verifier::external_body]
    fn to_delimiter(&self) -> (r: Option<Delimiter>) ensures r == tok_delim(*self), { unimplemented!() }
    #[verifier::external_body]
    fn into_source_string(self) -> SourceString { unimplemented!() }
}
impl Line {
    #[verifier::external_body]
    fn num_tokens(&self) -> (r: usize) ensures r == ntok(*self), { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (ntok(*self) == 0), { unimplemented!() }
    #[verifier::external_body]
    fn is_emptyish(&self) -> (r: bool) ensures r ==> text(*self) =~= Seq::<int>::empty() && kind0(*self) != Some(DelimiterLine), !r ==> ntok(*self) > 0, { unimplemented!() }
    #[verifier::external_body]
    fn is_fully_unconsumed(&self) -> (r: bool) ensures r == full(*self), { unimplemented!() }
    #[verifier::external_body]
    fn vx_kind(&self) -> (r: Option<TokenKind>) ensures r == kind0(*self), { unimplemented!() }
    fn starts(&self, k: TokenKind) -> (r: bool) ensures r == (kind0(*self) == Some(k)), { match self.vx_kind() { Some(x) => x == k, None => false } }
    fn current_is(&self, k: TokenKind) -> (r: bool) ensures r == (kind0(*self) == Some(k)), { self.starts(k) }
    #[verifier::external_body]
    fn vx_slashes(&self) -> (r: bool) ensures r == slashes(*self), { unimplemented!() }
    #[verifier::external_body]
    fn list_marker(&self) -> (r: Option<ListMarker>) ensures r == mark(*self), { unimplemented!() }
    #[verifier::external_body]
    fn vx_bracketed(&self) -> (r: bool) ensures r == bracketed(*self), { unimplemented!() }
    #[verifier::external_body]
    fn vx_anchor_like(&self) -> (r: bool) ensures r == anchor_like(*self), { unimplemented!() }
    #[verifier::external_body]
    fn vx_delimiter(&self) -> (r: Option<Delimiter>) ensures r == delim(*self), { unimplemented!() }
//@extract parser/src/line.rs :: impl Line :: fn is_delimiter
//@ sub self.current_token().unwrap().to_delimiter() == Some(delimiter) ==> vx_same_delimiter(self.vx_delimiter(), delimiter)
//@ spec
    ensures r == (ntok(*self) == 1 && delim(*self) == Some(delimiter)),
//@end
    #[verifier::external_body]
    fn first_loc(&self) -> (r: Option<SourceLocation>) ensures r.is_some() == (ntok(*self) > 0), { unimplemented!() }
    #[verifier::external_body]
    fn last_loc(&self) -> (r: Option<SourceLocation>) ensures r.is_some() == (ntok(*self) > 0), { unimplemented!() }
    // what consuming its tokens does to the text of a line (trusted)
    #[verifier::external_body]
    fn trim_leading_whitespace(&mut self)
        ensures text(*final(self)) == text(*old(self)), mark(*final(self)) == mark(*old(self)), kind0(*final(self)) == Some(DelimiterLine) ==> kind0(*old(self)) == Some(DelimiterLine),
    { unimplemented!() }
    #[verifier::external_body]
    fn discard_leading_whitespace(&mut self)
        ensures text(*final(self)) == text(*old(self)), full(*final(self)) == full(*old(self)),
            if kind0(*old(self)) == Some(Whitespace) { kind0(*final(self)) == Some(Discard) && (mark(*final(self)).is_none() <==> mark(*old(self)).is_none()) } else { *final(self) == *old(self) },
    { unimplemented!() }
    /// the marker of a list item
    #[verifier::external_body]
    fn consume_to_string_until(&mut self, k: TokenKind, b: Bump) -> (r: SourceString)
        requires k == Whitespace, mark(*old(self)).is_some(), !is_desc(mark(*old(self)).unwrap()),
        ensures text(*final(self)) == text(*old(self)), kind0(*final(self)) == Some(Whitespace), !full(*final(self)),
    { unimplemented!() }
    /// the space behind it: a delimiter can only be what a line starts with
    #[verifier::external_body]
    fn discard_assert(&mut self, k: TokenKind)
        requires kind0(*old(self)) == Some(k), k == Whitespace,
        ensures text(*final(self)) == text(*old(self)), kind0(*final(self)) != Some(DelimiterLine), !full(*final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_discard_dashes(&mut self)
        requires kind0(*old(self)) == Some(Dashes), ntok(*old(self)) > 2,
        ensures text(*final(self)) == text(*old(self)), ntok(*final(self)) > 0,
    { unimplemented!() }
    /// whose a text is, and behind a comma where it is from: parts of a line
    #[verifier::external_body]
    fn vx_attribution(&mut self) -> (r: (Line, Line))
        ensures text(r.0) + text(r.1) == text(*old(self)), !full(r.0), !full(r.1), kind0(r.0) != Some(DelimiterLine), kind0(r.1) != Some(DelimiterLine),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_discard_hashes(&mut self)
        ensures text(*final(self)) == text(*old(self)), heading(*old(self)) ==> kind0(*final(self)) == Some(Whitespace),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_heading_marks(&mut self) -> (r: SourceLocation)
        requires heading(*old(self)),
        ensures text(*final(self)) == text(*old(self)), kind0(*final(self)) == Some(Whitespace),
    { unimplemented!() }
    #[verifier::external_body]
    fn loc(&self) -> (r: Option<SourceLocation>) ensures r.is_some() == (ntok(*self) > 0), { unimplemented!() }
    #[verifier::external_body]
    fn consume_checklist_item(&mut self, b: Bump) -> (r: Option<(bool, SourceString)>)
        ensures text(*final(self)) == text(*old(self)), kind0(*old(self)) != Some(DelimiterLine) ==> kind0(*final(self)) != Some(DelimiterLine), !full(*old(self)) ==> !full(*final(self)),
    { unimplemented!() }
    /// the term of a description list: a part of the line
    #[verifier::external_body]
    fn vx_before_delimiter(&mut self) -> (r: Line)
        requires mark(*old(self)).is_some(), is_desc(mark(*old(self)).unwrap()),
        ensures text(r) + text(*final(self)) == text(*old(self)), ntok(*final(self)) > 0, !full(r), !full(*final(self)), kind0(r) != Some(DelimiterLine),
    { unimplemented!() }
    /// the delimiter behind it
    #[verifier::external_body]
    fn consume_current(&mut self) -> (r: Option<Token>)
        ensures r.is_some() == (ntok(*old(self)) > 0), text(*final(self)) == text(*old(self)), ntok(*old(self)) > 0 ==> !full(*final(self)) && ntok(*final(self)) == ntok(*old(self)) - 1 && tok_delim(r.unwrap()) == delim(*old(self)),
    { unimplemented!() }
    /// the language of a fenced block is one of its attributes
    #[verifier::external_body]
    fn vx_language(&mut self, m: &mut ChunkMeta)
        ensures meta_text(*final(m)) == meta_text(*old(m)) + text(*old(self)),
    { unimplemented!() }
    /// the `>` in front of what is quoted
    #[verifier::external_body]
    fn remove_first_token(&mut self)
        requires kind0(*old(self)) == Some(GreaterThan) || kind0(*old(self)) == Some(Whitespace),
        ensures text(*final(self)) == text(*old(self)),
    { unimplemented!() }
    fn into_lines(self) -> (r: ContiguousLines) ensures r@ == seq![self], { let mut c = ContiguousLines::vx_new(); c.push(self); proof { assert(c@ =~= seq![self]); } c }
//@extract parser/src/line.rs :: impl Line :: fn is_comment
//@ sub self.current_satisfies($x) ==> self.vx_slashes()
//@ spec
    ensures r == comment(*self),
//@end
//@extract parser/src/line.rs :: impl Line :: fn is_block_attr_list
//@ sub self.ends_with_nonescaped(CloseBracket) && !self.last_token().is_attr_replacement() && !self.peek_token().kind(OpenBracket) ==> self.vx_bracketed()
//@ spec
    ensures r == attr_line(*self),
//@end
    #[verifier::external_body]
    fn is_chunk_title(&self) -> (r: bool) ensures r == titled(*self), r ==> ntok(*self) > 1, { unimplemented!() }
    #[verifier::external_body]
    fn vx_first(&mut self) -> (r: SourceLocation) { unimplemented!() }
    #[verifier::external_body]
    fn is_block_anchor(&self) -> (r: bool) ensures r == anchor_line(*self), { unimplemented!() }
//@extract parser/src/line.rs :: impl Line :: fn starts_list_item
//@ spec
    ensures r == mark(*self).is_some(),
//@end
//@extract parser/src/line.rs :: impl Line :: fn is_list_continuation
//@ spec
    ensures r == plus_line(*self),
//@end
/// what goes on with the text of an item: no comment, no next item, no block
//@extract parser/src/line.rs :: impl Line :: fn continues_list_item_principle
//@ sub self.current_token().map(|t| t.kind) ==> self.vx_kind()
//@ body
    broadcast use line_axioms;
//@ spec
    ensures r ==> ntok(*self) > 0 && !comment(*self) && mark(*self).is_none() && !plus_line(*self) && !attr_line(*self) && !anchor_line(*self) && kind0(*self) != Some(DelimiterLine),
//@end
//@extract parser/src/line.rs :: impl Line :: fn starts_nested_list
//@ optchain
//@ spec
    ensures r == (mark(*self).is_some() && nests(stack@, mark(*self).unwrap())),
//@end
//@extract parser/src/line.rs :: impl Line :: fn continues_list
//@ optchain
//@ spec
    ensures r == (mark(*self).is_some() && stack@.len() > 0 && !nests(stack@, mark(*self).unwrap())),
//@end
}
/// a queue, of which the front can be put back where something was taken from it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Deq<T> { x: Vec<T> }
impl<T> View for Deq<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Deq<T> {
    pub uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body]
    fn vx_new() -> (r: Self) ensures r@ == Seq::<T>::empty(), r.taken() == 0, { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() }, { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x), final(self).taken() == old(self).taken(), { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) && final(self).taken() == old(self).taken() + 1, None => old(self)@.len() == 0 && final(self)@ == old(self)@ && final(self).taken() == old(self).taken() },
    { unimplemented!() }
    #[verifier::external_body]
    fn restore_front(&mut self, x: T)
        requires old(self).taken() > 0,
        ensures final(self)@ == seq![x] + old(self)@, final(self).taken() == old(self).taken() - 1,
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_slice(&self) -> (r: &[T]) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
}
pub struct ContiguousLines { lines: Deq<Line> }
impl View for ContiguousLines { type V = Seq<Line>; closed spec fn view(&self) -> Seq<Line> { self.lines@ } }
pub open spec fn behind_comments(s: Seq<Line>) -> Seq<Line>
    decreases s.len(),
{ if s.len() > 0 && comment(s[0]) { behind_comments(s.skip(1)) } else { s } }
proof fn behind_texts(s: Seq<Line>)
    ensures texts(behind_comments(s)) =~= texts(s),
    decreases s.len(),
{
    broadcast use line_axioms;
    if s.len() > 0 && comment(s[0]) { let k = kind0(s[0]); behind_texts(s.skip(1)); assert(text(s[0]) + texts(s.skip(1)) =~= texts(s.skip(1))); }
}
fn vx_replace(a: &mut ContiguousLines, b: ContiguousLines) -> (r: ContiguousLines)
    ensures *final(a) == b, r == *old(a),
{ let mut c = b; core::mem::swap(a, &mut c); c }
proof fn behind_first(s: Seq<Line>)
    ensures ({ let b = behind_comments(s); b.len() > 0 ==> !comment(b[0]) }),
    decreases s.len(),
{ if s.len() > 0 && comment(s[0]) { behind_first(s.skip(1)); } }
impl ContiguousLines {
    fn vx_closes(&self, c: &ParseContext) -> (r: bool)
        ensures r == (self@.len() > 0 && c.delimiter.is_some() && ntok(self@[0]) == 1 && c.delimiter == delim(self@[0])),
    { match self.current() { Some(l) => c.delimiter.is_some() && l.is_delimiter(c.delimiter.unwrap()), None => false } }
    #[verifier::external_body]
    fn vx_some(&self) -> bool { unimplemented!() }
    fn starts(&self, k: TokenKind) -> (r: bool) ensures r == (self@.len() > 0 && kind0(self@[0]) == Some(k)), { match self.current() { Some(l) => l.starts(k), None => false } }
    #[verifier::external_body]
    fn is_block_macro(&self) -> (r: bool) ensures r ==> self@.len() > 0 && ntok(self@[0]) > 0, { unimplemented!() }
    #[verifier::external_body]
    fn vx_heading(&self) -> (r: bool) ensures r ==> self@.len() > 0 && heading(self@[0]), { unimplemented!() }
    #[verifier::external_body]
    fn vx_token(&self) -> (r: Token)
        requires self@.len() > 0, ntok(self@[0]) > 0,
        ensures Some(r.kind) == kind0(self@[0]), tok_delim(r) == delim(self@[0]),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_discard_leading_whitespace(&mut self)
        ensures final(self)@.len() == old(self)@.len(), texts(final(self)@) == texts(old(self)@),
            old(self)@.len() > 0 && kind0(final(self)@[0]) == Some(DelimiterLine) ==> kind0(old(self)@[0]) == Some(DelimiterLine),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_quoted(&self, in_quote: bool) -> (r: bool) ensures r ==> quoted(self@, in_quote), { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<Line>) ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 }, { unimplemented!() }
    /// indentation of verbatim text: no line of it becomes a delimiter
    #[verifier::external_body]
    fn set_indentation(&mut self, n: usize)
        ensures final(self)@.len() == old(self)@.len(), texts(final(self)@) == texts(old(self)@),
            forall|i: int, d: Delimiter| #![trigger ends(final(self)@[i], d)] 0 <= i < final(self)@.len() ==> ends(final(self)@[i], d) == ends(old(self)@[i], d),
    { unimplemented!() }
    fn vx_at(&self, d: Delimiter) -> (r: bool)
        ensures r == (self@.len() > 0 && ends(self@[0], d)),
    { match self.current() { Some(l) => l.is_delimiter(d), None => false } }
    /// a comment, up to where it ends
    fn vx_discard_until(&mut self, d: Delimiter) -> (r: Ghost<Seq<int>>)
        ensures r@ + texts(final(self)@) == texts(old(self)@), final(self)@.len() > 0 ==> ends(final(self)@[0], d),
            (exists|i: int| 0 <= i < old(self)@.len() && ends(#[trigger] old(self)@[i], d)) ==> final(self)@.len() > 0,
    {
        let ghost mut t = Seq::<int>::empty();
        let ghost mut n = 0int;
        proof { assert(self@.skip(0) =~= self@); assert(t + texts(self@) =~= texts(self@)); }
        while let Some(line) = self.current()
            invariant t + texts(self@) == texts(old(self)@), 0 <= n <= old(self)@.len(), self@ == old(self)@.skip(n), forall|i: int| 0 <= i < n ==> !ends(#[trigger] old(self)@[i], d),
            ensures t + texts(self@) == texts(old(self)@), 0 <= n <= old(self)@.len(), self@ == old(self)@.skip(n), forall|i: int| 0 <= i < n ==> !ends(#[trigger] old(self)@[i], d), self@.len() > 0 ==> ends(self@[0], d),
            decreases self@.len(),
        {
            if line.is_delimiter(d) { break; }
            proof { assert(texts(self@) == text(self@[0]) + texts(self@.skip(1))); assert(t + (text(self@[0]) + texts(self@.skip(1))) =~= t + text(self@[0]) + texts(self@.skip(1))); t = t + text(self@[0]); assert(self@[0] == old(self)@[n]); n = n + 1; assert(self@.skip(1) =~= old(self)@.skip(n)); }
            self.consume_current();
        }
        Ghost(t)
    }
    #[verifier::external_body]
    fn consume_current_line_with_token(&mut self) -> (r: Option<Token>)
        ensures r.is_some() == (old(self)@.len() > 0 && ntok(old(self)@[0]) > 0), final(self)@ == (if old(self)@.len() > 0 { old(self)@.skip(1) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn last_loc(&self) -> (r: Option<SourceLocation>) { unimplemented!() }
    /// the quotes around a text: no line of it stops without them
    #[verifier::external_body]
    fn vx_unquote(&mut self, in_quote: bool) -> (r: SourceLocation)
        requires old(self)@.len() > 0, ntok(old(self)@[0]) > 0, !in_quote ==> kind0(old(self)@[0]) == Some(DoubleQuote),
        ensures final(self)@.len() == old(self)@.len(), texts(final(self)@) == texts(old(self)@), in_quote ==> final(self)@ == old(self)@,
            forall|i: int| 0 <= i < final(self)@.len() ==> (#[trigger] final(self)@[i] == old(self)@[i])
                || !full(final(self)@[i]) && (kind0(final(self)@[i]).is_none() || kind0(final(self)@[i]) == kind0(old(self)@[i]) || i == 0 && kind0(final(self)@[i]) != Some(DelimiterLine)) && (mark(final(self)@[i]).is_some() && i > 0 ==> mark(old(self)@[i]).is_some() && mark(final(self)@[i]) == mark(old(self)@[i])),
    { unimplemented!() }
    /// lines that are read together have no blank lines between them, where they don't start with one (trusted): no comment follows one
    #[verifier::external_body]
    fn vx_discard_empty(&mut self)
        requires old(self)@.len() > 0 ==> !comment(old(self)@[0]),
        ensures texts(final(self)@) == texts(old(self)@), final(self)@.len() > 0 ==> ntok(final(self)@[0]) > 0 && !comment(final(self)@[0]),
            old(self)@.len() > 0 && ntok(old(self)@[0]) > 0 ==> final(self)@ == old(self)@,
    { self.discard_leading_empty_lines() }
    fn vx_first_empty(&self) -> (r: bool) ensures r == (self@.len() > 0 && ntok(self@[0]) == 0),
    { match self.current() { Some(l) => l.is_empty(), None => false } }
    fn vx_last_empty(&self) -> (r: bool) ensures r == (self@.len() > 0 && ntok(self@.last()) == 0),
    { match self.last() { Some(l) => l.is_empty(), None => false } }
    #[verifier::external_body]
    fn last(&self) -> (r: Option<&Line>) ensures match r { Some(l) => self@.len() > 0 && *l == self@.last(), None => self@.len() == 0 }, { unimplemented!() }
    #[verifier::external_body]
    fn vx_any_ends(&self, d: Delimiter) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self@.len() && ends(#[trigger] self@[i], d)), { unimplemented!() }
    #[verifier::external_body]
    fn extend(&mut self, v: Vec<Line>) ensures final(self)@ == old(self)@ + v@, { unimplemented!() }
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn discard_leading_empty_lines
//@ sub self.current().is_some_and(|l| l.is_empty()) ==> self.vx_first_empty()
//@ loop 0
invariant self@.len() <= old(self)@.len(), texts(self@) == texts(old(self)@), old(self)@.len() > 0 && ntok(old(self)@[0]) > 0 ==> self@ == old(self)@,
ensures self@.len() > 0 ==> ntok(self@[0]) > 0,
decreases self@.len(),
//@ loopbody 0
    broadcast use line_axioms;
    proof { let vx_k = kind0(self@[0]); assert(Seq::<int>::empty() + texts(self@.skip(1)) =~= texts(self@.skip(1))); }
//@ spec
    ensures texts(final(self)@) == texts(old(self)@), final(self)@.len() <= old(self)@.len(), final(self)@.len() > 0 ==> ntok(final(self)@[0]) > 0,
        old(self)@.len() > 0 && ntok(old(self)@[0]) > 0 ==> final(self)@ == old(self)@,
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn starts_list
//@ sub self.lines.iter() ==> self.lines.vx_slice()
//@ sub continue; ==>
//@ for 0 slice
//@ body
    proof { assert(self@.skip(0) =~= self@); }
//@ loop 0
invariant vx_s0@ == self@, vx_i0 <= vx_s0.len(), behind_comments(self@.skip(vx_i0 as int)) == behind_comments(self@),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
broadcast use line_axioms;
proof { let vx_r = self@.skip(vx_i0 as int); assert(vx_r.skip(1) =~= self@.skip(vx_i0 + 1)); assert(vx_r[0] == self@[vx_i0 as int]); let vx_k = kind0(vx_r[0]); assert(comment(vx_r[0]) ==> mark(vx_r[0]).is_none()); }
//@ spec
    ensures r ==> behind_comments(self@).len() > 0 && mark(behind_comments(self@)[0]).is_some(),
//@end
    pub closed spec fn taken(&self) -> nat { self.lines.taken() }
    fn vx_new() -> (r: Self) ensures r@ == Seq::<Line>::empty(), r.taken() == 0, { ContiguousLines { lines: Deq::vx_new() } }
    #[verifier::external_body]
    fn first_loc(&self) -> (r: Option<SourceLocation>) ensures r.is_some() == (self@.len() > 0 && ntok(self@[0]) > 0), { unimplemented!() }
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn new
//@ spec
    ensures r@ == lines@, r.taken() == lines.taken(),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn push
//@ spec
    ensures final(self)@ == old(self)@.push(line), final(self).taken() == old(self).taken(),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn len
//@ spec
    ensures r == self@.len(),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn is_empty
//@ spec
    ensures r == (self@.len() == 0),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn current
//@ spec
    ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 },
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn first
//@ spec
    ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 },
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn nth
//@ spec
    ensures match r { Some(x) => n < self@.len() && *x == self@[n as int], None => n >= self@.len() },
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn consume_current
//@ spec
    ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) && final(self).taken() == old(self).taken() + 1, None => old(self)@.len() == 0 && final(self)@ == old(self)@ && final(self).taken() == old(self).taken() },
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn restore_if_nonempty
//@ spec
    requires old(self).taken() > 0,
    ensures final(self)@ == (if ntok(line) == 0 { old(self)@ } else { seq![line] + old(self)@ }), texts(final(self)@) =~= text(line) + texts(old(self)@),
//@ body
    broadcast use line_axioms;
    proof { texts_front(old(self)@, line); let vx_k = kind0(line); }
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn starts_extra_description_list_term
//@ sub self.lines.iter() ==> self.lines.vx_slice()
//@ sub continue; ==>
//@ for 0 slice
//@ body
    proof { assert(self@.skip(0) =~= self@); }
//@ loop 0
invariant vx_s0@ == self@, vx_i0 <= vx_s0.len(), behind_comments(self@.skip(vx_i0 as int)) == behind_comments(self@),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
broadcast use line_axioms;
proof { let vx_r = self@.skip(vx_i0 as int); assert(vx_r.skip(1) =~= self@.skip(vx_i0 + 1)); assert(vx_r[0] == self@[vx_i0 as int]); let vx_k = kind0(vx_r[0]); assert(comment(vx_r[0]) ==> mark(vx_r[0]).is_none()); }
//@ spec
    ensures r ==> behind_comments(self@).len() > 0 && mark(behind_comments(self@)[0]) == Some(ctx),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn discard_leading_comment_lines
//@ sub SourceLocation::default() ==> SourceLocation { x: 0 }
//@ loop 0
invariant behind_comments(self@) == behind_comments(old(self)@),
ensures !(self@.len() > 0 && comment(self@[0])), behind_comments(self@) == behind_comments(old(self)@),
decreases self@.len(),
//@ loopbody 0
broadcast use line_axioms;
proof { let vx_k = kind0(self@[0]); assert(comment(self@[0])); assert(ntok(self@[0]) > 0); }
//@ spec
    ensures final(self)@ == behind_comments(old(self)@),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn starts_list_continuation
//@ spec
    ensures r == (self@.len() >= 2 && plus_line(self@[0])),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn starts_nested_list
//@ optchain
//@ spec
    ensures
        r ==> self@.len() > 0 && (mark(self@[0]).is_some() && nests(stack@, mark(self@[0]).unwrap())
            || allow_attrs && attr_line(self@[0]) && self@.len() > 1 && mark(self@[1]).is_some() && nests(stack@, mark(self@[1]).unwrap())),
        self@.len() > 0 && !attr_line(self@[0]) ==> r == (mark(self@[0]).is_some() && nests(stack@, mark(self@[0]).unwrap())),
//@end
//@extract parser/src/contiguous_lines.rs :: impl ContiguousLines :: fn starts_with_comment_line
//@ optchain
//@ spec
    ensures r == (self@.len() > 0 && comment(self@[0])),
//@end
}
pub struct SourceString { pub loc: SourceLocation }
#[verifier::external_body]
pub struct InlineNodes { x: u8 }
pub uninterp spec fn nodes_text(n: InlineNodes) -> Seq<int>;
#[verifier::external_body]
pub struct ChunkMeta { x: u8 }
pub uninterp spec fn meta_text(m: ChunkMeta) -> Seq<int>;

#[verifier::external_body]
pub struct SectionId { x: u8 }
pub struct Section { pub meta: ChunkMeta, pub level: u8, pub id: Option<SectionId>, pub heading: InlineNodes, pub blocks: Vec<Block>, pub loc: MultiSourceLocation }
pub struct PeekedSection { pub meta: ChunkMeta, pub lines: ContiguousLines, pub semantic_level: u8, pub authored_level: u8 }
pub open spec fn no_section(b: Option<Block>) -> bool { b.is_some() && b.unwrap().context == BlockContext::Section ==> !(b.unwrap().content is Section) }
/// sections in it are of a level below
pub open spec fn below(b: Option<Block>, l: int) -> bool { no_section(b) || b.unwrap().content->Section_0.level > l }
pub open spec fn nested(s: Section) -> bool { forall|i: int| 0 <= i < s.blocks@.len() ==> below(Some(#[trigger] s.blocks@[i]), s.level as int) }
#[verifier::external_body]
pub struct EmptyMetadata { x: u8 }
/// what stands for a part of the source by itself: a break, a macro, a comment
#[verifier::external_body]
fn vx_stands(t: Ghost<Seq<int>>) -> (r: EmptyMetadata) ensures empty_text(r) == t@, { unimplemented!() }
#[verifier::external_body]
pub struct Callouts { x: u8 }
impl Callouts {
    #[verifier::external_body]
    fn is_empty(&self) -> bool { unimplemented!() }
}
pub enum ListItemTypeMeta {
    Checklist(bool, SourceString),
    Callout(Callouts),
    DescList { description: Option<Block>, extra_terms: Vec<(InlineNodes, SourceString)> },
    None,
}
pub struct ListItem { pub marker: ListMarker, pub marker_src: SourceString, pub principle: InlineNodes, pub type_meta: ListItemTypeMeta, pub blocks: Vec<Block> }
pub struct Block { pub meta: ChunkMeta, pub content: BlockContent, pub context: BlockContext, pub loc: MultiSourceLocation }
pub enum BlockContent {
    Compound(Vec<Block>),
    Simple(InlineNodes),
    Empty(EmptyMetadata),
    Section(Section),
    List { variant: ListVariant, depth: u8, items: Vec<ListItem> },
    QuotedParagraph { quote: InlineNodes, attr: InlineNodes, cite: Option<InlineNodes> },
    Other,
}
// ---- the text of the tree, in the order a back end goes through it ----
pub uninterp spec fn block_text(b: Block) -> Seq<int>;
pub uninterp spec fn item_text(i: ListItem) -> Seq<int>;
pub uninterp spec fn empty_text(e: EmptyMetadata) -> Seq<int>;
pub open spec fn blocks_text(s: Seq<Block>) -> Seq<int>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { blocks_text(s.drop_last()) + block_text(s.last()) } }
pub open spec fn items_text(s: Seq<ListItem>) -> Seq<int>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { items_text(s.drop_last()) + item_text(s.last()) } }
pub open spec fn terms_text(s: Seq<(InlineNodes, SourceString)>) -> Seq<int>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { terms_text(s.drop_last()) + nodes_text(s.last().0) } }
pub open spec fn opt_text(b: Option<Block>) -> Seq<int> { match b { Some(b) => block_text(b), None => Seq::empty() } }
pub open spec fn section_text(s: Section) -> Seq<int> { meta_text(s.meta) + nodes_text(s.heading) + blocks_text(s.blocks@) }
pub open spec fn content_text(c: BlockContent) -> Seq<int> {
    match c {
        BlockContent::Compound(b) => blocks_text(b@),
        BlockContent::Simple(n) => nodes_text(n),
        BlockContent::Empty(e) => empty_text(e),
        BlockContent::Section(s) => section_text(s),
        BlockContent::List { items, .. } => items_text(items@),
        BlockContent::QuotedParagraph { quote, attr, cite } => nodes_text(quote) + nodes_text(attr) + opt_nodes(cite),
        BlockContent::Other => Seq::empty(),
    }
}
pub open spec fn opt_nodes(n: Option<InlineNodes>) -> Seq<int> { match n { Some(n) => nodes_text(n), None => Seq::empty() } }
pub open spec fn kind_text(m: ListItemTypeMeta) -> Seq<int> {
    match m { ListItemTypeMeta::DescList { description, extra_terms } => terms_text(extra_terms@) + opt_text(description), _ => Seq::empty() }
}
/// the text of a tree is that of its parts (definition; the tree is finite)
pub axiom fn block_is(b: Block)
    ensures block_text(b) == meta_text(b.meta) + content_text(b.content);
pub axiom fn item_is(i: ListItem)
    ensures item_text(i) == nodes_text(i.principle) + kind_text(i.type_meta) + blocks_text(i.blocks@);
pub broadcast proof fn vx_assoc(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn vx_nil_l(a: Seq<int>)
    ensures #[trigger] (Seq::<int>::empty() + a) == a,
{ assert(Seq::<int>::empty() + a =~= a); }
pub broadcast proof fn vx_nil_r(a: Seq<int>)
    ensures #[trigger] (a + Seq::<int>::empty()) == a,
{ assert(a + Seq::<int>::empty() =~= a); }
pub broadcast proof fn vx_no_lines(s: Seq<Line>)
    ensures s.len() == 0 ==> #[trigger] texts(s) == Seq::<int>::empty(),
{ }
pub broadcast proof fn vx_first_line(s: Seq<Line>)
    ensures s.len() > 0 ==> texts(s) == text(s[0]) + #[trigger] texts(s.skip(1)),
{ }
pub broadcast group vx_words { vx_assoc, vx_nil_l, vx_nil_r, vx_no_lines, vx_first_line, blocks_push, terms_push }
pub broadcast proof fn blocks_push(s: Seq<Block>, b: Block)
    ensures #[trigger] blocks_text(s.push(b)) == blocks_text(s) + block_text(b),
{ assert(s.push(b).drop_last() =~= s); }
proof fn items_push(s: Seq<ListItem>, b: ListItem)
    ensures items_text(s.push(b)) == items_text(s) + item_text(b),
{ assert(s.push(b).drop_last() =~= s); }
pub broadcast proof fn terms_push(s: Seq<(InlineNodes, SourceString)>, b: (InlineNodes, SourceString))
    ensures #[trigger] terms_text(s.push(b)) == terms_text(s) + nodes_text(b.0),
{ assert(s.push(b).drop_last() =~= s); }
impl InlineNodes {
    /// nothing of a text is nothing
    #[verifier::external_body]
    fn vx_loc(&self, consumed: Option<SourceLocation>) -> (r: Option<MultiSourceLocation>)
        ensures r.is_none() ==> nodes_text(*self) =~= Seq::<int>::empty(), consumed.is_some() ==> r.is_some(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_into(l: SourceLocation) -> MultiSourceLocation { unimplemented!() }
#[verifier::external_body]
fn vx_section_loc(s: &Section) -> MultiSourceLocation { unimplemented!() }
impl ChunkMeta {
    /// what lines of attributes and titles say is of the block behind them
    #[verifier::external_body]
    fn vx_of(a: MultiAttrList, t: Option<InlineNodes>, l: SourceLocation, s: Ghost<Seq<int>>) -> (r: ChunkMeta) ensures meta_text(r) == s@, { unimplemented!() }
    #[verifier::external_body]
    fn vx_style(&self) -> BlockContext { unimplemented!() }
    #[verifier::external_body]
    fn vx_indent(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    fn vx_named(&self) -> Option<u8> { unimplemented!() }
    #[verifier::external_body]
    fn vx_start(&self) -> SourceLocation { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == no_meta(*self), r ==> meta_text(*self) =~= Seq::<int>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn vx_discrete(&self) -> bool { unimplemented!() }
    /// a label as `NOTE:` is what the context is, and isn't of the text
    #[verifier::external_body]
    fn block_paragraph_context(&self, lines: &mut ContiguousLines) -> (r: BlockContext)
        ensures final(lines)@.len() == old(lines)@.len(), texts(final(lines)@) == texts(old(lines)@),
            old(lines)@.len() > 0 && kind0(final(lines)@[0]) == Some(DelimiterLine) ==> kind0(old(lines)@[0]) == Some(DelimiterLine),
            old(lines)@.len() > 0 && ntok(old(lines)@[0]) > 0 ==> ntok(final(lines)@[0]) > 0,
        { unimplemented!() }
    #[verifier::external_body]
    fn empty(l: SourceLocation, b: Bump) -> (r: ChunkMeta) ensures meta_text(r) =~= Seq::<int>::empty(), { unimplemented!() }
}
impl ListItem {
    #[verifier::external_body]
    fn last_loc(&self) -> Option<SourceLocation> { unimplemented!() }
}
impl ListVariant {
    #[verifier::external_body]
    fn to_context(&self) -> (r: BlockContext) ensures r != BlockContext::Comment, { unimplemented!() }
}

// ---- the parser: what is still to be read ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum BiblioContext { Section, List, None }
pub struct ParseContext { pub list: ListContext, pub delimiter: Option<Delimiter>, pub can_nest_blocks: bool, pub bibliography_ctx: BiblioContext, pub section_level: u8, pub subs: Subs, pub in_markdown_blockquote: bool, pub saw_toc_macro: bool }
#[verifier::external_body]
pub struct Subs { x: u8 }
/// a section starts here, below the title and the parts of a document
pub open spec fn section_at(s: Seq<Line>) -> bool { s.len() > 0 && heading(s[0]) && level_at(s[0]).unwrap() > 1 }
/// the rest of the source, and of what is quoted
#[verifier::external_body]
pub struct Source { x: u8 }
pub uninterp spec fn no_meta(m: ChunkMeta) -> bool;
pub uninterp spec fn source_text(s: Source) -> Seq<int>;
/// the line to be read next is this delimiter
pub uninterp spec fn source_closes(s: Source, d: Delimiter) -> bool;
pub struct Parser {
    pub ctx: ParseContext,
    pub peeked_lines: Option<ContiguousLines>,
    pub peeked_meta: Option<ChunkMeta>,
    pub source: Source,
    /// attributes or a title that belong to no block have been reported
    pub unattached: Ghost<bool>,
}
pub open spec fn peeked(p: Parser) -> Seq<Line> { match p.peeked_lines { Some(l) => l@, None => Seq::empty() } }
pub open spec fn lines_left(p: Parser) -> Seq<int> { texts(peeked(p)) + source_text(p.source) }
pub open spec fn rest(p: Parser) -> Seq<int> { match p.peeked_meta { Some(m) => meta_text(m) + lines_left(p), None => lines_left(p) } }
/// `out` is what has been parsed between the two states: nothing is lost, nothing is there twice, and the order is that of the source
pub open spec fn parsed(a: Parser, out: Seq<int>, b: Parser) -> bool { b.unattached@ || !a.unattached@ && out + rest(b) == rest(a) }
/// attributes that have been read belong to what is to be read next, which is no list item (a section)
pub open spec fn meta_ok(p: Parser) -> bool {
    p.ctx.can_nest_blocks && meta_next(p)
}
pub open spec fn meta_next(p: Parser) -> bool {
    p.peeked_meta.is_some() ==> peeked(p).len() > 0 && ntok(peeked(p)[0]) > 0 && mark(peeked(p)[0]).is_none() && !plus_line(peeked(p)[0]) && !attr_line(peeked(p)[0]) && !comment(peeked(p)[0]) && !titled(peeked(p)[0])
}
/// lists and blocks that are being parsed are the same
pub open spec fn same_ctx(a: ParseContext, b: ParseContext) -> bool { a.list == b.list && a.delimiter == b.delimiter && a.can_nest_blocks == b.can_nest_blocks && a.in_markdown_blockquote == b.in_markdown_blockquote && a.section_level == b.section_level }
pub open spec fn around(a: Parser, b: Parser) -> bool {
    a.ctx.list.stack@ == b.ctx.list.stack@ && a.ctx.list.parsing_continuations == b.ctx.list.parsing_continuations && a.ctx.list.outer_depth == b.ctx.list.outer_depth
    && a.ctx.delimiter == b.ctx.delimiter && a.ctx.can_nest_blocks == b.ctx.can_nest_blocks && a.ctx.in_markdown_blockquote == b.ctx.in_markdown_blockquote && a.ctx.section_level == b.ctx.section_level
}
pub open spec fn same(a: Parser, b: Parser) -> bool { around(a, b) && a.peeked_lines == b.peeked_lines && a.peeked_meta == b.peeked_meta && a.source == b.source && a.unattached == b.unattached }
proof fn parsed_trans(a: Parser, x: Seq<int>, b: Parser, y: Seq<int>, c: Parser)
    requires parsed(a, x, b), parsed(b, y, c),
    ensures parsed(a, x + y, c),
{ assert(x + (y + rest(c)) =~= x + y + rest(c)); }
/// a block `b` of the lines in hand, with the attributes in front of it
pub open spec fn read(a: Parser, meta: ChunkMeta, lines: Seq<Line>, b: Option<Block>, z: Parser) -> bool {
    around(a, z) && meta_next(z) && no_section(b) && behind(a, meta_text(meta) + texts(lines) + source_text(a.source), opt_text(b), z)
}
/// a text in quotes, or in what is quoted, and behind it whose it is
pub open spec fn quoted(s: Seq<Line>, in_quote: bool) -> bool {
    s.len() >= 2 && ntok(s[0]) > 0 && !plus_line(s[0]) && (!in_quote ==> kind0(s[0]) == Some(DoubleQuote)) && kind0(s.last()) == Some(Dashes) && ntok(s.last()) > 2
}
/// a line goes on with what it is part of where its quotes are gone
proof fn goes_on_unquoted(p: Parser, l: Line, was: Line, first: bool)
    requires
        l == was || !full(l) && (kind0(l).is_none() || kind0(l) == kind0(was) || first && kind0(l) != Some(DelimiterLine)) && (mark(l).is_some() && !first ==> mark(l) == mark(was)),
        kind0(was) != Some(DelimiterLine), first ==> !plus_line(was), !first ==> !stops(p, was, false),
    ensures !stops(p, l, first),
{
    broadcast use line_axioms;
    let k = kind0(l);
    let k = kind0(was);
    assert(delim(l).is_none());
}
proof fn vx_quoted_is(b: Block, s: Seq<Line>, quote: Seq<int>, attribution: Seq<int>)
    requires
        s.len() > 0, texts(s.drop_last()) == quote, text(s.last()) == attribution,
        b.content matches BlockContent::QuotedParagraph { quote: q, attr: a, cite: c } && nodes_text(q) == quote && nodes_text(a) + opt_nodes(c) == attribution,
    ensures content_text(b.content) == texts(s),
{
    assert(s =~= s.drop_last().push(s.last())); texts_push(s.drop_last(), s.last());
    if let BlockContent::QuotedParagraph { quote: q, attr: a, cite: c } = b.content { assert(nodes_text(q) + nodes_text(a) + opt_nodes(c) =~= nodes_text(q) + (nodes_text(a) + opt_nodes(c))); }
}
pub open spec fn in_desc(p: Parser) -> bool { p.ctx.list.stack@.len() > 0 && is_desc(p.ctx.list.stack@.last()) }
/// where the text of a paragraph or of an item ends
pub open spec fn stops(p: Parser, l: Line, first: bool) -> bool {
    (kind0(l) == Some(DelimiterLine) && p.ctx.can_nest_blocks)
    || ((attr_line(l) || anchor_line(l)) && p.ctx.can_nest_blocks && !first)
    || (in_desc(p) && (plus_line(l) || mark(l).is_some() && !first))
    || (p.ctx.list.parsing_continuations && (plus_line(l) || mark(l).is_some() && p.ctx.list.stack@.len() > 0 && !nests(p.ctx.list.stack@, mark(l).unwrap()) && !first))
    || closes(p, l)
}
/// a line that declares an attribute
#[verifier::external_body]
fn vx_attr_decl(l: &Line) -> bool { unimplemented!() }
pub open spec fn opt_line(l: Option<Line>) -> Seq<int> { match l { Some(l) => text(l), None => Seq::empty() } }
proof fn shift(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>, all: Seq<int>)
    requires a + b + Seq::<int>::empty() + (c + d) == all,
    ensures a + (b + c) + Seq::<int>::empty() + d == all,
{ assert(a + b + Seq::<int>::empty() + (c + d) =~= a + (b + c) + Seq::<int>::empty() + d); }
proof fn shift2(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>, all: Seq<int>)
    requires a + b + Seq::<int>::empty() + (c + d) == all,
    ensures a + b + c + d == all,
{ assert(a + b + Seq::<int>::empty() + (c + d) =~= a + b + c + d); }
#[verifier::external_body]
proof fn vx_no_blanks(s: Seq<Line>) ensures behind_comments(s).len() > 0 ==> ntok(behind_comments(s)[0]) > 0, { }
/// lines that are read together have no blank ones between them (assumed)
#[verifier::external_body]
fn vx_no_blank(l: &ContiguousLines) ensures l@.len() > 0 ==> ntok(l@[0]) > 0, { }
proof fn took(t: Seq<int>, l: Seq<Line>, all: Seq<int>)
    requires t + texts(l) == all, l.len() > 0,
    ensures t + text(l[0]) + texts(l.skip(1)) == all,
{ assert(t + (text(l[0]) + texts(l.skip(1))) =~= t + text(l[0]) + texts(l.skip(1))); }
#[verifier::external_body]
pub struct AttrList { x: u8 }
#[verifier::external_body]
pub struct MultiAttrList { x: u8 }
impl MultiAttrList {
    #[verifier::external_body]
    fn vx_new() -> Self { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, a: AttrList) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push_anchor(&mut self, a: AnchorSrc) { unimplemented!() }
}
#[verifier::external_body]
pub struct AnchorSrc { x: u8 }
pub open spec fn rest_of(p: Parser) -> Seq<int> { rest(p) }
pub open spec fn ends(l: Line, d: Delimiter) -> bool { ntok(l) == 1 && delim(l) == Some(d) }
/// inside of a delimited block, and of no list in it
pub open spec fn fresh(p: Parser) -> bool { p.ctx.list.stack@.len() == 0 && !p.ctx.list.parsing_continuations && p.ctx.delimiter.is_some() && p.ctx.can_nest_blocks }
/// nothing is left, or its delimiter comes next
pub open spec fn ended(p: Parser) -> bool {
    p.peeked_meta.is_none() && (p.unattached@ || lines_left(p).len() == 0 || peeked(p).len() > 0 && closes(p, peeked(p)[0]) || peeked(p).len() == 0 && source_closes(p.source, p.ctx.delimiter.unwrap()))
}
/// a quote in a quote is one of them
proof fn one_quote(q: Block, m: ChunkMeta, p: Seq<int>)
    ensures
        meta_text(m).len() == 0 ==> meta_text(m) + p == p,
        meta_text(q.meta).len() == 0 && block_text(q) == p ==> content_text(q.content) == p,
{
    block_is(q);
    assert(meta_text(m).len() == 0 ==> meta_text(m) + p =~= p);
    assert(meta_text(q.meta).len() == 0 ==> meta_text(q.meta) + content_text(q.content) =~= content_text(q.content));
}
proof fn none_of(a: Seq<int>, b: Seq<int>) requires (a + b).len() == 0, ensures a =~= Seq::<int>::empty(), b =~= Seq::<int>::empty(), { assert((a + b).len() == a.len() + b.len()); }
/// what is left of lines is what is behind the end of their text
pub open spec fn up_to(p: Parser, s: Seq<Line>, left: Seq<Line>) -> bool {
    left.len() <= s.len() && left == s.skip(s.len() - left.len())
    && (forall|i: int| 0 <= i < s.len() - left.len() ==> !stops(p, #[trigger] s[i], i == 0))
    && (left.len() > 0 ==> stops(p, left[0], left.len() == s.len()))
}
/// the line that closes what is being read
pub open spec fn closes(p: Parser, l: Line) -> bool { p.ctx.delimiter.is_some() && ntok(l) == 1 && p.ctx.delimiter == delim(l) }
fn vx_swap_lists(a: &mut ListContext, b: ListContext) -> (r: ListContext)
    ensures *final(a) == b, r == *old(a),
{ let mut c = b; core::mem::swap(a, &mut c); c }
fn vx_swap_bool(a: &mut bool, b: bool) -> (r: bool)
    ensures *final(a) == b, r == *old(a),
{ let mut c = b; core::mem::swap(a, &mut c); c }
fn vx_swap_delimiter(a: &mut Option<Delimiter>, d: Delimiter) -> (r: Option<Delimiter>)
    ensures *final(a) == Some(d), r == *old(a),
{ let r = *a; *a = Some(d); r }
impl ParseContext {
/// no list it is in goes on inside of a block
//@extract parser/src/parse_context.rs :: impl ParseContext :: fn begin_inner_lists
//@ sub ..ListContext::default() ==> stack: ListStack(Vec::new()), parsing_continuations: false
//@ sub std::mem::replace(&mut self.list, inner) ==> vx_swap_lists(&mut self.list, inner)
//@ spec
    ensures r == old(self).list, final(self).list.stack@.len() == 0, !final(self).list.parsing_continuations,
        final(self).delimiter == old(self).delimiter, final(self).can_nest_blocks == old(self).can_nest_blocks, final(self).in_markdown_blockquote == old(self).in_markdown_blockquote, final(self).section_level == old(self).section_level,
//@end
//@extract parser/src/parse_context.rs :: impl ParseContext :: fn parsing_description_list
//@ optchain
//@ spec
    ensures r == (self.list.stack@.len() > 0 && is_desc(self.list.stack@.last())),
//@end
    fn parsing_simple_desc_def(&self) -> (r: bool) ensures r ==> self.list.stack@.len() > 0, { if self.list.parsing_continuations || self.list.stack.is_empty() { false } else { self.parsing_description_list() } }
    #[verifier::external_body]
    fn set_subs_for(&mut self, c: BlockContext, m: &ChunkMeta) -> (r: Subs)
        ensures same_ctx(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_callouts(&self, n: u8) -> Callouts { unimplemented!() }
    #[verifier::external_body]
    fn advance_callout_list(&mut self, b: Bump) ensures *final(self) == *old(self), { unimplemented!() }
}
#[verifier::external_body]
fn vx_bibliography(m: &Option<ChunkMeta>) -> bool { unimplemented!() }
impl Parser {
    #[verifier::external_body]
    fn err_at(&self, m: VxMsg, l: SourceLocation) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn err_line(&self, m: &str, l: &Line) -> Result<()> { unimplemented!() }
    /// the next line of the source (trusted; the lines of the source are those of unit `lines`)
    #[verifier::external_body]
    fn read_line(&mut self) -> (r: Result<Option<Line>>)
        requires old(self).peeked_lines.is_none(),
        ensures match r {
            Ok(Some(l)) => around(*old(self), *final(self)) && final(self).peeked_lines.is_none() && final(self).peeked_meta == old(self).peeked_meta && final(self).unattached == old(self).unattached
                && text(l) + source_text(final(self).source) == source_text(old(self).source)
                && (forall|d: Delimiter| #[trigger] source_closes(old(self).source, d) ==> ends(l, d)),
            Ok(None) => around(*old(self), *final(self)) && final(self).peeked_lines.is_none() && final(self).peeked_meta == old(self).peeked_meta && final(self).unattached == old(self).unattached
                && source_text(old(self).source).len() == 0 && source_text(final(self).source).len() == 0
                && (forall|d: Delimiter| !#[trigger] source_closes(old(self).source, d)),
            Err(_) => true,
        },
    { unimplemented!() }
    /// blank lines hold nothing
    #[verifier::external_body]
    fn vx_consume_empty_lines(&mut self)
        ensures around(*old(self), *final(self)), final(self).peeked_lines == old(self).peeked_lines, final(self).peeked_meta == old(self).peeked_meta, final(self).unattached == old(self).unattached,
            source_text(final(self).source) == source_text(old(self).source), forall|d: Delimiter| #[trigger] source_closes(old(self).source, d) ==> source_closes(final(self).source, d),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_unread_newline(&mut self)
        ensures around(*old(self), *final(self)), final(self).peeked_lines == old(self).peeked_lines, final(self).peeked_meta == old(self).peeked_meta, final(self).unattached == old(self).unattached,
            source_text(final(self).source) == source_text(old(self).source),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_eof(&self) -> (r: bool)
        ensures r ==> source_text(self.source).len() == 0, r ==> forall|d: Delimiter| !#[trigger] source_closes(self.source, d),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_quoted(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn vx_flag(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn vx_between(&self, l: &Deq<Line>) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn at_delimiter(&self, d: Delimiter) -> (r: bool) ensures r ==> source_closes(self.source, d), { unimplemented!() }
/// the next lines that aren't blank: all of what they hold
//@extract parser/src/parser.rs :: impl Parser :: fn read_lines
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub self.ctx.verbatim_delimiter = self.ctx.delimiter.filter($x); ==>
//@ sub peeked.discard_until(|line| !line.is_empty()); ==>  peeked.discard_leading_empty_lines();
//@ sub self.quoted_lines.is_some() ==> self.vx_is_quoted()
//@ sub self.lexer.consume_empty_lines(); ==> self.vx_consume_empty_lines();
//@ sub self.lexer.is_eof() ==> self.vx_is_eof()
//@ sub Deq::new($x) ==> Deq::vx_new()
//@ sub self.within_table = false; ==>
//@ sub while let Some(line) = self.read_line()? { $x } ==> loop { let vx_l = self.read_line()?; let Some(line) = vx_l else { break; }; $x }
//@ sub self.lexer.unread_newline(); ==> self.vx_unread_newline();
//@ sub self.ctx.track_verbatim_delimiter(&line); ==>
//@ sub if self.ctx.verbatim_delimiter.is_none() && line.is_table_delimiter() { $x } ==>
//@ sub line.is_attr_decl() ==> vx_attr_decl(&line)
//@ sub lines.push(line); ==> let ghost vx_ls = lines@; proof { texts_push(lines@, line); } lines.push(line); proof { let vx_s1 = texts(vx_ls); let vx_s2 = text(line); let vx_s3 = source_text(self.source); assert(vx_s1 + (vx_s2 + vx_s3) =~= vx_s1 + vx_s2 + vx_s3); }
//@ sub self.lexer.at_newline() ==> self.vx_flag()
//@ sub !self.ctx.in_header && self.ctx.verbatim_delimiter.is_none() ==> self.vx_flag()
//@ sub lines.iter().fold($x) ==> self.vx_between(&lines)
//@ body
    broadcast use line_axioms;
    proof { assert(texts(Seq::<Line>::empty()) =~= Seq::<int>::empty()); assert(Seq::<int>::empty() + source_text(self.source) =~= source_text(self.source)); if peeked(*self).len() > 0 { let vx_k = kind0(peeked(*self)[0]); } }
//@ before let mut lines = Deq
    let ghost vx_a = *self;
    proof { assert(source_text(self.source) == lines_left(*old(self))); }
//@ loop 0
invariant_except_break
    lines@.len() == 0 ==> (forall|d: Delimiter| #[trigger] source_closes(vx_a.source, d) ==> source_closes(self.source, d)),
invariant self.peeked_lines.is_none(), self.peeked_meta == old(self).peeked_meta, around(*old(self), *self), self.unattached == old(self).unattached,
    texts(lines@) + source_text(self.source) == lines_left(*old(self)),
    lines@.len() > 0 ==> ntok(lines@[0]) > 0 && (forall|d: Delimiter| #[trigger] source_closes(vx_a.source, d) ==> ends(lines@[0], d)),
ensures lines@.len() == 0 ==> source_text(self.source).len() == 0 && (forall|d: Delimiter| !#[trigger] source_closes(vx_a.source, d)),
//@ loopbody 0
    broadcast use line_axioms;
    let ghost vx_before = source_text(self.source);
    proof { assert(Seq::<int>::empty() + source_text(self.source) =~= source_text(self.source)); }
//@ before if line.is_emptyish()
    proof { let vx_k = kind0(line); assert(Seq::<int>::empty() + source_text(self.source) =~= source_text(self.source)); }
//@ spec
        ensures match r {
            Ok(Some(lines)) => lines@.len() > 0 && ntok(lines@[0]) > 0 && final(self).peeked_lines.is_none() && final(self).peeked_meta == old(self).peeked_meta && around(*old(self), *final(self))
                && final(self).unattached == old(self).unattached && texts(lines@) + source_text(final(self).source) == lines_left(*old(self))
                && (peeked(*old(self)).len() > 0 && ntok(peeked(*old(self))[0]) > 0 ==> lines@ == peeked(*old(self)))
                && (peeked(*old(self)).len() == 0 && old(self).ctx.delimiter.is_some() && source_closes(old(self).source, old(self).ctx.delimiter.unwrap()) ==> closes(*old(self), lines@[0])),
            Ok(None) => final(self).peeked_lines.is_none() && final(self).peeked_meta == old(self).peeked_meta && around(*old(self), *final(self))
                && final(self).unattached == old(self).unattached && lines_left(*final(self)) == lines_left(*old(self)) && lines_left(*final(self)).len() == 0
                && !(peeked(*old(self)).len() == 0 && old(self).ctx.delimiter.is_some() && source_closes(old(self).source, old(self).ctx.delimiter.unwrap()))
                && !(peeked(*old(self)).len() > 0 && ntok(peeked(*old(self))[0]) > 0),
            Err(_) => true,
        },
//@end
    /// the text of lines none of which ends it (see unit `subs`)
    #[verifier::external_body]
    fn vx_inlines(&mut self, lines: &mut ContiguousLines) -> (r: Result<InlineNodes>)
        ensures match r {
            Ok(n) => same(*old(self), *final(self)) && nodes_text(n) + texts(final(lines)@) == texts(old(lines)@)
                && ((forall|i: int| 0 <= i < old(lines)@.len() ==> !stops(*old(self), #[trigger] old(lines)@[i], i == 0)) ==> final(lines)@.len() == 0)
                && (old(lines)@.len() > 0 && stops(*old(self), old(lines)@[0], true) ==> final(lines)@ == old(lines)@),
            Err(_) => true,
        },
    { unimplemented!() }
/// the text of lines, up to where it ends
//@extract parser/src/tasks/parse_inlines/mod.rs :: impl Parser :: fn parse_inlines
//@ sub self.parse_inlines_until(lines, &[]) ==> self.vx_inlines(lines)
//@ body
    let ghost vx_all = lines@;
//@ before let inlines
    let ghost vx_l = lines@;
    let ghost vx_r = rest@;
//@ loop 0
invariant lines@ + rest@ == vx_m + vx_r,
ensures rest@.len() == 0,
decreases rest@.len(),
//@ loopbody 0
    proof { assert(lines@.push(line) + rest@ =~= lines@ + (seq![line] + rest@)); }
//@ before while let Some
    let ghost vx_m = lines@;
//@ before Ok(inlines)
    proof {
        assert(rest@.len() == 0); assert(lines@ + rest@ =~= lines@); assert(vx_l + vx_r =~= vx_all);
        texts_cat(vx_m, vx_r); texts_cat(vx_l, vx_r);
        assert(nodes_text(inlines) + (texts(vx_m) + texts(vx_r)) =~= nodes_text(inlines) + texts(vx_m) + texts(vx_r));
        if vx_m.len() == 0 { assert(vx_m + vx_r =~= vx_r); assert(vx_all.skip(vx_l.len() as int) =~= vx_r); } else { assert(vx_all.skip(0) =~= vx_all); }
    }
//@ spec
    ensures match r {
        Ok(n) => same(*old(self), *final(self)) && nodes_text(n) + texts(final(lines)@) == texts(old(lines)@) && up_to(*old(self), old(lines)@, final(lines)@),
        Err(_) => true,
    },
//@end
//@extract parser/src/parser.rs :: impl Parser :: fn restore_peeked_meta
//@ spec
    requires old(self).peeked_meta.is_none(),
    ensures around(*old(self), *final(self)), final(self).unattached == old(self).unattached, final(self).peeked_lines == old(self).peeked_lines, final(self).source == old(self).source,
        rest(*final(self)) =~= meta_text(meta) + lines_left(*old(self)),
//@end
//@extract parser/src/parser.rs :: impl Parser :: fn restore_peeked
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(),
    ensures around(*old(self), *final(self)), final(self).unattached == old(self).unattached, peeked(*final(self)) =~= lines@, final(self).source == old(self).source,
        rest(*final(self)) =~= meta_text(meta) + (texts(lines@) + source_text(old(self).source)),
//@end
/// all lines up to a delimiter
//@extract parser/src/parser.rs :: impl Parser :: fn read_lines_until
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub self.ctx.verbatim_delimiter = Some(delimiter).filter($x); ==>
//@ sub lines.discard_until(|line| !line.is_empty()); ==> lines.discard_leading_empty_lines();
//@ sub self.lexer.consume_empty_lines(); ==> self.vx_consume_empty_lines();
//@ sub self.lexer.is_eof() ==> self.vx_is_eof()
//@ sub lines.any(|l| l.is_delimiter(delimiter)) ==> lines.vx_any_ends(delimiter)
//@ sub lines.last().map(|l| l.is_empty()) == Some(true) ==> lines.vx_last_empty()
//@ sub let mut additional_lines = ==> let mut additional_lines: Vec<Line> =
//@ sub let mut closing_line = None; ==> let mut closing_line: Option<Line> = None;
//@ sub => closing_line = Some(line), ==> => { proof { shift2(texts(lines@), texts(vx_ad), text(line), source_text(self.source), lines_left(*old(self))); } closing_line = Some(line); },
//@ sub additional_lines.is_empty() => {} ==> additional_lines.is_empty() => { proof { let vx_k = kind0(line); assert(text(line) + source_text(self.source) =~= source_text(self.source)); } }
//@ sub Some(line) => additional_lines.push(line), ==> Some(line) => { proof { texts_push(additional_lines@, line); } additional_lines.push(line); proof { shift(texts(lines@), texts(vx_ad), text(line), source_text(self.source), lines_left(*old(self))); } },
//@ body
    broadcast use line_axioms;
    proof { assert(texts(Seq::<Line>::empty()) =~= Seq::<int>::empty()); assert(Seq::<int>::empty() + source_text(self.source) =~= source_text(self.source)); }
//@ before while closing_line
    proof { assert(texts(lines@) + Seq::<int>::empty() =~= texts(lines@)); assert(opt_line(closing_line) =~= Seq::<int>::empty()); }
//@ loop 0
invariant self.peeked_lines.is_none(), self.peeked_meta == old(self).peeked_meta, around(*old(self), *self), self.unattached == old(self).unattached,
    texts(lines@) + texts(additional_lines@) + opt_line(closing_line) + source_text(self.source) == lines_left(*old(self)),
    closing_line.is_some() ==> ends(closing_line.unwrap(), delimiter),
ensures closing_line.is_some() || source_text(self.source).len() == 0 || source_closes(self.source, delimiter),
//@ loopbody 0
    broadcast use line_axioms;
    let ghost vx_o = *self;
    let ghost vx_ad = additional_lines@;
//@ before lines.extend
    let ghost vx_l1 = lines@;
    proof { texts_cat(lines@, additional_lines@); }
//@ loop 1
invariant texts(lines@) == texts(vx_l1 + additional_lines@),
decreases lines@.len(),
//@ loopbody 1
    broadcast use line_axioms;
    proof { let vx_k = kind0(lines@.last()); texts_push(lines@.drop_last(), lines@.last()); assert(lines@.drop_last().push(lines@.last()) =~= lines@); assert(texts(lines@.drop_last()) + Seq::<int>::empty() =~= texts(lines@.drop_last())); }
//@ sub lines.push(line); ==> proof { texts_push(lines@, line); } lines.push(line); proof { assert(ends(lines@[lines@.len() - 1], delimiter)); }
//@ spec
        ensures match r {
            Ok(lines) => final(self).peeked_lines.is_none() && final(self).peeked_meta == old(self).peeked_meta && around(*old(self), *final(self))
                && final(self).unattached == old(self).unattached && texts(lines@) + source_text(final(self).source) == lines_left(*old(self))
                && ((exists|i: int| 0 <= i < lines@.len() && ends(#[trigger] lines@[i], delimiter)) || source_text(final(self).source).len() == 0 || source_closes(final(self).source, delimiter)),
            Err(_) => true,
        },
//@end
    #[verifier::external_body]
    fn err_token_full(&self, m: &str, t: &Token) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn vx_loc(&self) -> SourceLocation { unimplemented!() }
    /// what is quoted is read as if it was the source
    #[verifier::external_body]
    fn vx_quote(&mut self, quoted: Vec<Line>) -> (r: Source)
        ensures around(*old(self), *final(self)), final(self).peeked_lines == old(self).peeked_lines, final(self).peeked_meta == old(self).peeked_meta, final(self).unattached == old(self).unattached, final(self).ctx == old(self).ctx,
            source_text(final(self).source) == texts(quoted@), r == old(self).source,
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_quote_ended(&self) -> (r: bool) ensures r ==> source_text(self.source).len() == 0, { unimplemented!() }
    #[verifier::external_body]
    fn vx_title(&mut self, line: Line) -> (r: Result<InlineNodes>) ensures r is Ok ==> same(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn parse_block_attr_list(&mut self, line: &mut Line) -> (r: Result<AttrList>) ensures r is Ok ==> same(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn parse_block_anchor(&mut self, line: &mut Line) -> (r: Result<Option<AnchorSrc>>) ensures r is Ok ==> same(*old(self), *final(self)), { unimplemented!() }
/// attributes, anchors and a title in front of a block, and comments behind those: all of them, and nothing of the block
//@extract parser/src/parser.rs :: impl Parser :: fn parse_chunk_meta
//@ sub lines.current_token().unwrap() ==> lines.vx_token()
//@ sub MultiAttrList::new_in($x) ==> MultiAttrList::vx_new()
//@ sub let mut title = None; ==> let mut title: Option<InlineNodes> = None;
//@ sub ChunkMeta::new(attrs, title, start_loc) ==> ChunkMeta::vx_of(attrs, title, start_loc, Ghost(vx_t))
//@ sub line.discard_assert(TokenKind::Dots); title = Some(self.parse_inlines(&mut line.into_lines())?); ==> title = Some(self.vx_title(line)?);
//@ sub line.discard_assert(TokenKind::OpenBracket); attrs.push(self.parse_block_attr_list(&mut line)?); ==> let vx_at = self.parse_block_attr_list(&mut line)?; attrs.vx_push(vx_at);
//@ sub let first = line.discard_assert(TokenKind::OpenBracket); line.discard_assert(TokenKind::OpenBracket); ==> let first = line.vx_first();
//@ sub first.loc ==> first
//@ sub let mut anchor_attrs = AttrList::new($x); anchor_attrs.id = $y; if let Some(reftext) = anchor.reftext { $z } attrs.push(anchor_attrs); ==> attrs.vx_push_anchor(anchor);
//@ sub let mut line = lines.consume_current().unwrap(); ==> let mut line = lines.consume_current().unwrap(); proof { took(vx_t, vx_l, vx_all); vx_t = vx_t + text(vx_l[0]); } vx_no_blank(lines);
//@ sub => { lines.consume_current(); } ==> => { lines.consume_current(); proof { took(vx_t, vx_l, vx_all); vx_t = vx_t + text(vx_l[0]); } vx_no_blank(lines); }
//@ before let start_loc
    let ghost vx_all = texts(lines@);
    let ghost vx_p = *self;
    let ghost mut vx_t = Seq::<int>::empty();
    proof { assert(vx_t + texts(lines@) =~= texts(lines@)); }
//@ loop 0
invariant same(vx_p, *self), vx_t + texts(lines@) == vx_all, lines@.len() <= num_lines, lines@.len() == num_lines ==> lines@ == old(lines)@, lines@.len() > 0 ==> ntok(lines@[0]) > 0, heading(old(lines)@[0]) ==> lines@ == old(lines)@,
ensures lines@.len() > 0 ==> !attr_line(lines@[0]) && !titled(lines@[0]) && (!comment(old(lines)@[0]) ==> !comment(lines@[0])),
decreases lines@.len(),
//@ loopbody 0
    broadcast use line_axioms;
    let ghost vx_l = lines@;
    proof { if lines@.len() > 0 { let vx_k = kind0(lines@[0]); } }
//@ body
    broadcast use line_axioms;
//@ spec
        requires old(lines)@.len() > 0, ntok(old(lines)@[0]) > 0, old(self).peeked_meta.is_some() ==> !attr_line(old(lines)@[0]) && !titled(old(lines)@[0]),
        ensures match r {
            Ok(m) => (heading(old(lines)@[0]) ==> final(lines)@ == old(lines)@) && around(*old(self), *final(self)) && final(self).peeked_lines == old(self).peeked_lines && final(self).peeked_meta.is_none() && final(self).source == old(self).source && final(self).unattached == old(self).unattached
                && meta_text(m) + texts(final(lines)@) == opt_meta(old(self).peeked_meta) + texts(old(lines)@)
                && (final(lines)@.len() > 0 ==> ntok(final(lines)@[0]) > 0 && (!comment(old(lines)@[0]) ==> !comment(final(lines)@[0])) && !attr_line(final(lines)@[0]) && !titled(final(lines)@[0])),
            Err(_) => true,
        },
//@end
    #[verifier::external_body]
    fn err_line_starting(&self, m: &str, l: SourceLocation) -> Result<()> { unimplemented!() }
    /// attributes or a title with nothing behind them
    fn vx_alone(&mut self, m: &ChunkMeta)
        ensures around(*old(self), *final(self)), final(self).peeked_lines == old(self).peeked_lines, final(self).peeked_meta == old(self).peeked_meta, final(self).source == old(self).source,
            final(self).unattached@ == (old(self).unattached@ || meta_text(*m) != Seq::<int>::empty()),
    { let ghost vx_f = self.unattached@ || meta_text(*m) != Seq::<int>::empty(); let vx_g: Ghost<bool> = Ghost(vx_f); self.unattached = vx_g; }
    /// what a macro's own line holds is the macro's
    #[verifier::external_body]
    fn vx_macro_of(&mut self, line: Line) -> (r: Result<EmptyMetadata>)
        ensures same(*old(self), *final(self)), match r { Ok(e) => empty_text(e) == text(line), Err(_) => true },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_plugin_nodes(&mut self, line: Line) -> (r: Result<InlineNodes>)
        ensures same(*old(self), *final(self)), match r { Ok(e) => nodes_text(e) == text(line), Err(_) => true },
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_image_kind(&mut self, m: &ChunkMeta) -> (r: Result<()>) ensures same(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn vx_toc_enabled(&self, line: &Line) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn vx_reserve_id(&self, m: &ChunkMeta) { unimplemented!() }
/// whether a section starts here
//@extract parser/src/tasks/heading_level.rs :: impl Parser :: fn section_start_level
//@ noexit
//@ sub lines.iter() ==> lines.lines.vx_slice()
//@ sub continue; ==>
//@ sub meta.attrs.has_str_positional("discrete") || meta.attrs.has_str_positional("float") ==> meta.vx_discrete()
//@ for 0 slice
//@ body
    broadcast use line_axioms;
    proof { assert(lines@.skip(0) =~= lines@); if lines@.len() > 0 { let vx_k = kind0(lines@[0]); } }
//@ loop 0
invariant vx_s0@ == lines@, vx_i0 <= vx_s0.len(), lines@.len() > 0, !attr_line(lines@[0]), !titled(lines@[0]), !comment(lines@[0]), vx_i0 > 0 ==> attr_line(lines@[0]) || titled(lines@[0]) || comment(lines@[0]),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
    broadcast use line_axioms;
    proof { let vx_k = kind0(vx_s0@[vx_i0 as int]); let vx_k = kind0(lines@[0]); }
//@ spec
        requires lines@.len() > 0, !attr_line(lines@[0]), !titled(lines@[0]), !comment(lines@[0]),
        ensures r.is_some() ==> r == level_at(lines@[0]) && mark(lines@[0]).is_none() && !plus_line(lines@[0]),
//@end
    #[verifier::external_body]
    fn line_heading_level(&self, line: &Line) -> (r: Option<u8>) ensures r == level_at(*line), { unimplemented!() }
    #[verifier::external_body]
    fn vx_section_id(&self, line: &Line, m: &ChunkMeta) -> (r: Option<SectionId>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sequence_err(&self, l: SourceLocation) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn vx_toc_node(&mut self, h: &InlineNodes) ensures same(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn vx_heading_anchor(&mut self, h: &InlineNodes) -> (r: Result<()>) ensures same(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn vx_special(&self, s: &Vec<Block>) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    fn vx_level0(&self) -> bool { unimplemented!() }
/// a heading that comes next, with what is in front of it, or all of it is left
//@extract parser/src/tasks/parse_section.rs :: impl Parser :: fn peek_section
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub self.err_line_starting($x)?; ==>
//@ body
    broadcast use {line_axioms, vx_words};
    proof { if peeked(*self).len() > 0 { let vx_k = kind0(peeked(*self)[0]); } }
//@ before lines.discard_leading_comment_lines
    let ghost vx_all = lines@;
    let ghost vx_p = opt_meta(self.peeked_meta);
    let ghost vx_s = source_text(self.source);
    proof { behind_texts(lines@); vx_no_blanks(lines@); assert(vx_p + (texts(lines@) + vx_s) == rest(*old(self))); }
//@ before let meta
    proof { assert(ntok(lines@[0]) > 0); }
//@ before let Some(line)
    proof { assert((vx_p + texts(vx_all)) + vx_s =~= vx_p + (texts(vx_all) + vx_s)); assert((meta_text(meta) + texts(lines@)) + vx_s =~= meta_text(meta) + (texts(lines@) + vx_s)); }
//@ spec
    requires meta_next(*old(self)),
    ensures match r {
        Ok(Some(p)) => around(*old(self), *final(self)) && final(self).peeked_lines.is_none() && final(self).peeked_meta.is_none() && final(self).unattached == old(self).unattached
            && p.lines@.len() > 0 && ntok(p.lines@[0]) > 0 && level_at(p.lines@[0]) == Some(p.semantic_level)
            && meta_text(p.meta) + (texts(p.lines@) + source_text(final(self).source)) == rest(*old(self))
            && (section_at(peeked(*old(self))) ==> p.lines@ == peeked(*old(self))),
        Ok(None) => around(*old(self), *final(self)) && final(self).unattached == old(self).unattached && rest(*final(self)) == rest(*old(self)) && !section_at(peeked(*old(self))),
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_section.rs :: impl Parser :: fn restore_peeked_section
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(),
    ensures around(*old(self), *final(self)), final(self).unattached == old(self).unattached, final(self).source == old(self).source,
        rest(*final(self)) == meta_text(peeked.meta) + (texts(peeked.lines@) + source_text(old(self).source)),
//@end
/// a section: its heading, and all blocks up to the next one that isn't in it
//@extract parser/src/tasks/parse_section.rs :: impl Parser :: fn parse_peeked_section
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub let special_sect = peeked.special_sect(); ==>
//@ sub let PeekedSection { $x } = peeked; ==> let meta = peeked.meta; let vx_ls = peeked.lines; let semantic_level = peeked.semantic_level; let authored_level = peeked.authored_level; let mut lines = vx_ls;
//@ sub let mut loc: MultiSourceLocation = heading_line.loc().unwrap().into(); ==> let mut loc = vx_into(heading_line.loc().unwrap());
//@ sub let (err_loc, ch) = { $x }; ==> let err_loc = heading_line.vx_heading_marks();
//@ sub let id_loc = $x; let id = self.section_id($y); ==> let id = self.vx_section_id(&heading_line, &meta);
//@ sub self.err_at($x)?; ==> self.vx_sequence_err(err_loc)?;
//@ sub let heading = self.parse_inlines(&mut heading_line.into_lines())?; ==> let mut vx_title = heading_line.into_lines(); let heading = self.parse_inlines(&mut vx_title)?;
//@ sub self.push_toc_node($x); ==> self.vx_toc_node(&heading);
//@ sub if let Some(id) = &id { $x } ==> self.vx_heading_anchor(&heading)?;
//@ sub meta.attrs.str_positional_at(0) == Some("bibliography") ==> self.vx_flag()
//@ sub while let Some(inner) = self.parse_block()? { $x } ==> loop { let ghost vx_o = *self; let vx_b = self.parse_block()?; proof { parsed_trans(vx_start, blocks_text(blocks@), vx_o, opt_text(vx_b), *self); } let Some(inner) = vx_b else { break; }; proof { blocks_push(blocks@, inner); } $x }
//@ sub if let Some(special_sect) = special_sect { $x } ==> self.vx_special(&blocks)?;
//@ before let mut vx_title
    proof { let vx_k = kind0(heading_line); texts_one(heading_line); assert(!stops(*self, heading_line, true)); }
//@ before self.restore_lines(lines)
    proof {
        assert(vx_title@.len() == 0); assert(nodes_text(heading) == vx_h);
    }
//@ before let mut blocks
    let ghost vx_start = *self;
    proof {
        assert(texts(peeked.lines@) =~= vx_h + texts(lines@));
        let vx_m = meta_text(meta); let vx_r = texts(lines@); let vx_s = source_text(self.source);
        assert(vx_m + vx_h + (vx_r + vx_s) =~= vx_m + ((vx_h + vx_r) + vx_s));
    }
//@ before let mut heading_line
    let ghost vx_h = text(lines@[0]);
    proof { let vx_k = kind0(lines@[0]); }
//@ loop 0
invariant
    around(vx_start, *self), meta_ok(*self), parsed(vx_start, blocks_text(blocks@), *self), vx_start.ctx.section_level == semantic_level,
    forall|i: int| 0 <= i < blocks@.len() ==> below(Some(#[trigger] blocks@[i]), semantic_level as int),
ensures
    around(vx_start, *self), meta_ok(*self), parsed(vx_start, blocks_text(blocks@), *self),
    forall|i: int| 0 <= i < blocks@.len() ==> below(Some(#[trigger] blocks@[i]), semantic_level as int),
//@ before self.ctx.bibliography_ctx = BiblioContext::None
    proof { assert(meta_text(meta) + nodes_text(heading) + (blocks_text(blocks@) + rest(*self)) =~= (meta_text(meta) + nodes_text(heading) + blocks_text(blocks@)) + rest(*self)); }
//@ body
    broadcast use {line_axioms, vx_words};
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, peeked.lines@.len() > 0, ntok(peeked.lines@[0]) > 0, heading(peeked.lines@[0]),
    ensures match r {
        Ok(s) => around(*old(self), *final(self)) && meta_ok(*final(self)) && s.level == peeked.semantic_level && nested(s)
            && behind(*old(self), meta_text(peeked.meta) + (texts(peeked.lines@) + source_text(old(self).source)), section_text(s), *final(self)),
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_section.rs :: impl Parser :: fn parse_section
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub self.document.meta.get_doctype() != DocType::Book ==> self.vx_level0()
//@ sub self.err_line($x)?; ==>
//@ body
    broadcast use {line_axioms, vx_words};
//@ spec
        requires meta_ok(*old(self)),
        ensures match r {
            Ok(Some(s)) => around(*old(self), *final(self)) && meta_ok(*final(self)) && parsed(*old(self), section_text(s), *final(self)) && nested(s)
                && (section_at(peeked(*old(self))) ==> Some(s.level) == level_at(peeked(*old(self))[0])),
            Ok(None) => around(*old(self), *final(self)) && parsed(*old(self), Seq::empty(), *final(self)) && !section_at(peeked(*old(self))),
            Err(_) => true,
        },
//@end
    /// (unit `tables`)
    #[verifier::external_body]
    fn parse_table(&mut self, lines: ContiguousLines, meta: ChunkMeta) -> (r: Result<Block>)
        requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(),
        ensures match r { Ok(b) => read(*old(self), meta, lines@, Some(b), *final(self)), Err(_) => true },
    { unimplemented!() }
    /// (unit `attrs`)
    #[verifier::external_body]
    fn vx_attr_def(&mut self, lines: ContiguousLines, meta: ChunkMeta) -> (r: Result<Option<Block>>)
        requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(),
        ensures match r { Ok(b) => read(*old(self), meta, lines@, b, *final(self)) && b.is_some(), Err(_) => true },
    { unimplemented!() }
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn parse_image_block
//@ sub mut lines: ==> vx_lines:
//@ sub ?meta.start_loc ==> meta.vx_start()
//@ sub line.discard_assert(MacroName); line.discard_assert(Colon); let is_uri = $a; let target = line.consume_macro_target($x); let attrs = self.parse_block_macro_attr_list(&mut line)?; ==> let vx_e = self.vx_macro_of(line)?;
//@ sub let kind = self.parse_image_kind($x)?; ==> self.vx_image_kind(&meta)?;
//@ sub EmptyMetadata::Image { target, attrs, kind } ==> vx_e
//@ sub loc.into() ==> vx_into(loc)
//@ sub Ok(Block { $x }) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(vx_block)
//@ body
    broadcast use {line_axioms, vx_words};
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0,
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, Some(b), *final(self)), Err(_) => true },
//@end
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_plugin_block_macro
//@ sub mut lines: ==> vx_lines:
//@ sub ?meta.start_loc ==> meta.vx_start()
//@ sub let source = line.reassemble_src(); let mut name = $a; name.pop(); line.discard_assert(Colon); let target = if $b { $c } else { $d }; let attrs = self.parse_block_macro_attr_list(&mut line)?; let mut nodes = InlineNodes::new(vx_bump()); nodes.push($e); ==> let nodes = self.vx_plugin_nodes(line)?;
//@ sub line_loc.into() ==> vx_into(line_loc)
//@ sub Ok(Block { $x }) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(vx_block)
//@ body
    broadcast use {line_axioms, vx_words};
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0,
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, Some(b), *final(self)), Err(_) => true },
//@end
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_audio_video_macro
//@ sub mut lines: ==> vx_lines:
//@ sub ?meta.start_loc ==> meta.vx_start()
//@ sub line.discard(2); let target = line.consume_macro_target($x); let attrs = self.parse_block_macro_attr_list(&mut line)?; ==> let vx_e = self.vx_macro_of(line)?;
//@ sub EmptyMetadata::AudioVideo { target, attrs } ==> vx_e
//@ sub Ok(Block { $x }) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(vx_block)
//@ body
    broadcast use {line_axioms, vx_words};
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0,
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, Some(b), *final(self)), Err(_) => true },
//@end
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_toc_macro
//@ sub mut lines: ==> vx_lines:
//@ sub ?meta.start_loc ==> meta.vx_start()
//@ sub if self.document.toc.is_none() { $x } ==> self.vx_toc_enabled(&line)?;
//@ sub line.loc().unwrap().into() ==> vx_into(line.loc().unwrap())
//@ sub EmptyMetadata::None ==> vx_stands(Ghost(text(vx_lines@[0])))
//@ sub Ok(Block { $x }) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(vx_block)
//@ body
    broadcast use {line_axioms, vx_words};
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0,
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, Some(b), *final(self)), Err(_) => true },
//@end
/// a line that is a block by itself: what follows it is left
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_break
//@ sub mut lines: ==> vx_lines:
//@ sub ?meta.start_loc ==> meta.vx_start()
//@ sub EmptyMetadata::None ==> vx_stands(Ghost(text(vx_lines@[0])))
//@ sub Ok(Some(Block { $x })) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(Some(vx_block))
//@ body
    broadcast use {line_axioms, vx_words};
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0,
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, b, *final(self)) && b.is_some(), Err(_) => true },
//@end
/// a heading without a section
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_discrete_heading
//@ sub mut lines: ==> vx_lines:
//@ sub ?meta.start_loc ==> meta.vx_start()
//@ sub line.consume_current(); while line.current_is(Hash) { line.consume_current(); } ==> line.vx_discard_hashes();
//@ sub let id = self.section_id(&line, &meta.attrs); ==> self.vx_section_id(&line, &meta);
//@ sub let content = self.parse_inlines(&mut line.into_lines())?; ==> let mut vx_title = line.into_lines(); let content = self.parse_inlines(&mut vx_title)?;
//@ sub EmptyMetadata::DiscreteHeading { level, content, id } ==> vx_stands(Ghost(nodes_text(content)))
//@ sub Ok(Block { $x }) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(vx_block)
//@ before let mut vx_title
    proof { let vx_k = kind0(line); texts_one(line); assert(!stops(*self, line, true)); }
//@ before self.restore_lines(lines)
    proof {
        assert(vx_title@.len() == 0); assert(texts(vx_title@) =~= Seq::<int>::empty()); assert(nodes_text(content) + texts(vx_title@) =~= nodes_text(content));
        let vx_m = meta_text(meta); let vx_c = nodes_text(content); let vx_r = texts(lines@); let vx_s = source_text(self.source);
        assert(texts(vx_lines@) =~= vx_c + vx_r); assert(vx_m + vx_c + (vx_r + vx_s) =~= vx_m + (vx_c + vx_r) + vx_s);
    }
//@ body
    broadcast use line_axioms;
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0, heading(vx_lines@[0]),
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, Some(b), *final(self)), Err(_) => true },
//@end
/// what is quoted is read like a document of its own, and what is behind it is left
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_markdown_blockquote
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub mut lines: ==> vx_lines:
//@ sub MultiSourceLocation::from(lines.current_token().unwrap().loc) ==> vx_into(lines.vx_token().loc)
//@ sub Vec::with_capacity($x) ==> Vec::new()
//@ sub quoted.reverse(); let outer_quote = self.quoted_lines.replace(quoted); ==> let ghost vx_q = texts(quoted@); let outer_quote = self.vx_quote(quoted);
//@ sub std::mem::replace(&mut self.ctx.in_markdown_blockquote, true) ==> vx_swap_bool(&mut self.ctx.in_markdown_blockquote, true)
//@ sub self.ctx.delimiter.replace($x) ==> vx_swap_delimiter(&mut self.ctx.delimiter, $x)
//@ sub loc.extend_end(&block.loc); ==>
//@ sub self.quoted_lines.as_ref().is_none_or(|lines| lines.is_empty()) ==> self.vx_quote_ended()
//@ sub self.quoted_lines = outer_quote; ==> self.source = outer_quote;
//@ sub loop { if let Some(block) = self.parse_block()? { $x } else ==> loop { let ghost vx_o = *self; let vx_b = self.parse_block()?; proof { parsed_trans(vx_start, blocks_text(blocks@), vx_o, opt_text(vx_b), *self); } if let Some(block) = vx_b { proof { blocks_push(blocks@, block); } $x } else
//@ sub unparsed.consume_current(); self.restore_lines(unparsed); ==> let ghost vx_u = unparsed@; unparsed.consume_current(); self.restore_lines(unparsed); proof { if vx_u.len() > 0 { let vx_k = kind0(vx_u[0]); } }
//@ sub blocks[0].context == BlockContext::QuotedParagraph && (meta.is_empty() || blocks[0].meta.is_empty()) ==> blocks[0].context == BlockContext::QuotedParagraph && (meta.is_empty() || blocks[0].meta.is_empty())
//@ sub let mut quote = blocks.pop().unwrap(); ==> let mut quote = blocks.pop().unwrap(); proof { assert(vx_bs.len() == 1); assert(vx_bs.drop_last() =~= Seq::<Block>::empty()); block_is(quote); }
//@ sub return Ok(Some(quote)); ==> proof { block_is(quote); } return Ok(Some(quote));
//@ sub Ok(Some(Block { $x })) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(Some(vx_block))
//@ before let mut loc
    let ghost vx_r = texts(rest@);
    let ghost vx_p = texts(lines@);
//@ before while let Some(mut line)
    proof { assert(texts(quoted@) =~= Seq::<int>::empty()); assert(texts(quoted@) + texts(lines@) =~= texts(lines@)); }
//@ loop 0
invariant texts(quoted@) + texts(lines@) == vx_p,
ensures texts(quoted@) == vx_p,
decreases lines@.len(),
//@ loopbody 0
    broadcast use {line_axioms};
    let ghost vx_l = line;
    proof { let vx_k = kind0(line); }
//@ before quoted.push(line)
    proof { texts_push(quoted@, line); assert(text(line) == text(vx_l)); assert(texts(quoted@) + (text(line) + texts(lines@)) =~= texts(quoted@) + text(line) + texts(lines@)); }
//@ before loop
    let ghost vx_start = *self;
    proof { assert(blocks_text(blocks@) =~= Seq::<int>::empty()); assert(Seq::<int>::empty() + rest_of(*self) =~= rest_of(*self)); assert(texts(Seq::<Line>::empty()) =~= Seq::<int>::empty()); assert(lines_left(*self) =~= vx_q); }
//@ loop 1
invariant_except_break around(vx_start, *self), meta_ok(*self), fresh(*self), parsed(vx_start, blocks_text(blocks@), *self),
invariant rest_of(vx_start) == vx_q,
ensures around(vx_start, *self), self.peeked_lines.is_none(), self.peeked_meta.is_none(), self.unattached@ || !vx_start.unattached@ && blocks_text(blocks@) == vx_q,
//@ loopbody 1
    broadcast use {line_axioms};
//@ before self.ctx.list = list
    let ghost vx_bs = blocks@;
//@ before if blocks.len() == 1
    let ghost vx_z = *self;
    proof {
        let vx_m = meta_text(meta); let vx_s = source_text(old(self).source);
        assert(self.source == old(self).source);
        assert(texts(vx_lines@) == vx_p + vx_r);
        assert(rest_of(*self) == vx_r + vx_s);
        assert(vx_m + texts(vx_lines@) + vx_s =~= vx_m + vx_p + (vx_r + vx_s));
        assert(self.unattached@ || !old(self).unattached@ && blocks_text(blocks@) == vx_p);
        assert(around(*old(self), *self)); assert(meta_next(*self));
        assert(blocks_text(Seq::<Block>::empty()) =~= Seq::<int>::empty());
        assert(Seq::<int>::empty() + vx_m =~= vx_m);
        if blocks@.len() == 1 { let vx_q1 = blocks@[0]; assert(blocks@ =~= Seq::<Block>::empty().push(vx_q1)); blocks_push(Seq::<Block>::empty(), vx_q1); assert(blocks_text(blocks@) =~= block_text(vx_q1)); block_is(vx_q1); one_quote(vx_q1, meta, vx_p); }
    }
//@ body
    broadcast use {line_axioms};
    let mut lines = vx_lines;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, vx_lines@.len() > 0, ntok(vx_lines@[0]) > 0,
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, b, *final(self)) && b.is_some(), Err(_) => true },
//@end
/// a block ends at its own delimiter, and what is behind that is left
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_delimited_block
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub mut lines: ==> vx_lines:
//@ sub mut meta: ==> vx_meta:
//@ sub open_token.to_delimiter().unwrap() ==> vx_tok_delim(&open_token)
//@ sub if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing { $x } ==> if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing { delim_line.vx_language(&mut meta); }
//@ sub meta.block_style_or($x) ==> meta.vx_style()
//@ sub lines.first_loc().unwrap_or(open_token.loc) ==> open_token.loc
//@ sub lines.last_loc().unwrap_or(open_token.loc) ==> open_token.loc
//@ sub lines.first_loc().unwrap_or(end_loc) ==> end_loc
//@ sub lines.discard_until(|l| l.is_delimiter(delimiter)); ==> let vx_dropped = lines.vx_discard_until(delimiter);
//@ sub self.ctx.custom_line_comment = None; ==>
//@ sub self.ctx.custom_line_comment = Some($x); ==>
//@ sub meta.attrs.named("line-comment") ==> meta.vx_named()
//@ sub meta.attrs.named("indent").and_then($x) ==> meta.vx_indent()
//@ sub lines.current_satisfies(|l| l.is_delimiter(delimiter)) ==> lines.vx_at(delimiter)
//@ sub if start_loc.include_depth != end_loc.include_depth { $x } else { $y } ==> BlockContent::Empty(vx_stands(vx_dropped))
//@ sub while let Some(inner) = self.parse_block()? { $x } ==> loop { let ghost vx_o = *self; let vx_b = self.parse_block()?; proof { parsed_trans(vx_start, blocks_text(blocks@), vx_o, opt_text(vx_b), *self); assert(blocks_text(blocks@) + Seq::<int>::empty() =~= blocks_text(blocks@)); } let Some(inner) = vx_b else { break; }; proof { blocks_push(blocks@, inner); } $x }
//@ before let prev
    proof { assert(meta_text(meta) =~= meta_text(vx_meta) + text(vx_lines@[0])); assert(texts(vx_lines@) =~= text(vx_lines@[0]) + texts(lines@)); }
//@ before let content
    let ghost vx_start = *self;
    let ghost vx_all = texts(vx_lines@.skip(1)) + source_text(old(self).source);
    proof { assert(rest(*self) =~= vx_all); assert(fresh(*self)); }
//@ before if let Some(indent)
    let ghost vx_vl = lines@;
//@ loop 0
invariant content@ + lines@ == vx_vl,
decreases lines@.len(),
//@ loopbody 0
    proof { assert(content@.push(lines@[0]) + lines@.skip(1) =~= content@ + lines@); }
//@ before content.set_indentation
    let ghost vx_c = content@;
//@ after content.set_indentation(indent);
    let ghost vx_d = content@;
    let ghost vx_e = lines@;
    proof { texts_cat(vx_c, vx_e); texts_cat(vx_d, vx_e); }
//@ loop 1
invariant content@ + lines@ == vx_d + vx_e,
ensures content@ == vx_d + vx_e,
decreases lines@.len(),
//@ loopbody 1
    proof { assert(content@.push(line) + lines@ =~= content@ + (seq![line] + lines@)); }
//@ before if (context == BlockContext::Listing
    proof { assert(lines@.len() == vx_vl.len()); assert forall|i: int| 0 <= i < vx_vl.len() implies #[trigger] ends(lines@[i], delimiter) == ends(vx_vl[i], delimiter) by { } assert forall|i: int| 0 <= i < vx_vl.len() && #[trigger] ends(vx_vl[i], delimiter) implies ends(lines@[i], delimiter) by { } }
//@ before let simple
    let ghost vx_in = lines@;
    let ghost vx_pp = *self;
//@ before self.ctx.can_nest_blocks = true
    proof {
        assert forall|l: Line, f: bool| #[trigger] stops(vx_pp, l, f) == ends(l, delimiter) by { }
        if lines@.len() == 0 { assert forall|i: int| 0 <= i < vx_in.len() implies !#[trigger] ends(vx_in[i], delimiter) by { assert(!stops(vx_pp, vx_in[i], i == 0)); } }
        else { assert(stops(vx_pp, lines@[0], lines@.len() == vx_in.len())); }
    }
//@ loop 2
invariant_except_break around(vx_start, *self), meta_ok(*self), fresh(*self), parsed(vx_start, blocks_text(blocks@), *self),
ensures around(vx_start, *self), meta_ok(*self), ended(*self), parsed(vx_start, blocks_text(blocks@), *self),
//@ before self.ctx.subs = restore_subs
    proof { assert(!(content is Section)); assert(parsed(vx_start, content_text(content), *self)); assert(ended(*self)); }
    let ghost vx_left = rest(*self);
//@ before let token = lines.consume_current_line_with_token()
    proof { let vx_k = kind0(lines@[0]); assert(text(lines@[0]) =~= Seq::<int>::empty()); assert(text(lines@[0]) + texts(lines@.skip(1)) =~= texts(lines@.skip(1))); assert(texts(lines@) == texts(lines@.skip(1))); assert(texts(lines@) + source_text(self.source) == vx_left); }
//@ before if end_loc.is_none()
    proof { assert(self.unattached@ || rest(*self) =~= vx_left); assert(around(vx_start, *self)); }
//@ sub lines.current_satisfies(|l| l.is_delimiter(self.ctx.delimiter.unwrap())) ==> lines.vx_closes(&self.ctx)
//@ sub self.lexer.loc() ==> self.vx_loc()
//@ sub Ok(Some(Block { $x })) ==> let vx_block = Block { $x }; proof { block_is(vx_block); } Ok(Some(vx_block))
//@ body
    broadcast use {line_axioms, vx_words};
    proof { let vx_k = kind0(vx_lines@[0]); }
    let mut lines = vx_lines;
    let mut meta = vx_meta;
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, vx_lines@.len() > 0, delim(vx_lines@[0]).is_some(),
    ensures match r { Ok(b) => read(*old(self), vx_meta, vx_lines@, b, *final(self)) && b.is_some(), Err(_) => true },
//@end
/// a text in quotes, and whose it is
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_quoted_paragraph
//@ attr #[verifier::spinoff_prover]
//@ sub mut lines: ==> vx_lines:
//@ sub attr_line.discard_assert(TokenKind::Dashes); attr_line.discard_assert(TokenKind::Whitespace); ==> attr_line.vx_discard_dashes();
//@ sub let mut saw_comma = false; let mut attr_toks = $a; let mut cite_toks = $b; let mut current = &mut attr_toks; while let Some(tok) = attr_line.consume_current() { $x } let attr = self.parse_inlines(&mut Line::new(attr_toks).into_lines())?; ==> let (vx_attr, vx_cite) = attr_line.vx_attribution(); let mut vx_al = vx_attr.into_lines(); let attr = self.parse_inlines(&mut vx_al)?;
//@ sub cite_toks.is_empty() ==> vx_cite.is_empty()
//@ sub Some(self.parse_inlines(&mut Line::new(cite_toks).into_lines())?) ==> let mut vx_cl = vx_cite.into_lines(); let vx_n = self.parse_inlines(&mut vx_cl)?; proof { texts_one(vx_cite); assert(vx_cl@.len() == 0); assert(texts(vx_cl@) =~= Seq::<int>::empty()); assert(nodes_text(vx_n) + texts(vx_cl@) =~= nodes_text(vx_n)); } Some(vx_n)
//@ sub let first_line = lines.current_mut().unwrap(); let start_token_loc = if self.ctx.in_markdown_blockquote { $a } else { $b }; ==> let start_token_loc = lines.vx_unquote(self.ctx.in_markdown_blockquote);
//@ sub Ok(Some(Block { meta, context: $c, content: BlockContent::QuotedParagraph { quote: self.parse_inlines(&mut lines)?, attr, cite, }, $x })) ==> let quote = self.parse_inlines(&mut lines)?; let vx_block = Block { meta, context: $c, content: BlockContent::QuotedParagraph { quote, attr, cite }, $x }; proof { block_is(vx_block); vx_quoted_is(vx_block, vx_lines@, vx_quote, text(vx_attr_line)); } Ok(Some(vx_block))
//@ before let (vx_attr, vx_cite)
    let ghost vx_attr_line = attr_line;
//@ before let mut vx_al
    proof { let vx_k = kind0(vx_attr); texts_one(vx_attr); assert(!stops(*self, vx_attr, true)); let vx_k = kind0(vx_cite); assert(ntok(vx_cite) > 0 ==> !stops(*self, vx_cite, true)); }
//@ before let start_token_loc
    let ghost vx_quote = texts(lines@);
    let ghost vx_ql = lines@;
    proof { assert(vx_al@.len() == 0); assert(texts(vx_al@) =~= Seq::<int>::empty()); assert(nodes_text(attr) + texts(vx_al@) =~= nodes_text(attr)); assert(opt_nodes(cite) =~= text(vx_cite)); }
//@ before let quote
    proof { assert forall|i: int| 0 <= i < lines@.len() implies !stops(*self, #[trigger] lines@[i], i == 0) by { let vx_k = kind0(lines@[i]); let vx_k = kind0(vx_lines@[i]); assert(vx_ql[i] == vx_lines@[i]); if i > 0 { assert(!stops(*old(self), vx_lines@[i], false)); } assert(around(*old(self), *self)); goes_on_unquoted(*self, lines@[i], vx_ql[i], i == 0); } }
//@ before let vx_block
    proof { assert(lines@.len() == 0); assert(texts(lines@) =~= Seq::<int>::empty()); assert(nodes_text(quote) + texts(lines@) =~= nodes_text(quote)); }
//@ body
    broadcast use line_axioms;
    proof { let vx_k = kind0(vx_lines@[0]); let vx_k = kind0(vx_lines@.last()); }
    let mut lines = vx_lines;
//@ spec
    requires
        old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, quoted(vx_lines@, old(self).ctx.in_markdown_blockquote), kind0(vx_lines@[0]) != Some(DelimiterLine),
        forall|i: int| 1 <= i < vx_lines@.len() ==> !stops(*old(self), #[trigger] vx_lines@[i], false),
    ensures match r {
        Ok(b) => same(*old(self), *final(self)) && meta_next(*final(self)) && b.is_some() && no_section(b) && opt_text(b) == meta_text(meta) + texts(vx_lines@),
        Err(_) => true,
    },
//@end
    #[verifier::external_body]
    fn is_quoted_paragraph_x(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn maybe_set_admonition_icon_uri(&mut self, c: BlockContext, m: &ChunkMeta) -> (r: Result<()>)
        ensures same(*old(self), *final(self)),
    { unimplemented!() }
/// lines of comments, and nothing else
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_inline_comment_block
//@ sub lines.current_token().unwrap() ==> lines.vx_token()
//@ sub lines.discard_leading_empty_lines() ==> lines.vx_discard_empty()
//@ sub EmptyMetadata::None ==> vx_stands(Ghost(Seq::empty()))
//@ sub return Some(Block { $x }); ==> { let vx_block = Block { $x }; proof { block_is(vx_block); } return Some(vx_block); }
//@ body
    broadcast use {line_axioms, vx_words};
    proof { if lines@.len() > 0 { let vx_k = kind0(lines@[0]); } }
//@ before lines.vx_discard_empty
    proof { behind_texts(vx_all.skip(1)); behind_first(vx_all.skip(1)); }
//@ before let start_loc
    let ghost vx_all = lines@;
//@ spec
    requires old(lines)@.len() > 0, ntok(old(lines)@[0]) > 0,
    ensures *final(self) == *old(self), texts(final(lines)@) == texts(old(lines)@),
        match r {
            Some(b) => no_section(Some(b)) && block_text(b) =~= Seq::<int>::empty() && final(lines)@.len() == 0 && comment(old(lines)@[0]),
            None => final(lines)@.len() > 0 && ntok(final(lines)@[0]) > 0 && !comment(final(lines)@[0]) && (!comment(old(lines)@[0]) ==> final(lines)@ == old(lines)@),
        },
//@end
/// a paragraph, up to where it ends
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn split_off_after_paragraph
//@ sub std::mem::replace(lines, paragraph) ==> vx_replace(lines, paragraph)
//@ body
    proof { assert(texts(Seq::<Line>::empty()) =~= Seq::<int>::empty()); assert(texts(Seq::<Line>::empty()) + texts(lines@) =~= texts(lines@)); }
//@ before break
    proof { assert(stops(*self, line, false)); assert(ntok(line) > 0); assert(lines@ =~= seq![line] + vx_q); assert(paragraph@ + lines@ =~= paragraph@.push(line) + vx_q); }
//@ loop 0
invariant_except_break
    texts(paragraph@) + texts(lines@) == texts(old(lines)@),
    paragraph@ + lines@ == old(lines)@,
    paragraph@.len() == 0 ==> lines@ == old(lines)@,
    paragraph@.len() > 0 ==> old(lines)@.len() > 0 && paragraph@[0] == old(lines)@[0],
invariant
    forall|i: int| 1 <= i < paragraph@.len() ==> !stops(*self, #[trigger] paragraph@[i], false),
ensures
    texts(paragraph@) + texts(lines@) == texts(old(lines)@),
    paragraph@ + lines@ == old(lines)@, lines@.len() > 0 ==> stops(*self, lines@[0], false),
    old(lines)@.len() > 0 ==> paragraph@.len() > 0 && paragraph@[0] == old(lines)@[0],
decreases lines@.len(),
//@ loopbody 0
    broadcast use line_axioms;
    let ghost vx_p = paragraph@;
    let ghost vx_q = lines@;
    proof { let vx_k = kind0(line); assert(vx_p.push(line) + lines@ =~= vx_p + (seq![line] + lines@)); texts_push(vx_p, line); assert(texts(vx_p) + (text(line) + texts(lines@)) =~= texts(vx_p) + text(line) + texts(lines@)); }
//@ spec
    ensures texts(final(lines)@) + texts(r@) == texts(old(lines)@), old(lines)@.len() > 0 ==> final(lines)@.len() > 0 && final(lines)@[0] == old(lines)@[0],
        forall|i: int| 1 <= i < final(lines)@.len() ==> !stops(*self, #[trigger] final(lines)@[i], false),
        final(lines)@ + r@ == old(lines)@, r@.len() > 0 ==> stops(*self, r@[0], false),
//@end
/// running text: what it doesn't go on with is left
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_paragraph
//@ sub mut lines: ==> vx_lines:
//@ sub lines.current_mut().map(|l| l.discard_leading_whitespace()) ==> lines.vx_discard_leading_whitespace()
//@ sub start.filter(|_| lines.len() < num_lines) ==> if lines.len() < num_lines { start } else { None }
//@ sub inlines.loc().or(consumed.map(MultiSourceLocation::from)) ==> inlines.vx_loc(consumed)
//@ sub EmptyMetadata::None ==> vx_stands(Ghost(nodes_text(inlines)))
//@ sub return Ok(None) ==> { proof { if vx_in.len() > 0 && ntok(vx_in[0]) > 0 { let vx_k = kind0(vx_in[0]); assert(lines@.len() == vx_in.len()); assert(lines@ =~= vx_in); assert(stops(vx_pp, vx_in[0], true)); } } self.vx_alone(&meta); return Ok(None); }
//@ before let inlines
    let ghost vx_in = lines@;
    let ghost vx_pp = *self;
//@ body
    broadcast use {line_axioms, vx_words};
    let mut lines = vx_lines;
//@ before Ok(Some(paragraph))
    proof { block_is(paragraph); }
//@ spec
    requires old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(),
    ensures match r { Ok(b) => read(*old(self), meta, vx_lines@, b, *final(self)) && (b.is_none() && fresh(*old(self)) ==> vx_lines@.len() == 0 || ntok(vx_lines@[0]) == 0 || kind0(vx_lines@[0]) == Some(DelimiterLine)), Err(_) => true },
//@end
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_block
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub if let Some(block) = &block { self.insert_block_anchor(block)?; } ==> self.vx_insert_anchor(&block)?;
//@ spec
    requires meta_ok(*old(self)),
    ensures match r {
        Ok(b) => around(*old(self), *final(self)) && meta_ok(*final(self)) && parsed(*old(self), opt_text(b), *final(self)) && below(b, old(self).ctx.section_level as int) && (b.is_none() && fresh(*old(self)) ==> ended(*final(self))),
        Err(_) => true,
    },
//@end
    #[verifier::external_body]
    fn vx_insert_anchor(&mut self, b: &Option<Block>) -> (r: Result<()>) ensures same(*old(self), *final(self)), { unimplemented!() }
/// which block comes next, and that nothing of what was read for it is lost where it is another
//@extract parser/src/tasks/parse_block.rs :: impl Parser :: fn parse_unanchored_block
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub self.err_line_starting($x)?; ==> self.err_line_starting($x)?; let vx_g: Ghost<bool> = Ghost(true); self.unattached = vx_g;
//@ sub if let Some(id) = meta.attrs.id() { $x } ==> self.vx_reserve_id(&meta);
//@ sub let mut loc: MultiSourceLocation = section.meta.start_loc.into(); if let Some(sec_loc) = section.blocks.last().map(|b| &b.loc) { $x } ==> let loc = vx_section_loc(&section);
//@ sub meta.start_loc ==> meta.vx_start()
//@ sub lines.current_token().unwrap() ==> lines.vx_token()
//@ sub return if $x else { self.parse_plugin_block_macro(lines, meta) }.map(Some); ==> let vx_r = if $x else { self.parse_plugin_block_macro(lines, meta) }; let vx_b = vx_r?; return Ok(Some(vx_b));
//@ sub return self.parse_list(lines, Some(meta)).map(Some); ==> let vx_b = self.parse_list(lines, Some(meta))?; return Ok(Some(vx_b));
//@ sub return Ok(Some(Block { meta: ChunkMeta::empty(section.meta.vx_start(), vx_bump()), $x })); ==> let vx_block = Block { meta: ChunkMeta::empty(section.meta.vx_start(), vx_bump()), $x }; proof { block_is(vx_block); } return Ok(Some(vx_block));
//@ sub return self.parse_discrete_heading(lines, meta).map(Some); ==> let vx_b = self.parse_discrete_heading(lines, meta)?; return Ok(Some(vx_b));
//@ sub lines.current_satisfies(|l| l.is_heading()) && (meta.attrs.has_str_positional("discrete") || meta.attrs.has_str_positional("float")) ==> lines.vx_heading() && meta.vx_discrete()
//@ sub Pipe | Colon | Bang | Comma if lines.nth_token(1).kind(EqualSigns) && lines.nth_token(2).is_none() && lines.nth_token(1).unwrap().len() > 2 ==> _ if matches!(first_token.kind, Pipe | Colon | Bang | Comma) && lines.vx_some()
//@ sub lines.nth_token(1).kind(Whitespace) ==> lines.vx_some()
//@ sub AttrDef => { $x } ==> AttrDef => { return self.vx_attr_def(lines, meta); }
//@ sub ?lines.current_satisfies(|l| self.ctx.delimiter.is_some_and(|d| l.is_delimiter(d))) ==> lines.vx_closes(&self.ctx)
//@ sub lines.current_satisfies($x) ==> lines.vx_some()
//@ sub first_token.len() == 3 && ==>
//@ before let meta
    let ghost vx_l = texts(lines@);
    let ghost vx_s = source_text(self.source);
    let ghost vx_m = opt_meta(self.peeked_meta);
    proof { assert(vx_l + vx_s == lines_left(*old(self))); assert(vx_m + (vx_l + vx_s) == rest(*old(self))); }
//@ before if lines.is_empty()
    proof { assert(meta_text(meta) + texts(lines@) + vx_s =~= vx_m + vx_l + vx_s); assert(meta_text(meta) + texts(lines@) + vx_s =~= meta_text(meta) + (texts(lines@) + vx_s)); assert(vx_m + vx_l + vx_s =~= vx_m + (vx_l + vx_s)); }
//@ before match self.section_start_level
    proof { assert(meta_text(meta) + (texts(lines@) + source_text(self.source)) == rest(*old(self))); assert(!comment(lines@[0])); assert(self.unattached == old(self).unattached); }
//@ before let mut rest
    let ghost vx_t = lines@;
    let ghost vx_p = *self;
    proof { assert(kind0(lines@[0]) != Some(DelimiterLine)); assert(Seq::<Line>::empty() + lines@ =~= lines@); assert(lines@ + Seq::<Line>::empty() =~= lines@); }
//@ loop 0
invariant lines@ + rest@ == vx_t, *self == vx_p,
ensures lines@ == vx_t, *self == vx_p,
decreases rest@.len(),
//@ loopbody 0
    proof { assert(lines@ + (seq![line] + rest@) =~= lines@.push(line) + rest@); }
//@ sub lines.is_quoted_paragraph(self.ctx.in_markdown_blockquote) ==> lines.vx_quoted(self.ctx.in_markdown_blockquote)
//@ sub self.restore_lines(lines); return Ok(None); } DelimiterLine ==> self.vx_alone(&meta); self.restore_lines(lines); return Ok(None); } DelimiterLine
//@ body
    broadcast use {line_axioms, vx_words};
//@ spec
    requires meta_ok(*old(self)),
    ensures match r {
        Ok(b) => around(*old(self), *final(self)) && meta_ok(*final(self)) && parsed(*old(self), opt_text(b), *final(self)) && below(b, old(self).ctx.section_level as int) && (b.is_none() && fresh(*old(self)) ==> ended(*final(self))),
        Err(_) => true,
    },
//@end
//@extract parser/src/parser.rs :: impl Parser :: fn restore_lines
//@ sub self.peeked_lines.is_none() ==> self.peeked_lines.is_none()
//@ spec
    requires old(self).peeked_lines.is_none(),
    ensures around(*old(self), *final(self)), final(self).peeked_meta == old(self).peeked_meta, final(self).unattached == old(self).unattached, peeked(*final(self)) =~= lines@,
        final(self).source == old(self).source, lines_left(*final(self)) =~= texts(lines@) + source_text(old(self).source),
//@end
/// where it ends is nothing else
//@extract parser/src/tasks/parse_inlines/mod.rs :: impl Parser :: fn should_stop_at
//@ sub ?line.current_token().and_then(|t| t.to_delimiter()) ==> line.vx_delimiter()
//@ sub ?self.ctx.delimiter.is_some_and(|d| line.is_delimiter(d)) ==> (self.ctx.delimiter.is_some() && line.is_delimiter(self.ctx.delimiter.unwrap()))
//@ spec
    ensures r == stops(*self, *line, is_first),
//@end

//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_list
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub mut lines: ContiguousLines ==> vx_lines: ContiguousLines
//@ sub ListVariant::from(marker) ==> vx_variant(marker)
//@ sub meta.as_ref().is_some_and(|meta| meta.attrs.has_str_positional("bibliography")) ==> vx_bibliography(&meta)
//@ sub while let Some(item) = self.parse_list_item(variant, &mut auto_conum)? { $x } ==> loop { let ghost vx_old = *self; let vx_item = self.parse_list_item(variant, &mut auto_conum)?; let Some(item) = vx_item else { proof { parsed_trans(vx_start, items_text(items@), vx_old, Seq::empty(), *self); assert(items_text(items@) + Seq::<int>::empty() =~= items_text(items@)); } break; }; proof { parsed_trans(vx_start, items_text(items@), vx_old, item_text(item), *self); items_push(items@, item); } $x }
//@ sub item.last_loc().unwrap_or(last_loc) ==> match item.last_loc() { Some(vx_l) => vx_l, None => last_loc }
//@ sub meta.unwrap_or_else(|| ChunkMeta::empty(start_loc.clamp_start(), vx_bump())) ==> (match meta { Some(vx_m) => vx_m, None => ChunkMeta::empty(start_loc.clamp_start(), vx_bump()) })
//@ sub std::mem::replace(&mut self.ctx.list.parsing_continuations, false) ==> self.ctx.list.parsing_continuations; self.ctx.list.parsing_continuations = false
//@ sub Ok(Block { $x }) ==> let vx_block = Block { $x }; proof { block_is(vx_block); assert(vx_meta + items_text(items@) + rest(*self) =~= vx_meta + (items_text(items@) + rest(*self))); assert(vx_meta + (texts(vx_lines@) + source_text(old(self).source)) =~= vx_meta + texts(vx_lines@) + source_text(old(self).source)); } Ok(vx_block)
//@ body
    broadcast use line_axioms;
    let ghost vx_meta = opt_meta(meta);
    let mut lines = vx_lines;
//@ before let first_line
    proof { let vx_k = kind0(lines@[0]); assert(seq![lines@[0]] + lines@.skip(1) =~= lines@); }
//@ before loop
    let ghost vx_start = *self;
    proof { assert(rest(vx_start) == texts(vx_lines@) + source_text(old(self).source)); assert(Seq::<int>::empty() + rest(vx_start) =~= rest(vx_start)); assert(self.ctx.list.stack@ =~= old(self).ctx.list.stack@.push(marker)); }
//@ loop 0
invariant
    self.ctx.list.stack@ == old(self).ctx.list.stack@.push(marker), !self.ctx.list.parsing_continuations, self.ctx.list.outer_depth == old(self).ctx.list.outer_depth,
    self.ctx.delimiter == old(self).ctx.delimiter, self.ctx.can_nest_blocks == old(self).ctx.can_nest_blocks, self.ctx.in_markdown_blockquote == old(self).ctx.in_markdown_blockquote, self.ctx.section_level == old(self).ctx.section_level,
    meta_ok(*self), variant == variant_of(marker), vx_start.unattached@ || parsed(vx_start, items_text(items@), *self), vx_start.unattached@ ==> self.unattached@,
    forall|i: int| 0 <= i < items@.len() ==> same_list(marker, (#[trigger] items@[i]).marker),
ensures
    self.ctx.list.stack@ == old(self).ctx.list.stack@.push(marker), !self.ctx.list.parsing_continuations, self.ctx.list.outer_depth == old(self).ctx.list.outer_depth,
    self.ctx.delimiter == old(self).ctx.delimiter, self.ctx.can_nest_blocks == old(self).ctx.can_nest_blocks, self.ctx.in_markdown_blockquote == old(self).ctx.in_markdown_blockquote, self.ctx.section_level == old(self).ctx.section_level,
    meta_ok(*self), vx_start.unattached@ || parsed(vx_start, items_text(items@), *self), vx_start.unattached@ ==> self.unattached@,
    forall|i: int| 0 <= i < items@.len() ==> same_list(marker, (#[trigger] items@[i]).marker),
//@ before let vx_block
    proof { assert(self.ctx.list.stack@ =~= old(self).ctx.list.stack@); }
//@ spec
    requires
        old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, vx_lines@.len() > 0, mark(vx_lines@[0]).is_some(),
    ensures match r {
        Ok(b) => around(*old(self), *final(self)) && meta_ok(*final(self)) && b.context != BlockContext::Comment
            && (final(self).unattached@ || !old(self).unattached@ && block_text(b) + rest(*final(self)) == opt_meta(meta) + texts(vx_lines@) + source_text(old(self).source))
            && (b.content matches BlockContent::List { variant, depth, items } && variant == variant_of(mark(vx_lines@[0]).unwrap())
                && (old(self).ctx.list.stack@.len() < 255 ==> depth == min255(old(self).ctx.list.outer_depth + old(self).ctx.list.stack@.len() + 1))
                && forall|i: int| 0 <= i < items@.len() ==> same_list(mark(vx_lines@[0]).unwrap(), (#[trigger] items@[i]).marker)),
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_list_item
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ optchain
//@ sub conum.saturating_add(1) ==> vx_next_num(conum)
//@ sub Ok(Some(ListItem { $x })) ==> let vx_item = ListItem { $x }; proof { item_is(vx_item); assert(nodes_text(principle) + blocks_text(blocks@) =~= nodes_text(principle) + kind_text(type_meta) + blocks_text(blocks@)); assert(nodes_text(principle) + blocks_text(blocks@) + rest(*self) =~= nodes_text(principle) + (blocks_text(blocks@) + rest(*self))); assert(nodes_text(principle) + (texts(vx_rest) + vx_src) =~= nodes_text(principle) + texts(vx_rest) + vx_src); assert(Seq::<int>::empty() + texts(vx_rest) =~= texts(vx_rest)); } Ok(Some(vx_item))
//@ body
    broadcast use line_axioms;
    proof { if peeked(*self).len() > 0 { let vx_k = kind0(peeked(*self)[0]); } }
//@ before let Some(marker)
    let ghost vx_all = lines@;
    let ghost vx_src = source_text(self.source);
    proof { assert(Seq::<int>::empty() + rest(*old(self)) =~= rest(*old(self))); assert(seq![vx_all[0]] + vx_all.skip(1) =~= vx_all); texts_front(vx_all.skip(1), vx_all[0]); let vx_k = kind0(vx_all[0]); }
//@ before line.trim_leading_whitespace
    proof { assert(self.peeked_meta.is_none()); assert(lines@ == vx_all.skip(1)); assert(text(line) == text(vx_all[0])); }
//@ before let mut item_lines
    proof { let vx_k = kind0(line); assert(kind0(line) != Some(DelimiterLine)); assert(text(line) == text(vx_all[0])); assert(kind_text(type_meta) =~= Seq::<int>::empty()); }
    let ghost vx_text = text(line) + texts(lines@);
    proof { assert(vx_text + vx_src == rest(*old(self))); texts_push(Seq::<Line>::empty(), line); assert(texts(Seq::<Line>::empty()) =~= Seq::<int>::empty()); assert(Seq::<int>::empty() + text(line) =~= text(line)); }
//@ before while
    let ghost vx_p = *self;
    proof { assert(texts(item_lines@) + texts(lines@) =~= vx_text); }
//@ loop 0
invariant
    !self.ctx.list.parsing_continuations, !in_desc(*self), texts(item_lines@) + texts(lines@) == vx_text, *self == vx_p,
    forall|i: int| 0 <= i < item_lines@.len() ==> !stops(*self, #[trigger] item_lines@[i], i == 0),
decreases lines@.len(),
//@ loopbody 0
    broadcast use line_axioms;
    let ghost vx_il = item_lines@;
    let ghost vx_ls = lines@;
    proof { let vx_k = kind0(lines@[0]); assert(seq![vx_ls[0]] + vx_ls.skip(1) =~= vx_ls); texts_front(vx_ls.skip(1), vx_ls[0]); }
//@ after [1] item_lines.push(line);
    proof { texts_push(vx_il, item_lines@.last()); assert(item_lines@ =~= vx_il.push(item_lines@.last())); let vx_k = kind0(item_lines@.last()); assert(texts(vx_il) + (text(vx_ls[0]) + texts(vx_ls.skip(1))) =~= texts(vx_il) + text(vx_ls[0]) + texts(vx_ls.skip(1))); }
//@ before let principle
    let ghost vx_rest = lines@;
//@ before let blocks
    proof { assert(texts(Seq::<Line>::empty()) =~= Seq::<int>::empty()); assert(item_lines@ =~= Seq::<Line>::empty()); assert(nodes_text(principle) + Seq::<int>::empty() =~= nodes_text(principle)); }
//@ spec
    requires
        meta_ok(*old(self)), old(self).ctx.list.stack@.len() > 0, list_variant == variant_of(old(self).ctx.list.stack@.last()), !old(self).ctx.list.parsing_continuations,
    ensures match r {
        Ok(Some(item)) => around(*old(self), *final(self)) && meta_ok(*final(self)) && parsed(*old(self), item_text(item), *final(self)) && same_list(old(self).ctx.list.stack@.last(), item.marker),
        Ok(None) => around(*old(self), *final(self)) && meta_ok(*final(self)) && parsed(*old(self), Seq::empty(), *final(self)),
        Err(_) => true,
    },
//@end
/// what is attached to an item or nested in it
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_list_item_blocks
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub mut blocks: ==> vx_blocks:
//@ body
    broadcast use {line_axioms, vx_words};
    let mut blocks = vx_blocks;
    proof { if lines@.len() == 0 { assert(texts(lines@) =~= Seq::<int>::empty()); } }
//@ spec
    requires
        old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, old(self).ctx.list.stack@.len() > 0, !old(self).ctx.list.parsing_continuations,
    ensures match r {
        Ok(out) => around(*old(self), *final(self)) && meta_ok(*final(self)) && behind(*old(self), blocks_text(vx_blocks@) + texts(lines@) + source_text(old(self).source), blocks_text(out@), *final(self)),
        Err(_) => true,
    },
//@end
/// what is attached to an item by `+`, and a list that is nested in it
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_list_continuation_blocks
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub mut accum: ==> vx_accum:
//@ optchain
//@ body
    broadcast use {line_axioms, vx_words};
    let mut accum = vx_accum;
//@ spec
    requires
        meta_ok(*old(self)), old(self).ctx.list.stack@.len() > 0, !old(self).ctx.list.parsing_continuations,
    ensures match r {
        Ok(out) => around(*old(self), *final(self)) && meta_ok(*final(self)) && behind(*old(self), blocks_text(vx_accum@) + rest(*old(self)), blocks_text(out@), *final(self)),
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_description_list_item
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub mut line: ==> vx_line:
//@ sub mut lines: ==> vx_lines:
//@ sub let description = self.parse_block()?.filter(|block| block.context != BlockContext::Comment); ==> let vx_described = self.parse_block()?; if vx_comment(&vx_described) { let vx_g: Ghost<bool> = Ghost(true); self.unattached = vx_g; } let description = vx_no_comment(vx_described);
//@ sub Ok(Some(ListItem { blocks: self.parse_description_list_item_blocks()?, $x })) ==> let vx_blocks = self.parse_description_list_item_blocks()?; let vx_item = ListItem { blocks: vx_blocks, $x }; proof { item_is(vx_item); assert(kind_text(vx_item.type_meta) == terms_text(extra_terms@) + opt_text(description)); } Ok(Some(vx_item))
//@ body
    broadcast use {line_axioms, vx_words};
    let mut line = vx_line;
    let mut lines = vx_lines;
//@ before if line.is_empty()
    proof { let vx_k = kind0(line); assert(terms_text(extra_terms@) =~= Seq::<int>::empty()); }
//@ before let vx_described
    proof { assert(nodes_text(principle) + (terms_text(extra_terms@) + rest(*self)) == text(vx_line) + (texts(vx_lines@) + source_text(old(self).source))); }
//@ spec
    requires
        old(self).peeked_lines.is_none(), old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, old(self).ctx.list.stack@.len() > 0, !old(self).ctx.list.parsing_continuations,
        mark(vx_line) == Some(marker), is_desc(marker), vx_lines.taken() > 0,
    ensures match r {
        Ok(Some(item)) => around(*old(self), *final(self)) && meta_ok(*final(self)) && behind(*old(self), text(vx_line) + texts(vx_lines@) + source_text(old(self).source), item_text(item), *final(self)) && item.marker == marker,
        Ok(None) => false,
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_description_list_term
//@ sub line.extract_line_before($x) ==> line.vx_before_delimiter()
//@ sub self.parse_inlines(&mut before_delim.into_lines())? ==> let mut vx_term = before_delim.into_lines(); let vx_n = self.parse_inlines(&mut vx_term)?; vx_n
//@ before let mut vx_term
    proof { let vx_k = kind0(before_delim); texts_one(before_delim); assert(!stops(*self, before_delim, true)); }
//@ before vx_n }
    proof { assert(vx_term@.len() == 0); assert(texts(vx_term@) =~= Seq::<int>::empty()); }
//@ body
    broadcast use {line_axioms, vx_words};
//@ spec
    requires
        mark(*old(line)).is_some(), is_desc(mark(*old(line)).unwrap()), !old(self).ctx.list.parsing_continuations,
    ensures match r {
        Ok(t) => same(*old(self), *final(self)) && nodes_text(t.0) + text(*final(line)) == text(*old(line)),
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn gather_extra_terms
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ body
    broadcast use {line_axioms, vx_words};
//@ before lines.discard_leading_comment_lines
    proof { behind_texts(lines@); }
//@ spec
    requires
        old(self).peeked_meta.is_none(), old(self).ctx.can_nest_blocks, is_desc(marker), !old(self).ctx.list.parsing_continuations,
    ensures match r {
        Ok(_) => around(*old(self), *final(self)) && final(self).peeked_meta.is_none() && final(self).unattached == old(self).unattached
            && terms_text(final(terms)@) + rest(*final(self)) == terms_text(old(terms)@) + rest(*old(self)),
        Err(_) => true,
    },
//@end
//@extract parser/src/tasks/parse_list.rs :: impl Parser :: fn parse_description_list_item_blocks
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ body
    broadcast use {line_axioms, vx_words};
//@ spec
    requires
        meta_ok(*old(self)), old(self).ctx.list.stack@.len() > 0, !old(self).ctx.list.parsing_continuations,
    ensures match r {
        Ok(out) => around(*old(self), *final(self)) && meta_ok(*final(self)) && parsed(*old(self), blocks_text(out@), *final(self)),
        Err(_) => true,
    },
//@end
}
fn vx_next_num(n: u8) -> u8 { if n < 255 { n + 1 } else { 255 } }
fn vx_comment(b: &Option<Block>) -> (r: bool)
    ensures r == (*b matches Some(b) && b.context == BlockContext::Comment),
{ match b { Some(b) => b.context == BlockContext::Comment, None => false } }
fn vx_no_comment(b: Option<Block>) -> (r: Option<Block>)
    ensures !(b matches Some(b) && b.context == BlockContext::Comment) ==> r == b, r.is_none() || r == b,
{ match b { Some(b) => if b.context == BlockContext::Comment { None } else { Some(b) }, None => None } }
/// as `parsed`, where some of what is to be read has been taken out
pub open spec fn behind(a: Parser, before: Seq<int>, out: Seq<int>, b: Parser) -> bool { b.unattached@ || !a.unattached@ && out + rest(b) == before }
pub open spec fn opt_meta(m: Option<ChunkMeta>) -> Seq<int> { match m { Some(m) => meta_text(m), None => Seq::empty() } }
fn main() {}
}
