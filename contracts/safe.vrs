//@include prelude.inc
use vstd::string::*;
verus! {
// unit: what a document can make the processor read (includes, images, docinfo, the command line's file access)
//@gsub BumpString<'arena> ==> String
//@gsub SourceString<'arena> ==> SourceString
//@gsub BumpString<'a> ==> String
//@gsub Token<'a> ==> Token
//@gsub AttrList<'a> ==> AttrList
//@gsub AttrList<'arena> ==> AttrList
//@gsub MultiAttrList<'arena> ==> AttrList
//@gsub DirectiveAction<'arena> ==> DirectiveAction
//@gsub IncludeDirective<'arena> ==> IncludeDirective
//@gsub IncludeDirective<'a> ==> IncludeDirective
//@gsub ImageKind<'arena> ==> ImageKind
//@gsub ChunkMeta<'arena> ==> ChunkMeta
//@gsub BumpVec<'arena, u8> ==> VxBytes
//@gsub DocInfoFragment<'arena> ==> VxFragment
//@gsub &mut dyn IncludeResolver ==> &mut VxResolver
//@gsub Line<'arena> ==> Line
//@gsub format!($x) ==> vx_msg()
//@gsub regx::URI_SNIFF.is_match($x) ==> vx_uri_like($x)
//@gsub regx::SVG_TARGET.is_match($x) ==> vx_svg_like($x)
// ---- trusted models ----
pub type Text = Seq<char>;
#[verifier::external_body]
fn vx_msg() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
fn vx_some_text(a: &str) -> (r: String) { a.to_owned() }
#[verifier::external_body]
fn vx_string(a: &str) -> (r: String) ensures r@ == a@, { a.to_owned() }
#[verifier::external_body]
fn vx_any_bool() -> (r: bool) { unimplemented!() }
pub uninterp spec fn uri_like(s: Text) -> bool;
#[verifier::external_body]
fn vx_uri_like(s: &str) -> (r: bool) ensures r == uri_like(s@), { unimplemented!() }
#[verifier::external_body]
fn vx_svg_like(s: &str) -> (r: bool) { unimplemented!() }
/// what messages are made of is of no concern here
trait VxText { }
impl VxText for &str { }
impl VxText for String { }
pub struct Diagnostic { x: u8 }
pub type Result<T> = std::result::Result<T, Diagnostic>;
#[derive(Clone, Copy)]
pub struct SourceLocation { pub start: u32, pub end: u32, pub include_depth: u16 }
impl SourceLocation {
    #[verifier::external_body]
    fn uid(&self) -> u64 { unimplemented!() }
}
#[verifier::external_body]
pub struct VxBytes { x: u8 }
impl VxBytes {
    #[verifier::external_body]
    fn is_empty(&self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub struct VxFragment { x: u8 }
#[verifier::external_body]
pub struct VxOpaque { x: u8 }
#[derive(Clone, Copy)]
pub struct VxBump { x: u8 }
#[verifier::external_body]
fn vx_bytes(b: VxBump) -> (r: VxBytes) { unimplemented!() }
#[verifier::external_body]
fn vx_fragment(b: VxBump) -> (r: VxFragment) { unimplemented!() }

//@item core/src/types.rs :: - :: enum SafeMode
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@expect core/src/types.rs :: #[derive(Debug, Clone, Copy, PartialEq, Eq, Default, PartialOrd, Ord)]
/// the derived order of `SafeMode` is the order the variants are declared in
spec fn rank(m: SafeMode) -> int { match m { SafeMode::Unsafe => 0, SafeMode::Safe => 1, SafeMode::Server => 2, SafeMode::Secure => 3 } }
#[verifier::external_body]
fn vx_le(a: SafeMode, b: SafeMode) -> (r: bool) ensures r == (rank(a) <= rank(b)), { unimplemented!() }

// ---- paths ----
//@item core/src/path.rs :: - :: enum Component
//@ attr #[derive(Clone)]
//@end
//@item core/src/path.rs :: - :: struct Path
//@ attr #[derive(Clone)]
//@end
pub enum Comp { Scheme(Text), Drive(Text), Root, Cur, Parent, Name(Text) }
impl View for Component { type V = Comp; closed spec fn view(&self) -> Comp { match *self { Component::UriScheme(s) => Comp::Scheme(s@), Component::DrivePrefix(s) => Comp::Drive(s@), Component::Root => Comp::Root, Component::CurrentDir => Comp::Cur, Component::ParentDir => Comp::Parent, Component::Normal(s) => Comp::Name(s@) } } }
impl View for Path { type V = Seq<Comp>; closed spec fn view(&self) -> Seq<Comp> { self.components@.map_values(|c: Component| c@) } }
spec fn web(p: Seq<Comp>) -> bool { p.len() > 0 && p[0] is Scheme }
spec fn absolute(p: Seq<Comp>) -> bool { web(p) || (p.len() > 0 && p[0] is Root) || (p.len() > 1 && p[0] is Drive && p[1] is Root) }
spec fn joined(p: Seq<Comp>, o: Seq<Comp>) -> Seq<Comp> { if absolute(o) { o } else { p + o } }
/// how text is split into path components, and written out again
pub uninterp spec fn path_of(s: Text) -> Seq<Comp>;
pub uninterp spec fn path_text(p: Seq<Comp>) -> Text;
trait VxPath: Sized { spec fn p(&self) -> Seq<Comp>; fn vx_into(self) -> (r: Path) ensures r@ == self.p(); }
impl VxPath for Path { spec fn p(&self) -> Seq<Comp> { self@ } fn vx_into(self) -> (r: Path) { self } }
impl VxPath for &str { spec fn p(&self) -> Seq<Comp> { path_of(self@) } #[verifier::external_body] fn vx_into(self) -> (r: Path) { unimplemented!() } }
impl VxPath for String { spec fn p(&self) -> Seq<Comp> { path_of(self@) } #[verifier::external_body] fn vx_into(self) -> (r: Path) { unimplemented!() } }
impl VxPath for &String { spec fn p(&self) -> Seq<Comp> { path_of(self@) } #[verifier::external_body] fn vx_into(self) -> (r: Path) { unimplemented!() } }
#[verifier::external_body]
fn vx_extend(v: &mut Vec<Component>, o: Vec<Component>) ensures final(v)@ == old(v)@ + o@, { v.extend(o) }
#[verifier::external_body]
fn vx_clone_path(p: &Path) -> (r: Path) ensures r@ == p@, { unimplemented!() }
impl Path {
    fn new<P: VxPath>(p: P) -> (r: Path) ensures r@ == p.p(), { p.vx_into() }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == path_text(self@), { unimplemented!() }
    #[verifier::external_body]
    fn dirname(&self) -> (r: String) { unimplemented!() }
//@extract core/src/path.rs :: impl Path :: fn is_uri
//@ sub matches!(self.components.first(), Some(Component::UriScheme(_))) ==> (self.components.len() > 0 && matches!(&self.components[0], Component::UriScheme(_)))
//@ spec
ensures r == web(self@),
//@end
//@extract core/src/path.rs :: impl Path :: fn is_absolute
//@ sub matches!(self.components.first(), Some(Component::UriScheme(_))) ==> (self.components.len() > 0 && matches!(&self.components[0], Component::UriScheme(_)))
//@ sub self.components.first() == Some(&Component::Root) ==> (self.components.len() > 0 && matches!(&self.components[0], Component::Root))
//@ sub matches!(self.components.first(), Some(Component::DrivePrefix(_))) ==> (self.components.len() > 0 && matches!(&self.components[0], Component::DrivePrefix(_)))
//@ sub matches!(self.components.get(1), Some(Component::Root)) ==> (self.components.len() > 1 && matches!(&self.components[1], Component::Root))
//@ spec
ensures r == absolute(self@),
//@end
//@extract core/src/path.rs :: impl Path :: fn is_relative
//@ spec
ensures r == !absolute(self@),
//@end
//@extract core/src/path.rs :: impl Path :: fn push
//@ sub other: impl Into<Path> ==> other: Path
//@ sub other.into() ==> other
//@ sub self.components.extend(other.components) ==> vx_extend(&mut self.components, other.components)
//@ spec
ensures final(self)@ == joined(old(self)@, other@),
//@ tail
proof { assert(final(self)@ =~= joined(old(self)@, other@)); }
//@end
//@extract core/src/path.rs :: impl Path :: fn join
//@ sub other: impl Into<Path> ==> other: impl VxPath
//@ sub self.clone() ==> vx_clone_path(self)
//@ sub joined.push(other) ==> joined.push(other.vx_into())
//@ spec
ensures r@ == joined(self@, other.p()),
//@end
}

// ---- attributes in force and who may ask for what (unit meta) ----
pub enum AV { S(Text), B(bool) }
#[verifier::external_body]
pub struct Attrs { x: u8 }
pub struct DocumentMeta { pub safe_mode: SafeMode, pub attrs: Attrs, pub included_files: VxOpaque, pub data_admonition_icons: VxOpaque }
spec fn text(v: Option<AV>) -> Option<Text> { match v { Some(AV::S(s)) => Some(s), Some(AV::B(true)) => Some(Seq::empty()), _ => None } }
impl DocumentMeta {
    pub uninterp spec fn v(&self, k: Text) -> Option<AV>;
    #[verifier::external_body]
    fn is_true(&self, k: &str) -> (r: bool) ensures r == (self.v(k@) == Some(AV::B(true))), { unimplemented!() }
    #[verifier::external_body]
    fn is_set(&self, k: &str) -> (r: bool) ensures r == self.v(k@).is_some(), { unimplemented!() }
    #[verifier::external_body]
    fn is_unset(&self, k: &str) -> (r: bool) ensures r == self.v(k@).is_none(), { unimplemented!() }
    #[verifier::external_body]
    fn str(&self, k: &str) -> (r: Option<&str>) ensures match r { Some(s) => text(self.v(k@)) == Some(s@), None => text(self.v(k@)).is_none() }, { unimplemented!() }
    #[verifier::external_body]
    fn str_or<'a>(&'a self, k: &str, d: &'a str) -> (r: &'a str) { unimplemented!() }
    /// a read-only job attribute is what is in force from then on (unit meta)
    #[verifier::external_body]
    fn insert_job_attr(&mut self, k: &str, j: JobAttr) -> (r: std::result::Result<(), String>)
        ensures final(self).safe_mode == old(self).safe_mode, j.readonly ==> final(self).v(k@) == Some(j.value),
            forall|o: Text| o != k@ ==> #[trigger] final(self).v(o) == old(self).v(o),
    { unimplemented!() }
    /// a web address may be read only if the caller of the processor has said so
    spec fn may_read_web(&self) -> bool { rank(self.safe_mode) <= rank(SafeMode::Server) && self.v("allow-uri-read"@) == Some(AV::B(true)) }
    /// in secure mode images are not embedded, whatever the document asks for
    spec fn locked_down(&self) -> bool { self.safe_mode == SafeMode::Secure ==> self.v("data-uri"@) == Some(AV::B(false)) }
}
pub struct JobAttr { pub readonly: bool, pub value: AV }
impl JobAttr {
    /// what unit meta proves of it, for the two kinds of value used here
    #[verifier::external_body]
    fn readonly<V: VxAv>(v: V) -> (r: JobAttr) ensures r.readonly, r.value == v.av(), { unimplemented!() }
}
trait VxAv { spec fn av(&self) -> AV; }
impl VxAv for bool { spec fn av(&self) -> AV { AV::B(*self) } }
impl VxAv for &str { spec fn av(&self) -> AV { AV::S(self@) } }

// ---- the reading itself: THE PROPERTY is the precondition of `vx_resolve` ----
#[verifier::external_body]
pub struct VxResolver { x: u8 }
//@item parser/src/tasks/directives/includes/include_resolver.rs :: - :: enum IncludeTarget
//@end
//@item parser/src/tasks/directives/includes/include_resolver.rs :: - :: enum ResolveError
//@end
#[verifier::external_body]
fn vx_base_dir(r: &VxResolver) -> (b: Option<String>) { unimplemented!() }
/// ask the embedder's resolver for a file or web address
#[verifier::external_body]
fn vx_resolve(res: &mut VxResolver, target: IncludeTarget, buffer: &mut VxBytes, safe_mode: SafeMode, meta: &DocumentMeta) -> (r: std::result::Result<usize, ResolveError>)
    requires
        meta.safe_mode != SafeMode::Secure,
        target is Uri ==> meta.may_read_web(),
        safe_mode == meta.safe_mode,
{ unimplemented!() }
impl IncludeTarget {
//@extract parser/src/tasks/directives/includes/include_resolver.rs :: impl IncludeTarget :: fn is_path
//@ spec
ensures r == (self is FilePath),
//@end
//@extract parser/src/tasks/directives/includes/include_resolver.rs :: impl IncludeTarget :: fn is_uri
//@ spec
ensures r == (self is Uri),
//@end
//@extract parser/src/tasks/directives/includes/include_resolver.rs :: impl IncludeTarget :: fn path
//@ spec
ensures r@ == (match *self { IncludeTarget::FilePath(s) => path_of(s@), IncludeTarget::Uri(s) => path_of(s@) }),
//@end
//@extract parser/src/tasks/directives/includes/include_resolver.rs :: impl From<Path> for IncludeTarget :: fn from
//@ sub -> Self ==> -> IncludeTarget
//@ spec
ensures r is Uri == web(path@), (match r { IncludeTarget::FilePath(s) => s@ == path_text(path@), IncludeTarget::Uri(s) => s@ == path_text(path@) }),
//@end
}

// ---- the source stack, as far as nesting goes (unit lexer has the rest) ----
pub struct SourceLexer { pub max_include_depth: Option<u16>, pub file: SourceFile }
//@item parser/src/parser.rs :: - :: enum SourceFile
//@end
#[verifier::external_body]
pub struct VxRest { x: u8 }
pub struct RootLexer { pub idx: u16, pub source_stack: Vec<u16>, pub sources: Vec<SourceLexer>, pub rest: VxRest }
spec fn pick_limit(l: RootLexer, n: int) -> Option<(u16, u16)>
    decreases n + 1,
{
    if n < 0 { None } else {
        let i = if n == l.source_stack.len() { l.idx } else { l.source_stack@[n] };
        match l.sources@[i as int].max_include_depth { Some(d) => Some((d, n as u16)), None => pick_limit(l, n - 1) }
    }
}
impl RootLexer {
    /// (established by unit lexer's `root_wf`)
    spec fn stack_wf(&self) -> bool {
        &&& self.source_stack.len() < self.sources.len() <= 0xffff
        &&& (self.idx as int) < self.sources.len()
        &&& forall|k: int| 0 <= k < self.source_stack.len() ==> (#[trigger] self.source_stack@[k] as int) < self.sources.len()
    }
    /// the includes that led to the text being read
    spec fn depth(&self) -> int { self.source_stack.len() as int }
    /// `depth=` of the innermost of them that has one, with its own depth
    spec fn limit(&self) -> Option<(u16, u16)> { pick_limit(*self, self.source_stack.len() as int) }
    #[verifier::external_body]
    fn set_tmp_buf(&mut self, s: &str, b: BufLoc) { unimplemented!() }
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn include_depth
//@ spec
requires self.stack_wf(),
ensures r == self.depth(),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn max_include_depth
//@ sub max_depth.map(|max| (max, depth)) ==> match max_depth { Some(max) => Some((max, depth)), None => None }
//@ spec
requires self.stack_wf(),
ensures r == self.limit(),
//@ loop 0
invariant self.stack_wf(), depth <= self.source_stack.len(),
    self.limit() == (match max_depth { Some(d) => Some((d, depth)), None => pick_limit(*self, depth - 1) }),
decreases depth,
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn can_push_source
//@ spec
ensures r == (self.sources.len() < 0xffff),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn source_is_primary
//@ spec
ensures r == (self.idx == 0),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn source_file
//@ spec
requires self.stack_wf(),
ensures *r == self.sources@[self.idx as int].file,
//@end
}
pub struct ParseContext { pub max_include_depth: u16 }
pub struct Docinfo { pub head: Option<VxFragment>, pub header: Option<VxFragment>, pub footer: Option<VxFragment> }
pub struct Document { pub meta: DocumentMeta, pub docinfo: Docinfo }
pub struct Parser { pub lexer: RootLexer, pub ctx: ParseContext, pub document: Document, pub include_resolver: Option<VxResolver>, pub bump: VxBump }
/// the bound on nesting in force where the text being read stands
spec fn bound(p: Parser) -> int {
    match p.lexer.limit() { Some((d, k)) => if d + k < p.ctx.max_include_depth { d + k } else { p.ctx.max_include_depth as int }, None => p.ctx.max_include_depth as int }
}
/// `push_source` (unit lexer), only ever called within the bound
#[verifier::external_body]
fn vx_push_source(l: &mut RootLexer, bound: Ghost<int>, f: SourceFile, leveloffset: i8, max: Option<u16>, b: VxBytes)
    requires old(l).stack_wf(), old(l).depth() < bound@, old(l).sources.len() < 0xffff,
{ unimplemented!() }
pub enum DirectiveAction { Passthrough, ReadNextLine, SkipLinesUntilEndIf, SubstituteLine(Line) }
#[verifier::external_body]
pub struct Line { x: u8 }
#[verifier::external_body]
pub struct AttrList { x: u8 }
impl AttrList {
    #[verifier::external_body]
    fn named(&self, k: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_value(&self, k: &str) -> (r: Option<AttrValue>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_number(&self, k: &str) -> (r: Option<u16>) { unimplemented!() }
    #[verifier::external_body]
    fn has_option(&self, k: &str) -> (r: bool) { unimplemented!() }
}
pub struct Token { pub loc: SourceLocation }
//@item parser/src/tasks/directives/includes/process_includes.rs :: - :: struct IncludeDirective
//@end
pub struct SourceString { pub src: String, pub loc: SourceLocation }
pub enum ImageKind { Standard, InlineSvg(Option<String>), DataUri(Option<String>) }
pub struct ChunkMeta { pub attrs: AttrList, pub start_loc: SourceLocation }
#[verifier::external_body]
pub struct AttrValue { x: u8 }
#[verifier::external_body]
fn vx_any_u32() -> (r: u32) { unimplemented!() }
pub enum BufLoc { Offset(u32), Other }
impl SourceFile {
    #[verifier::external_body]
    fn file_name(&self) -> (r: &str) { unimplemented!() }
}
#[verifier::external_body]
fn vx_note_included(m: &mut DocumentMeta, s: &str) ensures final(m).safe_mode == old(m).safe_mode, final(m).attrs == old(m).attrs, { unimplemented!() }
/// what the rest of the parser leaves alone: the safe mode, permissions given with the job (unit meta: `theorem_locked`), the limits on nesting
spec fn same_rights(a: Parser, b: Parser) -> bool {
    &&& a.document.meta.safe_mode == b.document.meta.safe_mode
    &&& a.document.meta.v("allow-uri-read"@) == b.document.meta.v("allow-uri-read"@)
    &&& a.document.meta.v("data-uri"@) == b.document.meta.v("data-uri"@) || a.document.meta.safe_mode != SafeMode::Secure
    &&& a.ctx.max_include_depth == b.ctx.max_include_depth
    &&& a.lexer == b.lexer
}
impl Parser {
    #[verifier::external_body]
    fn valid_include_directive(&mut self, line: &mut Line) -> (r: Result<Option<IncludeDirective>>) ensures same_rights(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn target_err(&mut self, m: impl VxText, d: &IncludeDirective) -> (r: Result<()>) ensures *final(self) == *old(self), { unimplemented!() }
    #[verifier::external_body]
    fn substitute_link_for_include(&mut self, d: &IncludeDirective) -> (r: Line) { unimplemented!() }
    #[verifier::external_body]
    fn err_line_starting(&self, m: impl VxText, loc: SourceLocation) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn err_token_full(&self, m: impl VxText, t: &Token) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn err_at(&self, m: impl VxText, loc: SourceLocation) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn normalize_include_bytes(&mut self, p: &Path, a: &AttrList, b: &mut VxBytes) -> (r: std::result::Result<(), String>) ensures same_rights(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn normalize_encoding(&self, e: Option<VxOpaque>, b: &mut VxBytes) -> (r: std::result::Result<(), String>) { unimplemented!() }
    #[verifier::external_body]
    fn select_lines(&mut self, a: &AttrList, p: &Path, b: &mut VxBytes) -> (r: Result<()>) ensures same_rights(*old(self), *final(self)), { unimplemented!() }
    #[verifier::external_body]
    fn set_include_indentation(&self, a: &AttrList, b: &mut VxBytes) { unimplemented!() }
    #[verifier::external_body]
    fn string(&self, s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
    #[verifier::external_body]
    fn adjust_leveloffset(o: &mut i8, v: &AttrValue) { unimplemented!() }
//@extract parser/src/tasks/directives/includes/process_includes.rs :: impl Parser :: fn may_read_uri
//@ sub self.document.meta.safe_mode <= SafeMode::Server ==> vx_le(self.document.meta.safe_mode, SafeMode::Server)
//@ spec
ensures r == self.document.meta.may_read_web(),
//@end
//@extract parser/src/tasks/directives/includes/process_includes.rs :: impl Parser :: fn include_depth_limit
//@ sub .unwrap_or((self.ctx.max_include_depth, 0)) ==> .unwrap_or((self.ctx.max_include_depth, 0u16))
//@ sub u16::min($a, $b) ==> vx_min($a, $b)
//@ sub rel_depth.saturating_add(stack_depth) ==> vx_sat_add(rel_depth, stack_depth)
//@ spec
requires self.lexer.stack_wf(),
ensures r.1 == bound(*self),
//@end
//@extract parser/src/tasks/directives/includes/process_includes.rs :: impl Parser :: fn exceeded_max_include_depth
//@ spec
requires self.lexer.stack_wf(),
ensures r.is_some() == (self.lexer.depth() >= bound(*self)),
//@end
//@extract parser/src/tasks/directives/includes/process_includes.rs :: impl Parser :: fn remaining_include_depth
//@ sub abs_depth.saturating_sub(self.lexer.include_depth()) ==> vx_sat_sub(abs_depth, self.lexer.include_depth())
//@ spec
requires self.lexer.stack_wf(),
ensures r == (if self.lexer.depth() < bound(*self) { bound(*self) - self.lexer.depth() } else { 0 }),
//@end
//@extract parser/src/tasks/directives/includes/process_includes.rs :: impl Parser :: fn try_process_include_directive
//@ sub self.include_resolver.as_mut() ==> vx_as_mut(&mut self.include_resolver)
//@ sub resolver.get_base_dir().map(Path::new) ==> vx_base_path(resolver)
//@ sub super::target::prepare ==> prepare
//@ sub BumpVec::new_in(self.bump) ==> vx_bytes(self.bump)
//@ sub resolver.resolve(target, &mut buffer, $m) ==> vx_resolve(resolver, target, &mut buffer, $m, &self.document.meta)
//@ sub .named("leveloffset").map(|s| AttrValue::String(s.to_string())) ==> .vx_value("leveloffset")
//@ sub let mut leveloffset = 0; ==> let mut leveloffset = 0i8;
//@ sub .named("depth").and_then(|s| s.parse::<u16>().ok()) ==> .vx_number("depth")
//@ sub self.lexer.push_source($a, $b, $c, $d,) ==> let ghost vx_b = bound(*self); vx_push_source(&mut self.lexer, Ghost(vx_b), $a, $b, $c, $d)
//@ sub self.document.meta.included_files.borrow_mut().insert($x); ==> vx_note_included(&mut self.document.meta, directive.target.as_str());
//@ sub directive.first_token.loc.start + msg.len() as u32 ==> vx_any_u32()
//@ sub ?s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") ==> vx_some_text(s)
//@ spec
requires old(self).lexer.stack_wf(),
//@end
}
fn vx_min(a: u16, b: u16) -> (r: u16) ensures r == (if a < b { a } else { b }), { if a < b { a } else { b } }
fn vx_sat_add(a: u16, b: u16) -> (r: u16) ensures r == (if a + b > 0xffff { 0xffff } else { a + b }), { if a as u32 + b as u32 > 0xffff { 0xffff } else { a + b } }
fn vx_sat_sub(a: u16, b: u16) -> (r: u16) ensures r == (if a < b { 0 } else { a - b }), { if a < b { 0 } else { a - b } }
#[verifier::external_body]
fn vx_as_mut(o: &mut Option<VxResolver>) -> (r: Option<&mut VxResolver>) { o.as_mut() }
#[verifier::external_body]
fn vx_base_path(r: &VxResolver) -> (b: Option<Path>) { unimplemented!() }
//@extract parser/src/tasks/directives/includes/target.rs :: - :: fn prepare
//@ sub Target::Uri(target_str.to_string()) ==> IncludeTarget::Uri(vx_string(target_str))
//@ sub Target::FilePath ==> IncludeTarget::FilePath
//@ sub Err::BaseDirRequired ==> ResolveError::BaseDirRequired
//@ sub Src::Path ==> SourceFile::Path
//@ sub Src::Stdin ==> SourceFile::Stdin
//@ sub Src::Tmp ==> SourceFile::Tmp
//@ sub $x.into() ==> IncludeTarget::from($x)
//@ sub Path::new(src.dirname()) ==> Path::new(src.dirname())
//@ spec
ensures match r {
    Ok(t) => {
        let p = path_of(target_str@);
        &&& target_is_uri ==> (t matches IncludeTarget::Uri(s) && s@ == target_str@)
        &&& !target_is_uri && absolute(p) ==> (t is Uri == web(p)) && (match t { IncludeTarget::FilePath(s) => s@ == path_text(p), IncludeTarget::Uri(s) => s@ == path_text(p) })
        &&& !target_is_uri && !absolute(p) && src_is_primary ==> (base_dir.is_some() && (t matches IncludeTarget::FilePath(s) && s@ == path_text(joined(base_dir.unwrap()@, p))))
    },
    Err(_) => !target_is_uri && !absolute(path_of(target_str@)),
},
//@end

// ---- images ----
//@item parser/src/tasks/parse_image_block.rs :: - :: enum IncludeKind
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
pub enum AdmonitionKind { Some }
#[verifier::external_body]
fn vx_image_bytes(b: &VxBytes) -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_svg(b: &VxBytes, attrs: &AttrList) -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_starts_with(s: &SourceString, p: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn vx_not_svg(s: &AttrList) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn vx_none_has_option(s: Option<&AttrList>, k: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn vx_target_text(s: &SourceString) -> (r: &str) ensures r@ == s.src@, { unimplemented!() }
impl IncludeKind {
//@extract parser/src/tasks/parse_image_block.rs :: impl IncludeKind :: fn image_dir_attr
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl IncludeKind :: fn err_str
//@end
}
impl Parser {
    spec fn locked_down(&self) -> bool { self.document.meta.locked_down() }
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn prepended_target_is_uri
//@ sub self.document.meta.str(kind.image_dir_attr()).map(|dir| vx_uri_like(dir)).unwrap_or(false) ==> match self.document.meta.str(kind.image_dir_attr()) { Some(dir) => vx_uri_like(dir), None => false }
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn is_disallowed_abs_uri
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn should_resolve_as_inline_svg
//@ sub block_attrs.is_none_or(|a| !a.has_option("inline")) ==> vx_none_has_option(block_attrs, "inline")
//@ sub macro_attrs.named("format").is_some_and(|f| f != "svg") ==> vx_not_svg(macro_attrs)
//@ sub self.document.meta.safe_mode >= SafeMode::Secure ==> vx_le(SafeMode::Secure, self.document.meta.safe_mode)
//@ spec
ensures r ==> self.document.meta.safe_mode != SafeMode::Secure,
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn get_image_bytes
//@ sub self.include_resolver.as_mut() ==> vx_as_mut(&mut self.include_resolver)
//@ sub resolver.get_base_dir().map(Path::new) ==> vx_base_path(resolver)
//@ sub target.to_string() ==> vx_string(target)
//@ sub BumpVec::new_in(self.bump) ==> vx_bytes(self.bump)
//@ sub resolver.resolve(include_target, &mut buffer, $m) ==> vx_resolve(resolver, include_target, &mut buffer, $m, &self.document.meta)
//@ spec
requires old(self).document.meta.safe_mode != SafeMode::Secure,
ensures final(self).document == old(self).document, final(self).lexer == old(self).lexer, final(self).ctx == old(self).ctx,
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn parse_inline_svg
//@ sub &target.src ==> target.src.as_str()
//@ sub let mut buf = &buffer[..]; ==> let image = vx_svg(&buffer, attrs);
//@ sub if let Some(caps) = regx::SVG_PREAMBLE.captures(buf) { buf = &buffer[(caps[0].len() - 4)..]; } ==>
//@ sub buf = buf.trim_ascii(); ==>
//@ sub let width = $x; ==>
//@ sub let height = $x; ==>
//@ sub let image = if width.is_none() && height.is_none() { $x } else { $y }; ==>
//@ spec
requires old(self).document.meta.safe_mode != SafeMode::Secure,
ensures final(self).document == old(self).document, final(self).lexer == old(self).lexer, final(self).ctx == old(self).ctx,
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn parse_data_uri
//@ sub &target.src ==> target.src.as_str()
//@ sub crate::base64::encode_in(&bytes, self.bump,) ==> vx_image_bytes(&bytes)
//@ spec
requires old(self).document.meta.safe_mode != SafeMode::Secure,
ensures final(self).document == old(self).document, final(self).lexer == old(self).lexer, final(self).ctx == old(self).ctx,
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn parse_image_kind
//@ sub self.should_resolve_as_inline_svg(target, ==> self.should_resolve_as_inline_svg(vx_target_text(target),
//@ sub target.starts_with("data:") ==> vx_starts_with(target, "data:")
//@ spec
requires old(self).locked_down(),
ensures final(self).document == old(self).document, final(self).lexer == old(self).lexer, final(self).ctx == old(self).ctx,
//@end
//@extract parser/src/tasks/parse_image_block.rs :: impl Parser :: fn maybe_set_admonition_icon_uri
//@ sub context: BlockContext ==> context: Option<AdmonitionKind>
//@ sub let Ok(admonition_kind) = AdmonitionKind::try_from(context) ==> let Some(admonition_kind) = context
//@ sub self.document.meta.str("icons") == Some("font") ==> vx_any_bool()
//@ sub BumpString::with_capacity_in(12, self.bump) ==> vx_string("")
//@ sub admonition_kind.lowercase_str() ==> vx_name(&admonition_kind)
//@ sub filename.push('.'); ==> vx_push_char(&mut filename, '.');
//@ sub String::with_capacity(32) ==> vx_string("")
//@ sub ext.is_empty() ==> vx_any_bool()
//@ sub ext == "svg" ==> vx_any_bool()
//@ sub data_uri.reserve(bytes.len()); ==>
//@ sub crate::base64::encode_in(&bytes, self.bump) ==> vx_image_bytes(&bytes)
//@ sub &filename ==> filename.as_str()
//@ sub self.document.meta.data_admonition_icons.insert($x); ==> vx_note_icon(&mut self.document.meta);
//@ spec
requires old(self).locked_down(),
//@end
//@extract parser/src/parser.rs :: impl Parser :: fn lockdown_secure_mode
//@ sub _ = meta.insert_job_attr ==> let _ = meta.insert_job_attr
//@ spec
ensures final(self).locked_down(), final(self).document.meta.safe_mode == old(self).document.meta.safe_mode,
//@ body
proof { lits(); }
//@end
}
//@expect parser/src/parser.rs :: self.lockdown_secure_mode();
//@distinct lits data-uri max-attribute-value-size linkcss icons allow-uri-read
#[verifier::external_body]
fn vx_name(a: &AdmonitionKind) -> (r: &'static str) { unimplemented!() }
#[verifier::external_body]
fn vx_push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c), { s.push(c) }
#[verifier::external_body]
fn vx_note_icon(m: &mut DocumentMeta) ensures final(m).safe_mode == old(m).safe_mode, final(m).attrs == old(m).attrs, { unimplemented!() }

// ---- docinfo ----
#[verifier::external_body]
fn vx_take(o: &mut Option<VxResolver>) -> (r: Option<VxResolver>) ensures final(o).is_none(), { o.take() }
#[verifier::external_body]
fn vx_docinfo_list(m: &DocumentMeta) -> (r: Vec<String>) { unimplemented!() }
#[verifier::external_body]
fn vx_wants(d: &Vec<String>, a: &str, b: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn docinfo_filename(m: &DocumentMeta, q: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn append_docinfo_fragment(t: &mut VxFragment, f: VxFragment) { unimplemented!() }
#[verifier::external_body]
fn append_docinfo_text(b: VxBump, t: &mut VxFragment, s: &str) { unimplemented!() }
#[verifier::external_body]
fn vx_docinfo_text(b: &VxBytes) -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_no_strings(d: &Vec<String>) -> (r: bool) { unimplemented!() }
//@extract parser/src/docinfo.rs :: - :: fn docinfo_target
//@ sub resolver.get_base_dir() ==> vx_base_dir(resolver)
//@ spec
//@end
impl Parser {
    #[verifier::external_body]
    fn parse_docinfo_fragment(&mut self, t: &str) -> (r: VxFragment) ensures final(self).document == old(self).document, { unimplemented!() }
//@extract parser/src/docinfo.rs :: impl Parser :: fn read_docinfo
//@ sub BumpVec::new_in(self.bump) ==> vx_bytes(self.bump)
//@ sub resolver.resolve(target, &mut buffer, $m).ok()?; ==> if vx_resolve(resolver, target, &mut buffer, $m, &self.document.meta).is_err() { return None; }
//@ sub self.normalize_encoding(None, &mut buffer).ok()?; ==> if self.normalize_encoding(None, &mut buffer).is_err() { return None; }
//@ sub String::from_utf8_lossy(&buffer).replace($a).replace($b) ==> vx_docinfo_text(&buffer)
//@ sub &content ==> content.as_str()
//@ spec
requires old(self).document.meta.safe_mode != SafeMode::Secure,
ensures final(self).document == old(self).document,
//@end
//@extract parser/src/docinfo.rs :: impl Parser :: fn resolve_docinfo_location
//@ sub docinfo: &[String] ==> docinfo: &Vec<String>
//@ sub InlineNodes::new(self.bump) ==> vx_fragment(self.bump)
//@ sub docinfo.iter().any(|value| value == "shared" || value == shared_key) ==> vx_wants(docinfo, "shared", shared_key)
//@ sub docinfo.iter().any(|value| value == "private" || value == private_key) ==> vx_wants(docinfo, "private", private_key)
//@ sub !docname.is_empty() ==> vx_any_bool()
//@ sub &private_file ==> private_file.as_str()
//@ sub added.then_some(content) ==> if added { Some(content) } else { None }
//@ spec
requires old(self).document.meta.safe_mode != SafeMode::Secure,
ensures final(self).document == old(self).document,
//@end
//@extract parser/src/docinfo.rs :: impl Parser :: fn resolve_docinfo
//@ sub self.document.meta.safe_mode >= SafeMode::Secure ==> vx_le(SafeMode::Secure, self.document.meta.safe_mode)
//@ sub docinfo_attributes ==> vx_docinfo_list
//@ sub docinfo.is_empty() ==> vx_no_strings(&docinfo)
//@ sub self.include_resolver.take() ==> vx_take(&mut self.include_resolver)
//@ sub resolver.as_mut() ==> &mut resolver
//@ sub &docinfo_filename(&self.document.meta, $x) ==> docinfo_filename(&self.document.meta, $x).as_str()
//@end
}

// ---- the command line's resolver ----
#[verifier::external_body]
pub struct PathBuf { x: u8 }
/// a path as the operating system sees it; `real` what it comes to once links and dots are followed
pub enum OsPath { Of(Seq<u8>) }
impl View for PathBuf { type V = OsPath; uninterp spec fn view(&self) -> OsPath; }
pub uninterp spec fn os_path(s: Text) -> OsPath;
pub uninterp spec fn real(p: OsPath) -> OsPath;
pub uninterp spec fn under(p: OsPath, base: OsPath) -> bool;
#[verifier::external_body]
fn vx_pathbuf(s: String) -> (r: PathBuf) ensures r@ == os_path(s@), { unimplemented!() }
#[verifier::external_body]
fn vx_canonical(p: &PathBuf) -> (r: std::result::Result<PathBuf, ()>) ensures match r { Ok(c) => c@ == real(p@), Err(_) => true }, { unimplemented!() }
#[verifier::external_body]
fn vx_canonical_str(p: String) -> (r: std::result::Result<PathBuf, ()>) ensures match r { Ok(c) => c@ == real(os_path(p@)), Err(_) => true }, { unimplemented!() }
#[verifier::external_body]
fn vx_under(p: &PathBuf, b: PathBuf) -> (r: bool) ensures r == under(p@, b@), { unimplemented!() }
#[verifier::external_body]
fn vx_case_mismatch(a: &PathBuf, b: &PathBuf) -> (r: ResolveError) { unimplemented!() }
#[verifier::external_body]
fn vx_same(a: &PathBuf, b: &PathBuf) -> (r: bool) ensures r == (a@ == b@), { unimplemented!() }
#[verifier::external_body]
fn vx_exists(a: &PathBuf) -> (r: bool) { unimplemented!() }
pub struct CliResolver { base_dir: Option<PathBuf>, strict: bool }
/// THE PROPERTY, second half: in any mode but `unsafe` only what is really below the base directory is opened
#[verifier::external_body]
fn vx_open(p: PathBuf, mode: SafeMode, base: Ghost<Option<OsPath>>) -> (r: std::result::Result<VxFile, ResolveError>)
    requires mode != SafeMode::Unsafe ==> base@.is_some() && under(real(p@), real(base@.unwrap())),
{ unimplemented!() }
#[verifier::external_body]
pub struct VxFile { x: u8 }
#[verifier::external_body]
fn vx_len(f: &VxFile) -> (r: std::result::Result<usize, ResolveError>) { unimplemented!() }
#[verifier::external_body]
fn vx_read(f: VxFile, b: &mut VxBytes, n: usize) -> (r: std::result::Result<(), ResolveError>) { unimplemented!() }
spec fn base_of(r: CliResolver) -> Option<OsPath> { match r.vx_base() { Some(t) => Some(os_path(t)), None => None } }
impl CliResolver {
    pub uninterp spec fn vx_base(&self) -> Option<Text>;
    #[verifier::external_body]
    fn get_base_dir(&self) -> (r: Option<String>) ensures match r { Some(s) => self.vx_base() == Some(s@), None => self.vx_base().is_none() }, { unimplemented!() }
//@extract cli/src/resolver.rs :: impl CliResolver :: fn resolve_filepath
//@ sub buffer: &mut dyn IncludeBuffer ==> buffer: &mut VxBytes
//@ sub PathBuf::from(path) ==> vx_pathbuf(path)
//@ sub dunce::canonicalize(&pathb) ==> vx_canonical(&pathb)
//@ sub return Err(NotFound) ==> return Err(ResolveError::NotFound)
//@ sub return Err(BaseDirRequired) ==> return Err(ResolveError::BaseDirRequired)
//@ sub return Err(RestrictedPath) ==> return Err(ResolveError::RestrictedPath)
//@ sub let Some(Ok(base_dirc)) = self.get_base_dir().map(dunce::canonicalize) else { ==> let Some(base_dirc) = vx_canonical_opt(self.get_base_dir()) else {
//@ sub pathc.starts_with(base_dirc) ==> vx_under(&pathc, base_dirc)
//@ sub pathb != pathc ==> !vx_same(&pathb, &pathc)
//@ sub match (pathb.file_name(), pathc.file_name()) { $x } ==> return Err(vx_case_mismatch(&pathb, &pathc));
//@ sub pathb.exists() ==> vx_exists(&pathb)
//@ sub let file = File::open(pathb)?; ==> let file = vx_open(pathb, safe_mode, Ghost(base_of(*self)))?;
//@ sub let len = file.metadata().map(|m| m.len() as usize)?; ==> let len = vx_len(&file)?;
//@ sub buffer.initialize(len); ==>
//@ sub let bytes = buffer.as_bytes_mut(); ==>
//@ sub Read::read_exact(&mut BufReader::new(file), bytes)?; ==> vx_read(file, buffer, len)?;
//@end
//@extract cli/src/resolver.rs :: impl IncludeResolver for CliResolver :: fn resolve
//@ sub buffer: &mut dyn IncludeBuffer ==> buffer: &mut VxBytes
//@ sub &mut self ==> &self
//@ sub Target::FilePath ==> IncludeTarget::FilePath
//@ sub Target::Uri(uri) => match minreq::get(uri).send() { $x } ==> IncludeTarget::Uri(uri) => vx_fetch(uri, buffer)
//@end
}
#[verifier::external_body]
fn vx_fetch(u: String, b: &mut VxBytes) -> (r: std::result::Result<usize, ResolveError>) { unimplemented!() }
#[verifier::external_body]
fn vx_canonical_opt(p: Option<String>) -> (r: Option<PathBuf>) ensures match r { Some(c) => p.is_some() && c@ == real(os_path(p.unwrap()@)), None => true }, { unimplemented!() }

// ---- the command line's stylesheet ----
pub struct CssDocument { pub meta: DocumentMeta }
#[verifier::external_body]
fn vx_cwd() -> (r: PathBuf) { unimplemented!() }
#[verifier::external_body]
fn vx_css_path(cwd: &PathBuf, dir: &str, file: &str) -> (r: PathBuf) { unimplemented!() }
#[verifier::external_body]
fn vx_canonical_or(p: &PathBuf) -> (r: std::result::Result<PathBuf, String>) ensures match r { Ok(c) => c@ == real(p@), Err(_) => true }, { unimplemented!() }
#[verifier::external_body]
fn vx_nothing(s: &str) -> (r: bool) { unimplemented!() }
/// `real` of a canonical path is itself
#[verifier::external_body]
fn vx_read_css(p: PathBuf, asked: Ghost<OsPath>, mode: SafeMode, cwd: Ghost<OsPath>) -> (r: std::result::Result<String, String>)
    requires p@ == real(asked@), mode != SafeMode::Unsafe ==> under(real(asked@), cwd@),
{ unimplemented!() }
impl DocumentMeta {
    #[verifier::external_body]
    fn header_attrs(&self) -> (r: &DocumentMeta) ensures *r == *self, { unimplemented!() }
    #[verifier::external_body]
    fn insert_header_attr(&mut self, k: &str, v: String) -> (r: std::result::Result<(), String>) ensures r.is_ok(), { unimplemented!() }
}
//@extract cli/src/css.rs :: - :: fn resolve
//@ rename vx_css_resolve
//@ sub document: &mut Document ==> document: &mut CssDocument
//@ sub Result<(), String> ==> std::result::Result<(), String>
//@ sub custom_filename.is_empty() ==> vx_nothing(custom_filename)
//@ sub std::env::current_dir().expect("invalid cwd") ==> vx_cwd()
//@ sub let mut path: Path = cwd.clone().into(); ==> let path = vx_css_path(&cwd, stylesdir, custom_filename);
//@ sub path.push(stylesdir); ==>
//@ sub path.push(custom_filename); ==>
//@ sub dunce::canonicalize(path.to_string()).map_err($x)?; ==> vx_canonical_or(&path)?;
//@ sub !canonical_path.starts_with(cwd) ==> !vx_under(&canonical_path, cwd)
//@ sub std::fs::read_to_string(canonical_path).map_err($x)?; ==> vx_read_css(canonical_path, Ghost(path@), document.meta.safe_mode, Ghost(vx_base))?;
//@ before let canonical_path =
let ghost vx_base = cwd@;
//@end
}
fn main() {}
