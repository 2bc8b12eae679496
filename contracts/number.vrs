//@include prelude.inc
use vstd::string::*;
verus! {
// unit: the numbers of sections, parts, appendices and captions (backend/src/html/backend.rs, both back ends)
//@gsub let state = self.state_mut(); ==> let state = &mut self.state;
//@gsub self.state() ==> self.state
//@gsub self.state_mut() ==> self.state
//@gsub self.doc_meta() ==> self.doc_meta
//@gsub HashSet<EphemeralState> ==> VxFlags
//@gsub Rc<RefCell<Vec<(Option<String>, String)>>> ==> VxOpaque
//@gsub crate::num_str!($x) ==> vx_opaque_str()
//@expect backend/src/html/backend.rs :: fn section_num_levels(&self) -> isize { self.state().section_num_levels }
//@expect dr-html-backend/src/asciidoctor_html.rs :: fn state(&self) -> &BackendState { &self.state }
//@expect dr-html-backend/src/asciidoctor_html.rs :: fn state_mut(&mut self) -> &mut BackendState { &mut self.state }
//@expect backend-html5s/src/html5s.rs :: fn state(&self) -> &BackendState { &self.state }
//@expect backend-html5s/src/html5s.rs :: fn state_mut(&mut self) -> &mut BackendState { &mut self.state }

// ---- trusted: a hash set of flags is a set, attributes are a map, strings are sequences of characters ----
#[verifier::external_body]
pub struct VxFlags { m: std::collections::HashSet<u8> }
impl View for VxFlags { type V = Set<EphemeralState>; uninterp spec fn view(&self) -> Set<EphemeralState>; }
impl VxFlags {
    #[verifier::external_body]
    fn contains(&self, e: &EphemeralState) -> (r: bool) ensures r == self@.contains(*e), { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, e: EphemeralState) ensures final(self)@ == old(self)@.insert(e), { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, e: &EphemeralState) ensures final(self)@ == old(self)@.remove(*e), { unimplemented!() }
}
#[verifier::external_body]
pub struct VxOpaque { x: u8 }
#[verifier::external_body]
fn vx_opaque_str() -> String { unimplemented!() }
pub enum AV { S(Seq<char>), B(bool) }
impl View for AttrValue { type V = AV; open spec fn view(&self) -> AV { match self { AttrValue::String(s) => AV::S(s@), AttrValue::Bool(b) => AV::B(*b) } } }
/// the attributes in force (`ReadAttr` of core/src/attrs.rs, under contract in `meta`)
#[verifier::external_body]
pub struct VxMeta { m: u8 }
pub struct VM { pub doctype: DocType, pub attrs: Map<Seq<char>, AV> }
impl View for VxMeta { type V = VM; uninterp spec fn view(&self) -> VM; }
spec fn value(m: VM, k: Seq<char>) -> Option<AV> { if m.attrs.contains_key(k) { Some(m.attrs[k]) } else { None } }
spec fn text(m: VM, k: Seq<char>) -> Option<Seq<char>> { match value(m, k) { Some(AV::S(s)) => Some(s), Some(AV::B(true)) => Some(Seq::empty()), _ => None } }
impl VxMeta {
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&AttrValue>)
        ensures match r { Some(v) => value(self@, k@) == Some(v@), None => value(self@, k@) is None }, { unimplemented!() }
    #[verifier::external_body]
    fn string(&self, k: &str) -> (r: Option<String>)
        ensures match r { Some(v) => text(self@, k@) == Some(v@), None => text(self@, k@) is None }, { unimplemented!() }
    #[verifier::external_body]
    fn is_true(&self, k: &str) -> (r: bool) ensures r == (value(self@, k@) == Some(AV::B(true))), { unimplemented!() }
    #[verifier::external_body]
    fn is_false(&self, k: &str) -> (r: bool) ensures r == (value(self@, k@) == Some(AV::B(false))), { unimplemented!() }
    #[verifier::external_body]
    fn get_doctype(&self) -> (r: DocType) ensures r == self@.doctype, { unimplemented!() }
}
/// a section or a node of the table of contents, as far as numbering goes
#[verifier::external_body]
pub struct VxAttrs { m: u8 }
impl VxAttrs {
    pub uninterp spec fn special(&self) -> Option<SpecialSection>;
    pub uninterp spec fn named_v(&self, k: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn special_sect(&self) -> (r: Option<SpecialSection>) ensures r == self.special(), { unimplemented!() }
    #[verifier::external_body]
    fn named(&self, k: &str) -> (r: Option<&str>)
        ensures match r { Some(v) => self.named_v(k@) == Some(v@), None => self.named_v(k@) is None }, { unimplemented!() }
}
pub struct VxChunkMeta { pub attrs: VxAttrs }
pub struct Section { pub meta: VxChunkMeta, pub level: u8, pub id: Option<String> }
pub struct TocNode { pub level: u8, pub id: Option<String>, pub special_sect: Option<SpecialSection> }
pub struct Block { pub meta: VxChunkMeta, pub context: BlockContext }
/// the decimal numeral, the roman numeral, the escaped text (escaping is under contract in `escape`)
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn roman(n: int) -> Seq<char>;
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn esc_attr(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_dec(n: u32) -> (r: String) ensures r@ == dec(n as int), { n.to_string() }
#[verifier::external_body]
fn vx_dec_usize(n: usize) -> (r: String) ensures r@ == dec(n as int), { n.to_string() }
#[verifier::external_body]
fn vx_roman(n: u16) -> (r: Option<String>) requires 1 <= n <= 3999, ensures r is Some, r->0@ == roman(n as int), { unimplemented!() }
#[verifier::external_body]
fn vx_push_front(s: &mut String, c: char) ensures final(s)@ == seq![c] + old(s)@, { s.insert(0, c) }
#[verifier::external_body]
fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty(), { String::new() }
#[verifier::external_body]
fn vx_zero_from(a: &mut [u32; 5], from: usize) ensures forall|i: int| 0 <= i < 5 ==> #[trigger] final(a)@[i] == (if i < from { old(a)@[i] } else { 0u32 }), { unimplemented!() }
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }

//@item backend/src/html/backend.rs :: - :: enum EphemeralState
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item core/src/attrs.rs :: - :: enum AttrValue
//@end
//@item core/src/doctype.rs :: - :: enum DocType
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item core/src/special_sect.rs :: - :: enum SpecialSection
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item ast/src/block.rs :: - :: enum BlockContext
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item backend/src/html/backend.rs :: - :: struct BackendState
//@end
//@item backend/src/html/backend.rs :: - :: struct Numbering
//@ attr #[derive(Clone, Copy)]
//@end
/// what the back ends' methods here use of them
pub struct VxBackend { pub state: BackendState, pub doc_meta: VxMeta, pub html: Vec<char>, pub table_caption_num: usize, pub fig_caption_num: usize, pub example_caption_num: usize, pub listing_caption_num: usize }
//@expect dr-html-backend/src/asciidoctor_html.rs :: table_caption_num: usize
//@expect backend-html5s/src/html5s.rs :: table_caption_num: usize

// ---- specification ----
/// A to Z, then AA, AB, ...
spec fn letters(n: int) -> Seq<char>
    decreases n,
{
    if n < 0 { Seq::empty() }
    else if n < 26 { seq![(65 + n) as u8 as char] }
    else { letters(n / 26 - 1).push((65 + n % 26) as u8 as char) }
}
/// the number those letters stand for
spec fn letter_value(s: Seq<char>) -> int
    decreases s.len(),
{ if s.len() == 0 { -1 } else { (letter_value(s.drop_last()) + 1) * 26 + (s.last() as int - 65) } }
proof fn lemma_letter_value(n: int)
    requires 0 <= n,
    ensures letter_value(letters(n)) == n, letters(n).len() > 0,
    decreases n,
{
    let c = (65 + n % 26) as u8 as char;
    assert(c as int == 65 + n % 26);
    if n < 26 {
        assert(n % 26 == n) by (nonlinear_arith) requires 0 <= n < 26;
        assert(letters(n).drop_last() =~= Seq::empty());
        assert(letters(n).last() == c);
        assert(letter_value(Seq::<char>::empty()) == -1);
        assert((letter_value(letters(n).drop_last()) + 1) * 26 == 0);
    } else {
        lemma_letter_value(n / 26 - 1);
        assert(letters(n).drop_last() =~= letters(n / 26 - 1));
        assert((n / 26) * 26 + n % 26 == n) by (nonlinear_arith);
    }
}
/// no two appendices have the same letter
proof fn theorem_letters(a: int, b: int)
    requires 0 <= a, 0 <= b, letters(a) == letters(b),
    ensures a == b,
{ lemma_letter_value(a); lemma_letter_value(b); }

/// where numbering stands
pub struct N { pub nums: Seq<u32>, pub appendices: int, pub parts: int, pub in_appendix: bool }
spec fn n_of(s: BackendState) -> N { N { nums: s.section_nums@, appendices: s.appendix_caption_num as int, parts: s.book_part_num as int, in_appendix: s.ephemeral@.contains(EphemeralState::InAppendix) } }
spec fn saved(x: Numbering) -> N { N { nums: x.section_nums@, appendices: x.appendix_caption_num as int, parts: x.book_part_num as int, in_appendix: x.in_appendix } }
spec fn stack(s: BackendState) -> Seq<N> { s.outer_numbering@.map_values(|x: Numbering| saved(x)) }
spec fn zeros() -> Seq<u32> { seq![0u32, 0, 0, 0, 0] }
spec fn start() -> N { N { nums: zeros(), appendices: 0, parts: 0, in_appendix: false } }
/// one more at `level`, none yet below
spec fn bump(nums: Seq<u32>, level: int) -> Seq<u32> { Seq::new(5, |i: int| if i < level - 1 { nums[i] } else if i == level - 1 { (nums[i] + 1) as u32 } else { 0u32 }) }
/// `1.2.3.` or `A.2.3.`
spec fn dotted(nums: Seq<u32>, in_appendix: bool, upto: int) -> Seq<char>
    decreases upto,
{
    if upto <= 0 { Seq::empty() }
    else { (dotted(nums, in_appendix, upto - 1) + (if in_appendix && upto == 1 { letters(nums[0] as int) } else { dec(nums[upto - 1] as int) })).push('.') }
}
spec fn numbered(m: VM, levels: int, level: int, special: Option<SpecialSection>) -> bool {
    levels >= level && match value(m, "sectnums"@) {
        Some(AV::S(s)) => s == "all"@,
        Some(AV::B(true)) => match special { Some(s) => styled(m.doctype, s), None => true },
        _ => false,
    }
}
/// the section styles of articles and books
spec fn styled(d: DocType, s: SpecialSection) -> bool {
    match d {
        DocType::Article => s == SpecialSection::Abstract || s == SpecialSection::Appendix || s == SpecialSection::Glossary || s == SpecialSection::Bibliography || s == SpecialSection::Index,
        DocType::Book => true,
        _ => false,
    }
}
/// "Caption " when there is one
spec fn caption_text(m: VM, k: Seq<char>) -> Seq<char> { match text(m, k) { Some(s) => esc(s).push(' '), None => Seq::empty() } }
spec fn number_label(m: VM, n: N, level: int) -> Seq<char> {
    (if level == 1 && m.doctype == DocType::Book { caption_text(m, "chapter-signifier"@) } else { Seq::empty() })
        + dotted(bump(n.nums, level), n.in_appendix, level).push(' ')
}
spec fn appendix_label(m: VM, n: int) -> Seq<char> {
    caption_text(m, "appendix-caption"@) + letters(n) + (if value(m, "appendix-caption"@) == Some(AV::B(false)) { ". "@ } else { ": "@ })
}
spec fn part_label(m: VM, n: int) -> Seq<char> { if n <= 3999 { caption_text(m, "part-signifier"@) + roman(n) + ": "@ } else { Seq::empty() } }
/// numbering within an appendix: its letter, nothing below it yet
spec fn inside_appendix(n: N) -> N { N { nums: seq![n.appendices as u32, 0u32, 0, 0, 0], in_appendix: true, ..n } }
/// the label of the next section, and where numbering stands after its heading
spec fn label(m: VM, levels: int, n: N, level: int, special: Option<SpecialSection>) -> Seq<char> {
    if special == Some(SpecialSection::Appendix) { appendix_label(m, n.appendices) }
    else if numbered(m, levels, level, special) { number_label(m, n, level) }
    else { Seq::empty() }
}
spec fn counted(m: VM, levels: int, n: N, level: int, special: Option<SpecialSection>) -> N {
    if special == Some(SpecialSection::Appendix) { N { appendices: n.appendices + 1, ..inside_appendix(n) } }
    else if numbered(m, levels, level, special) { N { nums: bump(n.nums, level), ..n } }
    else { n }
}
/// leaving a section: after an appendix the numbers go on where they were
spec fn left(n: N, outer: N, special: Option<SpecialSection>) -> N {
    if special == Some(SpecialSection::Appendix) { N { nums: outer.nums, in_appendix: outer.in_appendix, ..n } } else { n }
}
spec fn room(s: BackendState) -> bool { &&& s.appendix_caption_num < u32::MAX && s.book_part_num < usize::MAX &&& forall|i: int| 0 <= i < 5 ==> (#[trigger] s.section_nums@[i]) < u32::MAX }

/// numbers as tuples, in order
spec fn before(a: Seq<u32>, b: Seq<u32>) -> bool { exists|k: int| 0 <= k < 5 && #[trigger] a[k] < b[k] && forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i] }
proof fn lemma_before_trans(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>)
    requires before(a, b), before(b, c),
    ensures before(a, c),
{
    let j = choose|k: int| 0 <= k < 5 && #[trigger] a[k] < b[k] && forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i];
    let l = choose|k: int| 0 <= k < 5 && #[trigger] b[k] < c[k] && forall|i: int| 0 <= i < k ==> #[trigger] b[i] == c[i];
    let m = if j < l { j } else { l };
    assert forall|i: int| 0 <= i < m implies #[trigger] a[i] == c[i] by { assert(a[i] == b[i]); assert(b[i] == c[i]); }
    assert(a[m] < c[m]) by { if j < l { assert(b[j] == c[j]); } else if l < j { assert(a[l] == b[l]); } }
}
/// the numbers of any run of sections
spec fn after(nums: Seq<u32>, levels: Seq<int>) -> Seq<u32>
    decreases levels.len(),
{ if levels.len() == 0 { nums } else { bump(after(nums, levels.drop_last()), levels.last()) } }
/// each section's number comes after every earlier one: none is given twice, none goes back
proof fn theorem_increasing(nums: Seq<u32>, levels: Seq<int>, i: int)
    requires 0 <= i < levels.len(), nums.len() == 5,
        forall|k: int| 0 <= k < levels.len() ==> 1 <= #[trigger] levels[k] <= 5,
        forall|k: int, j: int| 0 <= k < levels.len() && 0 <= j < 5 ==> #[trigger] after(nums, levels.take(k))[j] < u32::MAX,
    ensures before(after(nums, levels.take(i)), after(nums, levels)),
    decreases levels.len(),
{
    let pre = levels.drop_last();
    assert(levels.take(levels.len() - 1) =~= pre);
    lemma_after_len(nums, pre);
    let a = after(nums, pre); let b = after(nums, levels); let l = levels.last();
    assert(levels[levels.len() - 1] == l);
    assert(after(nums, levels.take(levels.len() - 1))[l - 1] < u32::MAX);
    assert(a[l - 1] < b[l - 1]);
    assert(before(a, b)) by { assert forall|x: int| 0 <= x < l - 1 implies #[trigger] a[x] == b[x] by {} }
    if i < levels.len() - 1 {
        assert forall|k: int| 0 <= k < pre.len() implies 1 <= #[trigger] pre[k] <= 5 by { assert(pre[k] == levels[k]); }
        assert forall|k: int, j: int| 0 <= k < pre.len() && 0 <= j < 5 implies #[trigger] after(nums, pre.take(k))[j] < u32::MAX by { assert(pre.take(k) =~= levels.take(k)); }
        theorem_increasing(nums, pre, i);
        assert(pre.take(i) =~= levels.take(i));
        lemma_before_trans(after(nums, levels.take(i)), a, b);
    } else { assert(levels.take(i) =~= pre); }
}
proof fn lemma_after_len(nums: Seq<u32>, levels: Seq<int>)
    requires nums.len() == 5,
    ensures after(nums, levels).len() == 5,
{}
/// what a section's number names is the section above it: its digits are that section's, then its own
proof fn theorem_prefix(nums: Seq<u32>, app: bool, level: int, k: int)
    requires 1 <= level <= 5, 0 <= k < level, nums.len() == 5,
    ensures dotted(bump(nums, level), app, k) == dotted(nums, app, k),
    decreases k,
{ if k > 0 { theorem_prefix(nums, app, level, k - 1); assert(bump(nums, level)[k - 1] == nums[k - 1]); assert(bump(nums, level)[0] == nums[0]); } }

//@extract backend/src/html/backend.rs :: - :: fn appendix_letter
//@ sub String::new() ==> vx_new_string()
//@ sub letters.insert(0, $c) ==> vx_push_front(&mut letters, $c)
//@ spec
ensures r@ == crate::letters(num as int),
//@ loop 0
invariant crate::letters(num as int) == crate::letters(rest as int) + letters@,
decreases rest,
//@ loopbody 0
let ghost vx_l = letters@; let ghost vx_r = rest as int;
//@ before if rest < 26
assert(letters@ =~= seq![(65 + vx_r % 26) as u8 as char] + vx_l);
assert(vx_r < 26 ==> vx_r % 26 == vx_r) by (nonlinear_arith) requires vx_r >= 0;
assert(vx_r < 26 ==> crate::letters(vx_r) + vx_l =~= letters@);
assert(vx_r >= 26 ==> crate::letters(vx_r) + vx_l =~= crate::letters(vx_r / 26 - 1) + letters@);
//@end
impl SpecialSection {
}
impl DocType {
//@extract core/src/doctype.rs :: impl DocType :: fn supports_special_section
//@ spec
ensures r == styled(*self, special_sect),
//@end
}
impl BlockContext {
//@extract ast/src/block.rs :: impl BlockContext :: fn caption_attr_name
//@ spec
ensures match r {
    Some(k) => k@ == caption_key(*self) && captioned(*self),
    None => !captioned(*self) },
//@end
}
spec fn captioned(c: BlockContext) -> bool { c == BlockContext::Table || c == BlockContext::Image || c == BlockContext::Example || c == BlockContext::Listing }
spec fn caption_key(c: BlockContext) -> Seq<char> {
    match c { BlockContext::Table => "table-caption"@, BlockContext::Image => "figure-caption"@, BlockContext::Example => "example-caption"@, _ => "listing-caption"@ }
}
/// how many captioned blocks of each kind there were
pub struct Caps { pub table: int, pub fig: int, pub example: int, pub listing: int }
spec fn caps(b: VxBackend) -> Caps { Caps { table: b.table_caption_num as int, fig: b.fig_caption_num as int, example: b.example_caption_num as int, listing: b.listing_caption_num as int } }
spec fn cap_of(c: Caps, k: BlockContext) -> int { match k { BlockContext::Table => c.table, BlockContext::Image => c.fig, BlockContext::Example => c.example, _ => c.listing } }
spec fn cap_inc(c: Caps, k: BlockContext) -> Caps {
    match k { BlockContext::Table => Caps { table: c.table + 1, ..c }, BlockContext::Image => Caps { fig: c.fig + 1, ..c }, BlockContext::Example => Caps { example: c.example + 1, ..c }, _ => Caps { listing: c.listing + 1, ..c } }
}
/// a titled block is captioned: its own caption, or the word for its kind and the next number
spec fn caption_of(m: VM, b: Block, c: Caps) -> Seq<char> {
    match b.meta.attrs.named_v("caption"@) {
        Some(own) => esc(own),
        None => if captioned(b.context) && text(m, caption_key(b.context)) is Some {
            esc(text(m, caption_key(b.context))->0) + " "@ + dec(cap_of(c, b.context) + 1) + ". "@
        } else { Seq::empty() },
    }
}
spec fn caps_after(m: VM, b: Block, c: Caps) -> Caps {
    if b.meta.attrs.named_v("caption"@) is None && captioned(b.context) && text(m, caption_key(b.context)) is Some { cap_inc(c, b.context) } else { c }
}

/// nothing but the output and the numbering changed
spec fn moved(a: VxBackend, b: VxBackend) -> bool {
    &&& b.doc_meta == a.doc_meta && caps(b) == caps(a) && b.state.section_num_levels == a.state.section_num_levels
    &&& b.state.in_asciidoc_table_cell == a.state.in_asciidoc_table_cell
    &&& forall|e: EphemeralState| e != EphemeralState::InAppendix ==> #[trigger] b.state.ephemeral@.contains(e) == a.state.ephemeral@.contains(e)
}
impl VxBackend {
    spec fn same_but_html(self, o: VxBackend) -> bool { self.state == o.state && self.doc_meta == o.doc_meta && caps(self) == caps(o) }
    #[verifier::external_body]
    fn push_str(&mut self, s: &str) ensures final(self).html@ == old(self).html@ + s@, final(self).same_but_html(*old(self)), { unimplemented!() }
    #[verifier::external_body]
    fn push_ch(&mut self, c: char) ensures final(self).html@ == old(self).html@.push(c), final(self).same_but_html(*old(self)), { unimplemented!() }
    #[verifier::external_body]
    fn push_specialchar_escaped(&mut self, s: &str) ensures final(self).html@ == old(self).html@ + esc(s@), final(self).same_but_html(*old(self)), { unimplemented!() }
    #[verifier::external_body]
    fn push_attr_value(&mut self, s: &str) ensures final(self).html@ == old(self).html@ + esc_attr(s@), final(self).same_but_html(*old(self)), { unimplemented!() }
    #[verifier::external_body]
    fn vx_push2(&mut self, a: &str, b: &str) ensures final(self).html@ == old(self).html@ + a@ + b@, final(self).same_but_html(*old(self)), { unimplemented!() }
    #[verifier::external_body]
    fn vx_push3(&mut self, a: &str, b: &str, c: &str) ensures final(self).html@ == old(self).html@ + a@ + b@ + c@, final(self).same_but_html(*old(self)), { unimplemented!() }
    #[verifier::external_body]
    fn vx_push4(&mut self, a: &str, b: &str, c: &str, d: &str) ensures final(self).html@ == old(self).html@ + a@ + b@ + c@ + d@, final(self).same_but_html(*old(self)), { unimplemented!() }

//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn section_num_levels
//@ spec
ensures r == self.state.section_num_levels,
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn should_number_section
//@ sub ?val == "all" ==> vx_str_eq(val, "all")
//@ spec
ensures r == numbered(self.doc_meta@, self.state.section_num_levels as int, level as int, special_sect),
//@ body
proof { reveal_strlit("all"); reveal_strlit("sectnums"); }
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn push_section_number_prefix
//@ sub sect_nums.iter_mut().skip($n).for_each(|n| *n = 0) ==> vx_zero_from(&mut sect_nums, $n)
//@ sub for (idx, sect_num) in sect_nums.iter().enumerate().take($n) { $x } ==> for idx in 0..$n { let sect_num = &sect_nums[idx]; $x }
//@ sub sect_num.to_string() ==> vx_dec(*sect_num)
//@ for 0 range
//@ spec
requires 1 <= level <= 5, room(old(self).state),
ensures final(self).html@ == old(self).html@ + dotted(bump(n_of(old(self).state).nums, level as int), n_of(old(self).state).in_appendix, level as int).push(' '),
    n_of(final(self).state) == (N { nums: bump(n_of(old(self).state).nums, level as int), ..n_of(old(self).state) }),
    moved(*old(self), *final(self)), final(self).state.outer_numbering == old(self).state.outer_numbering,
//@ loop 0
invariant 0 <= vx_i0 <= vx_e0, vx_e0 == level, level_idx + 1 == level, 1 <= level <= 5,
    sect_nums@ =~= bump(n_of(old(self).state).nums, level as int), appendix == n_of(old(self).state).in_appendix,
    self.same_but_html(*old(self)),
    self.html@ =~= old(self).html@ + dotted(sect_nums@, appendix, vx_i0 as int),
decreases vx_e0 - vx_i0,
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn push_section_heading_prefix
//@ spec
requires special_sect == Some(SpecialSection::Appendix) || 1 <= level <= 5, special_sect != Some(SpecialSection::Appendix), room(old(self).state),
ensures final(self).html@ == old(self).html@ + (if numbered(old(self).doc_meta@, old(self).state.section_num_levels as int, level as int, special_sect) { number_label(old(self).doc_meta@, n_of(old(self).state), level as int) } else { Seq::empty() }),
    n_of(final(self).state) == (if numbered(old(self).doc_meta@, old(self).state.section_num_levels as int, level as int, special_sect) { N { nums: bump(n_of(old(self).state).nums, level as int), ..n_of(old(self).state) } } else { n_of(old(self).state) }),
    moved(*old(self), *final(self)), final(self).state.outer_numbering == old(self).state.outer_numbering,
//@ body
proof { reveal_strlit("chapter-signifier"); }
//@ tail
assert(self.html@ =~= old(self).html@ + (if numbered(old(self).doc_meta@, old(self).state.section_num_levels as int, level as int, special_sect) { number_label(old(self).doc_meta@, n_of(old(self).state), level as int) } else { Seq::empty() }));
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn push_appendix_caption
//@ spec
requires room(old(self).state),
ensures final(self).html@ == old(self).html@ + appendix_label(old(self).doc_meta@, n_of(old(self).state).appendices),
    n_of(final(self).state) == (N { appendices: n_of(old(self).state).appendices + 1, ..n_of(old(self).state) }),
    moved(*old(self), *final(self)), final(self).state.outer_numbering == old(self).state.outer_numbering,
//@ tail
assert(self.html@ =~= old(self).html@ + appendix_label(old(self).doc_meta@, n_of(old(self).state).appendices));
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn push_part_prefix
//@ sub let book_part_num = self.book_part_num_mut(); ==> 
//@ sub *book_part_num += 1; ==> self.state.book_part_num += 1;
//@ sub let part_num = *book_part_num; ==> let part_num = self.state.book_part_num;
//@ sub to_roman_numeral($x) ==> vx_roman($x)
//@ spec
requires room(old(self).state),
ensures final(self).html@ == old(self).html@ + (if value(old(self).doc_meta@, "partnums"@) == Some(AV::B(true)) { part_label(old(self).doc_meta@, n_of(old(self).state).parts + 1) } else { Seq::empty() }),
    n_of(final(self).state) == (if value(old(self).doc_meta@, "partnums"@) == Some(AV::B(true)) { N { parts: n_of(old(self).state).parts + 1, ..n_of(old(self).state) } } else { n_of(old(self).state) }),
    moved(*old(self), *final(self)), final(self).state.outer_numbering == old(self).state.outer_numbering,
//@ tail
assert(self.html@ =~= old(self).html@ + (if value(old(self).doc_meta@, "partnums"@) == Some(AV::B(true)) { part_label(old(self).doc_meta@, n_of(old(self).state).parts + 1) } else { Seq::empty() }));
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn save_numbering
//@ spec
ensures n_of(final(self).state) == n_of(old(self).state), final(self).html == old(self).html, moved(*old(self), *final(self)),
    stack(final(self).state) == stack(old(self).state).push(n_of(old(self).state)),
//@ tail
assert(stack(self.state) =~= stack(old(self).state).push(n_of(old(self).state)));
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn restore_section_numbering
//@ spec
ensures final(self).html == old(self).html, moved(*old(self), *final(self)),
    stack(old(self).state).len() > 0 ==> {
        &&& r is Some && saved(r->0) == stack(old(self).state).last()
        &&& stack(final(self).state) == stack(old(self).state).drop_last()
        &&& n_of(final(self).state) == (N { nums: saved(r->0).nums, in_appendix: saved(r->0).in_appendix, ..n_of(old(self).state) })
    },
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn enter_appendix
//@ spec
ensures final(self).html == old(self).html, moved(*old(self), *final(self)),
    n_of(final(self).state) == inside_appendix(n_of(old(self).state)),
    stack(final(self).state) == stack(old(self).state).push(n_of(old(self).state)),
//@ tail
assert(n_of(self.state).nums =~= inside_appendix(n_of(old(self).state)).nums);
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn exit_appendix
//@ spec
requires stack(old(self).state).len() > 0,
ensures final(self).html == old(self).html, moved(*old(self), *final(self)),
    n_of(final(self).state) == left(n_of(old(self).state), stack(old(self).state).last(), Some(SpecialSection::Appendix)),
    stack(final(self).state) == stack(old(self).state).drop_last(),
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn on_toc_enter
//@ spec
ensures final(self).html == old(self).html, moved(*old(self), *final(self)),
    n_of(final(self).state) == start(),
    stack(final(self).state) == stack(old(self).state).push(n_of(old(self).state)),
//@ tail
assert(n_of(self.state).nums =~= zeros());
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn on_toc_exit
//@ spec
requires stack(old(self).state).len() > 0,
ensures final(self).html == old(self).html, moved(*old(self), *final(self)),
    // the document goes on as if there were no table of contents
    n_of(final(self).state) == stack(old(self).state).last(),
    stack(final(self).state) == stack(old(self).state).drop_last(),
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn enter_toc_node
//@ spec
requires node.special_sect == Some(SpecialSection::Appendix) || node.level <= 5, room(old(self).state),
ensures moved(*old(self), *final(self)),
    ({ let o = *old(self); let link = "<li><a href=\"#"@ + (match node.id { Some(id) => esc_attr(id@), None => Seq::empty() }) + "\">"@;
       if node.level == 0 && node.special_sect != Some(SpecialSection::Appendix) {
           let on = value(o.doc_meta@, "partnums"@) == Some(AV::B(true));
           &&& final(self).html@ == o.html@ + link + (if on { part_label(o.doc_meta@, n_of(o.state).parts + 1) } else { Seq::empty() })
           &&& n_of(final(self).state) == (if on { N { parts: n_of(o.state).parts + 1, ..n_of(o.state) } } else { n_of(o.state) })
       } else {
           &&& final(self).html@ == o.html@ + link + label(o.doc_meta@, o.state.section_num_levels as int, n_of(o.state), node.level as int, node.special_sect)
           &&& n_of(final(self).state) == counted(o.doc_meta@, o.state.section_num_levels as int, n_of(o.state), node.level as int, node.special_sect)
       } }),
    stack(final(self).state) == (if node.special_sect == Some(SpecialSection::Appendix) { stack(old(self).state).push(n_of(old(self).state)) } else { stack(old(self).state) }),
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn exit_toc_node
//@ spec
requires node.special_sect == Some(SpecialSection::Appendix) ==> stack(old(self).state).len() > 0,
ensures moved(*old(self), *final(self)),
    n_of(final(self).state) == (if node.special_sect == Some(SpecialSection::Appendix) { left(n_of(old(self).state), stack(old(self).state).last(), node.special_sect) } else { n_of(old(self).state) }),
    stack(final(self).state) == (if node.special_sect == Some(SpecialSection::Appendix) { stack(old(self).state).drop_last() } else { stack(old(self).state) }),
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn enter_section_state
//@ spec
ensures final(self).html == old(self).html, final(self).doc_meta == old(self).doc_meta, caps(*final(self)) == caps(*old(self)),
    final(self).state.section_num_levels == old(self).state.section_num_levels,
    n_of(final(self).state) == (if section.meta.attrs.special() == Some(SpecialSection::Appendix) { inside_appendix(n_of(old(self).state)) } else { n_of(old(self).state) }),
    stack(final(self).state) == (if section.meta.attrs.special() == Some(SpecialSection::Appendix) { stack(old(self).state).push(n_of(old(self).state)) } else { stack(old(self).state) }),
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn exit_section_state
//@ spec
requires section.meta.attrs.special() == Some(SpecialSection::Appendix) ==> stack(old(self).state).len() > 0,
ensures final(self).html == old(self).html, final(self).doc_meta == old(self).doc_meta, caps(*final(self)) == caps(*old(self)),
    final(self).state.section_num_levels == old(self).state.section_num_levels,
    n_of(final(self).state) == (if section.meta.attrs.special() == Some(SpecialSection::Appendix) { left(n_of(old(self).state), stack(old(self).state).last(), Some(SpecialSection::Appendix)) } else { n_of(old(self).state) }),
    stack(final(self).state) == (if section.meta.attrs.special() == Some(SpecialSection::Appendix) { stack(old(self).state).drop_last() } else { stack(old(self).state) }),
//@end
//@extract backend/src/html/backend.rs :: trait HtmlBackend :: fn enter_section_heading
//@ sub self.push(["<h", &level_str, r#" id=""#]); ==> self.vx_push3("<h", &level_str, r#" id=""#);
//@ sub self.push(["<h", &level_str, ">"]); ==> self.vx_push3("<h", &level_str, ">");
//@ spec
requires section.meta.attrs.special() == Some(SpecialSection::Appendix) || 1 <= section.level <= 5, room(old(self).state),
    // `enter_section_state` comes first
    section.meta.attrs.special() == Some(SpecialSection::Appendix) ==> exists|o: N| n_of(old(self).state) == #[trigger] inside_appendix(o),
ensures moved(*old(self), *final(self)), final(self).state.outer_numbering == old(self).state.outer_numbering,
    ({ let o = *old(self); let s = section.meta.attrs.special();
       // the very label and numbering of the table of contents
       &&& exists|tag: Seq<char>| final(self).html@ == #[trigger] (o.html@ + tag) + label(o.doc_meta@, o.state.section_num_levels as int, n_of(o.state), section.level as int, s)
       &&& n_of(final(self).state) == (if s == Some(SpecialSection::Appendix) { N { appendices: n_of(o.state).appendices + 1, ..n_of(o.state) } } else { counted(o.doc_meta@, o.state.section_num_levels as int, n_of(o.state), section.level as int, s) })
    }),
//@ body
let ghost mut vx_tag = Seq::<char>::empty();
//@ before if section.meta.attrs.special_sect()
proof { vx_tag = self.html@.subrange(old(self).html@.len() as int, self.html@.len() as int); assert(self.html@ =~= old(self).html@ + vx_tag); }
//@ tail
proof { assert(self.html@ =~= (old(self).html@ + vx_tag) + label(old(self).doc_meta@, old(self).state.section_num_levels as int, n_of(old(self).state), section.level as int, section.meta.attrs.special())); }
//@end
}
//@extract dr-html-backend/src/asciidoctor_html.rs :: - :: fn incr
//@ spec
requires *old(num) < usize::MAX,
ensures *final(num) == *old(num) + 1, r == *final(num),
//@end
mod dr {
use super::*;
impl VxBackend {
//@extract dr-html-backend/src/asciidoctor_html.rs :: impl AsciidoctorHtml :: fn continue_captions_of
//@ spec
ensures caps(*final(self)) == caps(*other), final(self).state == old(self).state, final(self).html == old(self).html, final(self).doc_meta == old(self).doc_meta,
//@end
//@extract dr-html-backend/src/asciidoctor_html.rs :: impl AsciidoctorHtml :: fn render_block_title
//@ optchain
//@ sub num.to_string() ==> vx_dec_usize(num)
//@ spec
requires caps_room(*old(self)),
ensures caps(*final(self)) == caps_after(old(self).doc_meta@, *block, caps(*old(self))),
    exists|open: Seq<char>, close: Seq<char>| final(self).html@ == old(self).html@ + open + caption_of(old(self).doc_meta@, *block, caps(*old(self))) + title@ + close,
    final(self).state == old(self).state, final(self).doc_meta == old(self).doc_meta,
//@ body
let ghost mut vx_open = Seq::<char>::empty(); let ghost vx_cap = caption_of(self.doc_meta@, *block, caps(*self));
proof { reveal_strlit(". "); reveal_strlit(" "); }
//@ before if let Some(custom_caption)
proof { vx_open = self.html@.subrange(old(self).html@.len() as int, self.html@.len() as int); assert(self.html@ =~= old(self).html@ + vx_open); }
//@ before self.push_str(title)
proof { assert(self.html@ =~= old(self).html@ + vx_open + vx_cap); }
//@ tail
proof {
    let pre = old(self).html@ + vx_open + vx_cap + title@;
    let close = self.html@.subrange(pre.len() as int, self.html@.len() as int);
    assert(self.html@ =~= pre + close);
}
//@end
}
}
mod h5 {
use super::*;
impl VxBackend {
//@extract backend-html5s/src/html5s.rs :: impl Html5s :: fn continue_captions_of
//@ rename continue_captions_of_h5
//@ spec
ensures caps(*final(self)) == caps(*other), final(self).state == old(self).state, final(self).html == old(self).html, final(self).doc_meta == old(self).doc_meta,
//@end
//@extract backend-html5s/src/html5s.rs :: impl Html5s :: fn render_block_title
//@ rename render_block_title_h5
//@ optchain
//@ sub self.push([title, close]) ==> self.vx_push2(title, close)
//@ sub self.push([open, title, close]) ==> self.vx_push3(open, title, close)
//@ sub self.push([&num.to_string(), ". ", title, close]) ==> self.vx_push4(&vx_dec_usize(num), ". ", title, close)
//@ spec
requires caps_room(*old(self)),
ensures caps(*final(self)) == caps_after(old(self).doc_meta@, *block, caps(*old(self))),
    exists|open: Seq<char>, close: Seq<char>| final(self).html@ == old(self).html@ + open + caption_of(old(self).doc_meta@, *block, caps(*old(self))) + title@ + close,
    final(self).state == old(self).state, final(self).doc_meta == old(self).doc_meta,
//@ body
let ghost mut vx_open = Seq::<char>::empty(); let ghost vx_cap = caption_of(self.doc_meta@, *block, caps(*self));
proof { reveal_strlit(". "); reveal_strlit(" "); }
//@ before if let Some(custom_caption)
proof { vx_open = self.html@.subrange(old(self).html@.len() as int, self.html@.len() as int) + open@; assert(self.html@ + open@ =~= old(self).html@ + vx_open); }
//@ before [1] if wrap_in_h6
proof { assert(self.html@ =~= old(self).html@ + vx_open + vx_cap + title@ + close@); }
//@ tail
proof {
    let pre = old(self).html@ + vx_open + vx_cap + title@;
    let end = self.html@.subrange(pre.len() as int, self.html@.len() as int);
    assert(self.html@ =~= pre + end);
}
//@end
}
}
//@extract backend-html5s/src/html5s.rs :: - :: fn incr
//@ rename incr_h5
//@ spec
requires *old(num) < usize::MAX,
ensures *final(num) == *old(num) + 1, r == *final(num),
//@end
spec fn caps_room(b: VxBackend) -> bool { b.table_caption_num < usize::MAX && b.fig_caption_num < usize::MAX && b.example_caption_num < usize::MAX && b.listing_caption_num < usize::MAX }
fn main() {}
} // verus!
