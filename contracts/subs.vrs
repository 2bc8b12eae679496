//@include prelude.inc
use vstd::utf8::*;
use vstd::string::*;
use vstd::slice::*;
use vstd::math::min;
verus! {
// unit: substitution lists (parser/src/substitutions.rs) and their `subs=` editing (parser/src/tasks/customize_subs.rs)
//@item parser/src/substitutions.rs :: - :: enum Subs
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/substitutions.rs :: - :: struct Substitutions
//@ attr #[derive(Clone, Copy)]
//@end
//@item parser/src/tasks/customize_subs.rs :: - :: enum Strategy
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/tasks/customize_subs.rs :: - :: enum StepOrGroup
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
// ---- trusted models ----
#[verifier::external_body]
pub struct MultiAttrList { x: u8 }
pub uninterp spec fn subs_attr(a: MultiAttrList) -> Option<Seq<char>>;
#[verifier::external_body]
fn vx_named_subs(a: &MultiAttrList) -> (r: Option<&str>)
    ensures match r { Some(s) => subs_attr(*a) == Some(s@), None => subs_attr(*a).is_none() },
{ unimplemented!() }
/// `str.split(c)`: the stretches between the separators
spec fn split_spec(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if !s.contains(c) { seq![s] }
    else { let i = s.index_of(c); if 0 <= i < s.len() { seq![s.subrange(0, i)] + split_spec(s.subrange(i + 1, s.len() as int), c) } else { seq![s] } }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r.len() == split_spec(s@, c).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == split_spec(s@, c)[i],
{ s.split(c).collect() }
#[verifier::external_body]
fn vx_has_any(s: &str, cs: [char; 2]) -> (r: bool)
    ensures r == (s@.contains(cs@[0]) || s@.contains(cs@[1])),
{ s.contains(cs) }
#[verifier::external_body]
fn vx_str_len(s: &str) -> (r: usize)
    ensures r == encode_utf8(s@).len(),
{ s.len() }
#[verifier::external_body]
fn vx_bytes(s: &str) -> (r: &[u8])
    ensures r@ == encode_utf8(s@),
{ s.as_bytes() }
#[verifier::external_body]
fn vx_slice(v: &[u8], a: usize, b: usize) -> (r: &[u8])
    requires a <= b <= v.len(),
    ensures r@ == v@.subrange(a as int, b as int),
{ &v[a..b] }
#[verifier::external_body]
fn vx_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
#[verifier::external_body]
fn vx_eq_opt(a: Option<Subs>, b: Option<Subs>) -> (r: bool)
    ensures r == (a == b),
{ a == b }

// ---- specification: a substitution list is a sequence without repetitions ----
spec fn bit(s: Subs) -> u8 {
    match s {
        Subs::SpecialChars => 1, Subs::InlineFormatting => 2, Subs::AttrRefs => 4, Subs::CharReplacement => 8,
        Subs::Macros => 16, Subs::PostReplacement => 32, Subs::Callouts => 64,
    }
}
spec fn lead(o: Seq<Option<Subs>>) -> int {
    if o[0].is_none() { 0 } else if o[1].is_none() { 1 } else if o[2].is_none() { 2 } else if o[3].is_none() { 3 }
    else if o[4].is_none() { 4 } else if o[5].is_none() { 5 } else if o[6].is_none() { 6 } else { 7 }
}
spec fn without(s: Seq<Subs>, x: Subs) -> Seq<Subs>
    decreases s.len(),
{
    if s.len() == 0 { s } else if s.last() == x { without(s.drop_last(), x) } else { without(s.drop_last(), x).push(s.last()) }
}
spec fn inserted(s: Seq<Subs>, x: Subs) -> Seq<Subs> { if s.contains(x) { s } else { s.push(x) } }
spec fn prepended(s: Seq<Subs>, x: Subs) -> Seq<Subs> { seq![x] + without(s, x) }
spec fn nodup(s: Seq<Subs>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
impl Substitutions {
    spec fn list(&self) -> Seq<Subs> { Seq::new(lead(self.order@) as nat, |i: int| self.order@[i].unwrap()) }
    /// list invariant: a repetition-free prefix, nothing after it, flags say exactly what is in it
    spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < 7 ==> ((#[trigger] self.order@[i]).is_some() <==> i < lead(self.order@))
        &&& nodup(self.list())
        &&& forall|s: Subs| (self.flags & #[trigger] bit(s) != 0) <==> self.list().contains(s)
    }
}
spec fn every() -> Set<Subs> {
    set![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement, Subs::Macros, Subs::PostReplacement, Subs::Callouts]
}
proof fn lemma_room(s: Seq<Subs>, x: Subs)
    requires nodup(s), !s.contains(x),
    ensures s.len() < 7,
{
    let t = s.push(x);
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < s.len() && j == s.len() { assert(s.contains(s[i])); } if j < s.len() && i == s.len() { assert(s.contains(s[j])); } } }
    t.unique_seq_to_set();
    assert forall|y: Subs| t.to_set().contains(y) implies every().contains(y) by { match y { Subs::SpecialChars => {} Subs::InlineFormatting => {} Subs::AttrRefs => {} Subs::CharReplacement => {} Subs::Macros => {} Subs::PostReplacement => {} Subs::Callouts => {} } }
    assert(every().len() <= 7);
    vstd::set_lib::lemma_len_subset(t.to_set(), every());
}
proof fn lemma_without(s: Seq<Subs>, x: Subs)
    requires nodup(s),
    ensures nodup(without(s, x)), !without(s, x).contains(x), without(s, x).len() <= s.len(),
        forall|y: Subs| without(s, x).contains(y) <==> (y != x && s.contains(y)),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_without(p, x);
        let w = without(p, x);
        assert forall|y: Subs| s.contains(y) <==> (p.contains(y) || y == s.last()) by {
            if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < s.len() - 1 { assert(p[i] == y); } }
            if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; assert(s[i] == y); }
            if y == s.last() { assert(s[s.len() - 1] == y); }
        }
        if s.last() != x {
            let r = w.push(s.last());
            assert(!p.contains(s.last())) by { if p.contains(s.last()) { let i = choose|i: int| 0 <= i < p.len() && p[i] == s.last(); assert(s[i] == s[s.len() - 1]); } }
            assert forall|y: Subs| r.contains(y) <==> (w.contains(y) || y == s.last()) by {
                if r.contains(y) { let i = choose|i: int| 0 <= i < r.len() && r[i] == y; if i < w.len() { assert(w[i] == y); } }
                if w.contains(y) { let i = choose|i: int| 0 <= i < w.len() && w[i] == y; assert(r[i] == y); }
                if y == s.last() { assert(r[r.len() - 1] == y); }
            }
            assert(nodup(r)) by { assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { if j == w.len() { assert(w.contains(w[i])); } } }
        }
    }
}
proof fn lemma_bits(f: u8, a: Subs, b: Subs)
    ensures ((f | bit(a)) & bit(b) != 0) <==> (a == b || f & bit(b) != 0),
        ((f & !bit(a)) & bit(b) != 0) <==> (a != b && f & bit(b) != 0),
{
    let x = bit(a); let y = bit(b);
    assert((x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32 || x == 64) && (y == 1 || y == 2 || y == 4 || y == 8 || y == 16 || y == 32 || y == 64));
    assert(a == b <==> x == y);
    if x == y {
        assert((f | x) & x != 0) by (bit_vector) requires x != 0;
        assert((f & !x) & x == 0) by (bit_vector);
    } else {
        assert(x & y == 0) by (bit_vector) requires x != y, x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32 || x == 64, y == 1 || y == 2 || y == 4 || y == 8 || y == 16 || y == 32 || y == 64;
        assert((f | x) & y == f & y) by (bit_vector) requires x & y == 0;
        assert((f & !x) & y == f & y) by (bit_vector) requires x & y == 0;
    }
}
/// the invariant from a list: what the editing operations have to establish
proof fn lemma_from_list(s: Substitutions, l: Seq<Subs>)
    requires nodup(l), l.len() <= 7,
        forall|i: int| 0 <= i < 7 ==> #[trigger] s.order@[i] == (if i < l.len() { Some(l[i]) } else { None::<Subs> }),
        forall|x: Subs| (s.flags & #[trigger] bit(x) != 0) <==> l.contains(x),
    ensures s.wf(), s.list() == l,
{
    assert(s.order@.len() == 7);
    assert(lead(s.order@) == l.len());
    assert(s.list() =~= l);
}
proof fn lemma_masks()
    ensures 63u8 & 1u8 == 1u8, 63u8 & 2u8 == 2u8, 63u8 & 4u8 == 4u8, 63u8 & 8u8 == 8u8, 63u8 & 16u8 == 16u8, 63u8 & 32u8 == 32u8, 63u8 & 64u8 == 0u8, 15u8 & 1u8 == 1u8, 15u8 & 2u8 == 2u8, 15u8 & 4u8 == 4u8, 15u8 & 8u8 == 8u8, 15u8 & 16u8 == 0u8, 15u8 & 32u8 == 0u8, 15u8 & 64u8 == 0u8, 65u8 & 1u8 == 1u8, 65u8 & 2u8 == 0u8, 65u8 & 4u8 == 0u8, 65u8 & 8u8 == 0u8, 65u8 & 16u8 == 0u8, 65u8 & 32u8 == 0u8, 65u8 & 64u8 == 64u8, 1u8 & 1u8 == 1u8, 1u8 & 2u8 == 0u8, 1u8 & 4u8 == 0u8, 1u8 & 8u8 == 0u8, 1u8 & 16u8 == 0u8, 1u8 & 32u8 == 0u8, 1u8 & 64u8 == 0u8, 127u8 & 1u8 == 1u8, 127u8 & 2u8 == 2u8, 127u8 & 4u8 == 4u8, 127u8 & 8u8 == 8u8, 127u8 & 16u8 == 16u8, 127u8 & 32u8 == 32u8, 127u8 & 64u8 == 64u8, 0u8 & 1u8 == 0u8, 0u8 & 2u8 == 0u8, 0u8 & 4u8 == 0u8, 0u8 & 8u8 == 0u8, 0u8 & 16u8 == 0u8, 0u8 & 32u8 == 0u8, 0u8 & 64u8 == 0u8,
{ assert(63u8 & 1u8 == 1u8 && 63u8 & 2u8 == 2u8 && 63u8 & 4u8 == 4u8 && 63u8 & 8u8 == 8u8 && 63u8 & 16u8 == 16u8 && 63u8 & 32u8 == 32u8 && 63u8 & 64u8 == 0u8 && 15u8 & 1u8 == 1u8 && 15u8 & 2u8 == 2u8 && 15u8 & 4u8 == 4u8 && 15u8 & 8u8 == 8u8 && 15u8 & 16u8 == 0u8 && 15u8 & 32u8 == 0u8 && 15u8 & 64u8 == 0u8 && 65u8 & 1u8 == 1u8 && 65u8 & 2u8 == 0u8 && 65u8 & 4u8 == 0u8 && 65u8 & 8u8 == 0u8 && 65u8 & 16u8 == 0u8 && 65u8 & 32u8 == 0u8 && 65u8 & 64u8 == 64u8 && 1u8 & 1u8 == 1u8 && 1u8 & 2u8 == 0u8 && 1u8 & 4u8 == 0u8 && 1u8 & 8u8 == 0u8 && 1u8 & 16u8 == 0u8 && 1u8 & 32u8 == 0u8 && 1u8 & 64u8 == 0u8 && 127u8 & 1u8 == 1u8 && 127u8 & 2u8 == 2u8 && 127u8 & 4u8 == 4u8 && 127u8 & 8u8 == 8u8 && 127u8 & 16u8 == 16u8 && 127u8 & 32u8 == 32u8 && 127u8 & 64u8 == 64u8 && 0u8 & 1u8 == 0u8 && 0u8 & 2u8 == 0u8 && 0u8 & 4u8 == 0u8 && 0u8 & 8u8 == 0u8 && 0u8 & 16u8 == 0u8 && 0u8 & 32u8 == 0u8 && 0u8 & 64u8 == 0u8) by (bit_vector); }
proof fn lemma_const(s: Substitutions, l: Seq<Subs>)
    requires nodup(l), l.len() <= 7, forall|i: int| 0 <= i < 7 ==> #[trigger] s.order@[i] == filled(l)[i],
        (s.flags & 1 != 0) == l.contains(Subs::SpecialChars), (s.flags & 2 != 0) == l.contains(Subs::InlineFormatting),
        (s.flags & 4 != 0) == l.contains(Subs::AttrRefs), (s.flags & 8 != 0) == l.contains(Subs::CharReplacement),
        (s.flags & 16 != 0) == l.contains(Subs::Macros), (s.flags & 32 != 0) == l.contains(Subs::PostReplacement),
        (s.flags & 64 != 0) == l.contains(Subs::Callouts),
    ensures s.wf(), s.list() == l,
{
    assert forall|x: Subs| (s.flags & #[trigger] bit(x) != 0) <==> l.contains(x) by { match x { Subs::SpecialChars => {} Subs::InlineFormatting => {} Subs::AttrRefs => {} Subs::CharReplacement => {} Subs::Macros => {} Subs::PostReplacement => {} Subs::Callouts => {} } }
    lemma_from_list(s, l);
}
impl Subs {
//@item parser/src/substitutions.rs :: impl Subs :: const SPECIAL_CHARS
//@end
//@item parser/src/substitutions.rs :: impl Subs :: const INLINE_FORMATTING
//@end
//@item parser/src/substitutions.rs :: impl Subs :: const ATTR_REFS
//@end
//@item parser/src/substitutions.rs :: impl Subs :: const CHAR_REPLACEMENT
//@end
//@item parser/src/substitutions.rs :: impl Subs :: const MACROS
//@end
//@item parser/src/substitutions.rs :: impl Subs :: const POST_REPLACEMENT
//@end
//@item parser/src/substitutions.rs :: impl Subs :: const CALLOUTS
//@end
//@extract parser/src/substitutions.rs :: impl Subs :: fn bitflag_pos
//@ spec
ensures r == bit(*self),
//@end
}
impl Substitutions {
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn contains
//@ spec
ensures r == (self.flags & bit(sub) != 0), self.wf() ==> r == self.list().contains(sub),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn normal
//@ spec
ensures r.wf(), r.list() == seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement, Subs::Macros, Subs::PostReplacement],
//@ tail
proof { lemma_masks(); let l = seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement, Subs::Macros, Subs::PostReplacement]; assert(l[0] == Subs::SpecialChars); assert(l[1] == Subs::InlineFormatting); assert(l[2] == Subs::AttrRefs); assert(l[3] == Subs::CharReplacement); assert(l[4] == Subs::Macros); assert(l[5] == Subs::PostReplacement); assert(l.contains(Subs::SpecialChars)); assert(l.contains(Subs::InlineFormatting)); assert(l.contains(Subs::AttrRefs)); assert(l.contains(Subs::CharReplacement)); assert(l.contains(Subs::Macros)); assert(l.contains(Subs::PostReplacement)); assert(!l.contains(Subs::Callouts)); lemma_const(vx_r, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn attr_value
//@ spec
ensures r.wf(), r.list() == seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement],
//@ tail
proof { lemma_masks(); let l = seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement]; assert(l[0] == Subs::SpecialChars); assert(l[1] == Subs::InlineFormatting); assert(l[2] == Subs::AttrRefs); assert(l[3] == Subs::CharReplacement); assert(l.contains(Subs::SpecialChars)); assert(l.contains(Subs::InlineFormatting)); assert(l.contains(Subs::AttrRefs)); assert(l.contains(Subs::CharReplacement)); assert(!l.contains(Subs::Macros)); assert(!l.contains(Subs::PostReplacement)); assert(!l.contains(Subs::Callouts)); lemma_const(vx_r, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn verbatim
//@ spec
ensures r.wf(), r.list() == seq![Subs::SpecialChars, Subs::Callouts],
//@ tail
proof { lemma_masks(); let l = seq![Subs::SpecialChars, Subs::Callouts]; assert(l[0] == Subs::SpecialChars); assert(l[1] == Subs::Callouts); assert(l.contains(Subs::SpecialChars)); assert(!l.contains(Subs::InlineFormatting)); assert(!l.contains(Subs::AttrRefs)); assert(!l.contains(Subs::CharReplacement)); assert(!l.contains(Subs::Macros)); assert(!l.contains(Subs::PostReplacement)); assert(l.contains(Subs::Callouts)); lemma_const(vx_r, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn only_special_chars
//@ spec
ensures r.wf(), r.list() == seq![Subs::SpecialChars],
//@ tail
proof { lemma_masks(); let l = seq![Subs::SpecialChars]; assert(l[0] == Subs::SpecialChars); assert(l.contains(Subs::SpecialChars)); assert(!l.contains(Subs::InlineFormatting)); assert(!l.contains(Subs::AttrRefs)); assert(!l.contains(Subs::CharReplacement)); assert(!l.contains(Subs::Macros)); assert(!l.contains(Subs::PostReplacement)); assert(!l.contains(Subs::Callouts)); lemma_const(vx_r, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn all
//@ spec
ensures r.wf(), r.list() == seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement, Subs::Macros, Subs::PostReplacement, Subs::Callouts],
//@ tail
proof { lemma_masks(); let l = seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement, Subs::Macros, Subs::PostReplacement, Subs::Callouts]; assert(l[0] == Subs::SpecialChars); assert(l[1] == Subs::InlineFormatting); assert(l[2] == Subs::AttrRefs); assert(l[3] == Subs::CharReplacement); assert(l[4] == Subs::Macros); assert(l[5] == Subs::PostReplacement); assert(l[6] == Subs::Callouts); assert(l.contains(Subs::SpecialChars)); assert(l.contains(Subs::InlineFormatting)); assert(l.contains(Subs::AttrRefs)); assert(l.contains(Subs::CharReplacement)); assert(l.contains(Subs::Macros)); assert(l.contains(Subs::PostReplacement)); assert(l.contains(Subs::Callouts)); lemma_const(vx_r, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn none
//@ spec
ensures r.wf(), r.list() == Seq::<Subs>::empty(),
//@ tail
proof { lemma_masks(); let l = Seq::<Subs>::empty();  assert(!l.contains(Subs::SpecialChars)); assert(!l.contains(Subs::InlineFormatting)); assert(!l.contains(Subs::AttrRefs)); assert(!l.contains(Subs::CharReplacement)); assert(!l.contains(Subs::Macros)); assert(!l.contains(Subs::PostReplacement)); assert(!l.contains(Subs::Callouts)); lemma_const(vx_r, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn special_chars
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::SpecialChars),
//@ body
proof { assert(bit(Subs::SpecialChars) == 1); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn inline_formatting
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::InlineFormatting),
//@ body
proof { assert(bit(Subs::InlineFormatting) == 2); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn attr_refs
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::AttrRefs),
//@ body
proof { assert(bit(Subs::AttrRefs) == 4); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn char_replacement
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::CharReplacement),
//@ body
proof { assert(bit(Subs::CharReplacement) == 8); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn macros
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::Macros),
//@ body
proof { assert(bit(Subs::Macros) == 16); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn post_replacement
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::PostReplacement),
//@ body
proof { assert(bit(Subs::PostReplacement) == 32); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn callouts
//@ spec
requires self.wf(),
ensures r == self.list().contains(Subs::Callouts),
//@ body
proof { assert(bit(Subs::Callouts) == 64); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn insert
//@ spec
requires old(self).wf(),
ensures final(self).wf(), final(self).list() == inserted(old(self).list(), sub),
//@ loop 0
invariant old(self).wf(), !old(self).list().contains(sub), self.order == old(self).order, self.flags == old(self).flags | bit(sub),
    forall|j: int| 0 <= j < i ==> (#[trigger] self.order@[j]).is_some(), i <= 7,
//@ before return ; } }
proof { let l = old(self).list().push(sub); lemma_room(old(self).list(), sub);
    assert(i == lead(old(self).order@));
    assert(nodup(l)) by { assert forall|a: int, b: int| 0 <= a < b < l.len() implies l[a] != l[b] by { if b == l.len() - 1 { assert(old(self).list().contains(l[a])); } } }
    assert forall|x: Subs| (self.flags & #[trigger] bit(x) != 0) <==> l.contains(x) by { lemma_bits(old(self).flags, sub, x); let o = old(self).list();
        if o.contains(x) { let k = choose|k: int| 0 <= k < o.len() && o[k] == x; assert(l[k] == x); }
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; if k < o.len() { assert(o[k] == x); } }
        if x == sub { assert(l[l.len() - 1] == x); } }
    lemma_from_list(*self, l); }
//@ before vx_rt_assert
proof { lemma_room(old(self).list(), sub); assert(lead(old(self).order@) == 7); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn remove
//@ sub self.order[i] == Some(sub) ==> vx_eq_opt(self.order[i], Some(sub))
//@ for 0 range
//@ spec
requires old(self).wf(),
ensures final(self).wf(), final(self).list() == without(old(self).list(), sub),
//@ body
proof { lemma_absent(old(self).list(), sub); lemma_part0(*self, sub); }
//@ loop 0
invariant old(self).wf(), vx_e0 == 7, old(self).list().contains(sub), self.order == old(self).order, self.flags == old(self).flags & !bit(sub), vx_i0 <= 7, j <= vx_i0,
    j == part(*old(self), vx_i0 as int, sub).len() + (if vx_i0 > old(self).list().len() { vx_i0 - old(self).list().len() } else { 0 }),
    next@ == filled(part(*old(self), vx_i0 as int, sub)),
decreases 7 - vx_i0,
//@ loopbody 0
proof { lemma_part(*old(self), vx_i0 as int, sub); lemma_filled(part(*old(self), vx_i0 as int, sub)); lemma_fill_none(part(*old(self), vx_i0 as int, sub), j as int); }
//@ before self.order = next
proof { let l = old(self).list(); lemma_part(*old(self), 6, sub); let w = without(l, sub); lemma_without(l, sub);
    assert forall|x: Subs| (self.flags & #[trigger] bit(x) != 0) <==> w.contains(x) by { lemma_bits(old(self).flags, sub, x); }
    lemma_from_list(Substitutions { order: next, flags: self.flags }, w); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn prepend
//@ for 0 array
//@ spec
requires old(self).wf(),
ensures final(self).wf(), final(self).list() == prepended(old(self).list(), sub),
//@ body
proof { lemma_part0(*self, sub); }
//@ loop 0
invariant self.wf(), *self == *old(self), vx_s0 == self.order, vx_i0 <= 7, j == 1 + part(*self, vx_i0 as int, sub).len(), j <= 7,
    next@ == filled(seq![sub] + part(*self, vx_i0 as int, sub)),
decreases 7 - vx_i0,
//@ loopbody 0
proof { lemma_part(*self, vx_i0 as int, sub); lemma_filled(seq![sub] + part(*self, vx_i0 as int, sub)); }
//@ before self.order = next
proof { let l = prepended(self.list(), sub); lemma_part(*self, 6, sub); assert(seq![sub] + part(*self, 7, sub) =~= l);
    lemma_without(self.list(), sub); let w = without(self.list(), sub); lemma_room(w, sub);
    assert(nodup(l)) by { assert forall|a: int, b: int| 0 <= a < b < l.len() implies l[a] != l[b] by { if a == 0 { assert(l[b] == w[b - 1]); assert(w.contains(w[b - 1])); } else { assert(l[a] == w[a - 1] && l[b] == w[b - 1]); } } }
    assert forall|x: Subs| ((self.flags | bit(sub)) & #[trigger] bit(x) != 0) <==> l.contains(x) by { lemma_bits(self.flags, sub, x);
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; if k > 0 { assert(w[k - 1] == x); } }
        if w.contains(x) { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; assert(l[k + 1] == x); }
        assert(l[0] == sub); }
    lemma_from_list(Substitutions { order: next, flags: self.flags | bit(sub) }, l); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn append
//@ for 0 array
//@ spec
requires old(self).wf(),
ensures final(self).wf(), final(self).list() == without(old(self).list(), sub).push(sub),
//@ body
proof { lemma_part0(*self, sub); }
//@ loop 0
invariant self.wf(), *self == *old(self), vx_s0 == self.order, vx_i0 <= 7, j == part(*self, vx_i0 as int, sub).len(), j <= 6,
    next@ == filled(part(*self, vx_i0 as int, sub)),
decreases 7 - vx_i0,
//@ loopbody 0
proof { lemma_part(*self, vx_i0 as int, sub); lemma_filled(part(*self, vx_i0 as int, sub)); }
//@ before next [ j ] = Some ( sub )
proof { lemma_filled(part(*self, 7, sub)); }
//@ before self.order = next
proof { lemma_part(*self, 6, sub); let w = without(self.list(), sub); let l = w.push(sub); assert(part(*self, 7, sub) == w);
    lemma_without(self.list(), sub); lemma_room(w, sub);
    assert(nodup(l)) by { assert forall|a: int, b: int| 0 <= a < b < l.len() implies l[a] != l[b] by { if b == w.len() { assert(w.contains(w[a])); } } }
    assert forall|x: Subs| ((self.flags | bit(sub)) & #[trigger] bit(x) != 0) <==> l.contains(x) by { lemma_bits(self.flags, sub, x);
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; if k < w.len() { assert(w[k] == x); } }
        if w.contains(x) { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; assert(l[k] == x); }
        assert(l[w.len() as int] == sub); }
    lemma_from_list(Substitutions { order: next, flags: self.flags | bit(sub) }, l); }
//@end
}
/// what the first `n` places contribute once `x` is taken out
spec fn part(s: Substitutions, n: int, x: Subs) -> Seq<Subs> { without(s.list().take(min(n, s.list().len() as int)), x) }
spec fn filled(l: Seq<Subs>) -> Seq<Option<Subs>> { Seq::new(7, |i: int| if i < l.len() { Some(l[i]) } else { None }) }
proof fn lemma_filled(l: Seq<Subs>)
    ensures forall|y: Subs| l.len() < 7 ==> #[trigger] filled(l.push(y)) =~= filled(l).update(l.len() as int, Some(y)),
{}
proof fn lemma_fill_none(l: Seq<Subs>, j: int)
    ensures l.len() <= j < 7 ==> filled(l).update(j, None) == filled(l),
{ if l.len() <= j < 7 { assert(filled(l).update(j, None) =~= filled(l)); } }
proof fn lemma_part0(s: Substitutions, x: Subs)
    ensures part(s, 0, x) == Seq::<Subs>::empty(),
{ assert(s.list().take(0) =~= Seq::<Subs>::empty()); }
proof fn lemma_part(s: Substitutions, n: int, x: Subs)
    requires s.wf(), 0 <= n < 7,
    ensures part(s, n + 1, x) == (match s.order@[n] { Some(y) if y != x => part(s, n, x).push(y), _ => part(s, n, x) }),
        part(s, n, x).len() < 7, part(s, n + 1, x).len() < 7, part(s, 7, x) == without(s.list(), x),
        match s.order@[n] { Some(y) if y != x => seq![x] + part(s, n, x).push(y) == (seq![x] + part(s, n, x)).push(y), _ => true },
{
    let l = s.list();
    assert(l.take(l.len() as int) =~= l);
    if n < l.len() { assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == l[n]); }
    lemma_nodup_take(l, min(n, l.len() as int)); lemma_nodup_take(l, min(n + 1, l.len() as int));
    lemma_without(l.take(min(n, l.len() as int)), x); lemma_without(l.take(min(n + 1, l.len() as int)), x);
    lemma_room(part(s, n, x), x); lemma_room(part(s, n + 1, x), x);
    match s.order@[n] { Some(y) => { assert(seq![x] + part(s, n, x).push(y) =~= (seq![x] + part(s, n, x)).push(y)); } None => {} }
}
proof fn lemma_nodup_take(l: Seq<Subs>, n: int)
    requires nodup(l), 0 <= n <= l.len(),
    ensures nodup(l.take(n)),
{ assert forall|i: int, j: int| 0 <= i < j < l.take(n).len() implies l.take(n)[i] != l.take(n)[j] by { assert(l[i] != l[j]); } }
/// what is not in a list is not removed from it
proof fn lemma_absent(l: Seq<Subs>, x: Subs)
    ensures !l.contains(x) ==> without(l, x) == l,
    decreases l.len(),
{
    if l.len() > 0 && !l.contains(x) { assert(l[l.len() - 1] == l.last()); lemma_absent_prefix(l, x); lemma_absent(l.drop_last(), x); assert(l.drop_last().push(l.last()) =~= l); }
}
proof fn lemma_absent_prefix(l: Seq<Subs>, x: Subs)
    requires !l.contains(x), l.len() > 0,
    ensures !l.drop_last().contains(x),
{
    if l.drop_last().contains(x) { let i = choose|i: int| 0 <= i < l.len() - 1 && l.drop_last()[i] == x; assert(l[i] == x); }
}
// ---- the `subs=` attribute: what each part means, applied from left to right ----
spec fn name_of(b: Seq<u8>) -> Option<StepOrGroup> {
    if b == seq![110u8, 111u8, 110u8, 101u8] { Some(StepOrGroup::None) } else if b == seq![110u8, 111u8, 114u8, 109u8, 97u8, 108u8] { Some(StepOrGroup::Normal) } else if b == seq![118u8, 101u8, 114u8, 98u8, 97u8, 116u8, 105u8, 109u8] { Some(StepOrGroup::Verbatim) } else if b == seq![115u8, 112u8, 101u8, 99u8, 105u8, 97u8, 108u8, 99u8, 104u8, 97u8, 114u8, 115u8] { Some(StepOrGroup::SpecialChars) } else if b == seq![99u8, 97u8, 108u8, 108u8, 111u8, 117u8, 116u8, 115u8] { Some(StepOrGroup::Callouts) } else if b == seq![113u8, 117u8, 111u8, 116u8, 101u8, 115u8] { Some(StepOrGroup::Quotes) } else if b == seq![97u8, 116u8, 116u8, 114u8, 105u8, 98u8, 117u8, 116u8, 101u8, 115u8] { Some(StepOrGroup::Attributes) } else if b == seq![114u8, 101u8, 112u8, 108u8, 97u8, 99u8, 101u8, 109u8, 101u8, 110u8, 116u8, 115u8] { Some(StepOrGroup::Replacements) } else if b == seq![109u8, 97u8, 99u8, 114u8, 111u8, 115u8] { Some(StepOrGroup::Macros) } else if b == seq![112u8, 111u8, 115u8, 116u8, 95u8, 114u8, 101u8, 112u8, 108u8, 97u8, 99u8, 101u8, 109u8, 101u8, 110u8, 116u8, 115u8] { Some(StepOrGroup::PostReplacements) } else { None }
}
spec fn members(g: StepOrGroup) -> Seq<Subs> {
    match g {
        StepOrGroup::None => seq![],
        StepOrGroup::Normal => seq![Subs::SpecialChars, Subs::InlineFormatting, Subs::AttrRefs, Subs::CharReplacement, Subs::Macros, Subs::PostReplacement],
        StepOrGroup::Verbatim => seq![Subs::SpecialChars, Subs::Callouts],
        StepOrGroup::SpecialChars => seq![Subs::SpecialChars], StepOrGroup::Callouts => seq![Subs::Callouts],
        StepOrGroup::Quotes => seq![Subs::InlineFormatting], StepOrGroup::Attributes => seq![Subs::AttrRefs],
        StepOrGroup::Replacements => seq![Subs::CharReplacement], StepOrGroup::Macros => seq![Subs::Macros],
        StepOrGroup::PostReplacements => seq![Subs::PostReplacement],
    }
}
/// one substitution: a plain or `+`-led name adds at the end unless present, a trailing `+` moves to the front, `-` takes out
spec fn applied(st: Strategy, l: Seq<Subs>, x: Subs) -> Seq<Subs> {
    match st { Strategy::Replace => inserted(l, x), Strategy::Append => inserted(l, x), Strategy::Prepend => prepended(l, x), Strategy::Remove => without(l, x) }
}
spec fn all_applied(st: Strategy, l: Seq<Subs>, ms: Seq<Subs>, i: int) -> Seq<Subs>
    decreases ms.len() - i,
{
    if 0 <= i < ms.len() { all_applied(st, applied(st, l, ms[i]), ms, i + 1) } else { l }
}
spec fn strategy_of(b: Seq<u8>) -> (Strategy, Seq<u8>) {
    if b[0] == 43 { (Strategy::Append, b.subrange(1, b.len() as int)) }
    else if b[b.len() - 1] == 43 { (Strategy::Prepend, b.subrange(0, b.len() - 1)) }
    else if b[0] == 45 { (Strategy::Remove, b.subrange(1, b.len() as int)) }
    else { (Strategy::Replace, b) }
}
spec fn after_part(l: Seq<Subs>, p: Seq<char>) -> Seq<Subs> {
    let b = encode_utf8(p);
    if b.len() < 4 { l } else { match name_of(strategy_of(b).1) { Some(g) => all_applied(strategy_of(b).0, l, members(g), 0), None => l } }
}
spec fn after_parts(l: Seq<Subs>, ps: Seq<Seq<char>>, n: int) -> Seq<Subs>
    decreases n,
{
    if n <= 0 { l } else { after_part(after_parts(l, ps, n - 1), ps[n - 1]) }
}
/// a list without any sign replaces the block's own; otherwise it edits it
spec fn customized(cur: Seq<Subs>, attr: Seq<char>) -> Seq<Subs> {
    let start = if attr.contains('-') || attr.contains('+') { cur } else { Seq::empty() };
    after_parts(start, split_spec(attr, ','), split_spec(attr, ',').len() as int)
}
impl StepOrGroup {
//@extract parser/src/tasks/customize_subs.rs :: impl StepOrGroup :: fn from
//@ spec
ensures r == name_of(s@),
//@ body
proof { { let w = [110u8, 111u8, 110u8, 101u8]; assert(w@ =~= seq![110u8, 111u8, 110u8, 101u8]); } { let w = [110u8, 111u8, 114u8, 109u8, 97u8, 108u8]; assert(w@ =~= seq![110u8, 111u8, 114u8, 109u8, 97u8, 108u8]); } { let w = [118u8, 101u8, 114u8, 98u8, 97u8, 116u8, 105u8, 109u8]; assert(w@ =~= seq![118u8, 101u8, 114u8, 98u8, 97u8, 116u8, 105u8, 109u8]); } { let w = [115u8, 112u8, 101u8, 99u8, 105u8, 97u8, 108u8, 99u8, 104u8, 97u8, 114u8, 115u8]; assert(w@ =~= seq![115u8, 112u8, 101u8, 99u8, 105u8, 97u8, 108u8, 99u8, 104u8, 97u8, 114u8, 115u8]); } { let w = [99u8, 97u8, 108u8, 108u8, 111u8, 117u8, 116u8, 115u8]; assert(w@ =~= seq![99u8, 97u8, 108u8, 108u8, 111u8, 117u8, 116u8, 115u8]); } { let w = [113u8, 117u8, 111u8, 116u8, 101u8, 115u8]; assert(w@ =~= seq![113u8, 117u8, 111u8, 116u8, 101u8, 115u8]); } { let w = [97u8, 116u8, 116u8, 114u8, 105u8, 98u8, 117u8, 116u8, 101u8, 115u8]; assert(w@ =~= seq![97u8, 116u8, 116u8, 114u8, 105u8, 98u8, 117u8, 116u8, 101u8, 115u8]); } { let w = [114u8, 101u8, 112u8, 108u8, 97u8, 99u8, 101u8, 109u8, 101u8, 110u8, 116u8, 115u8]; assert(w@ =~= seq![114u8, 101u8, 112u8, 108u8, 97u8, 99u8, 101u8, 109u8, 101u8, 110u8, 116u8, 115u8]); } { let w = [109u8, 97u8, 99u8, 114u8, 111u8, 115u8]; assert(w@ =~= seq![109u8, 97u8, 99u8, 114u8, 111u8, 115u8]); } { let w = [112u8, 111u8, 115u8, 116u8, 95u8, 114u8, 101u8, 112u8, 108u8, 97u8, 99u8, 101u8, 109u8, 101u8, 110u8, 116u8, 115u8]; assert(w@ =~= seq![112u8, 111u8, 115u8, 116u8, 95u8, 114u8, 101u8, 112u8, 108u8, 97u8, 99u8, 101u8, 109u8, 101u8, 110u8, 116u8, 115u8]); } }
//@end
}
//@extract parser/src/tasks/customize_subs.rs :: - :: fn from_meta
//@ sub attrs.named("subs") ==> vx_named_subs(attrs)
//@ sub subs.contains($x) ==> vx_has_any(subs, $x)
//@ sub subs.split(',') ==> vx_split(subs, ',')
//@ sub part.len() ==> vx_str_len(part)
//@ sub part.as_bytes() ==> vx_bytes(part)
//@ sub &bytes[$a..$b] ==> vx_slice(bytes, $a, $b)
//@ defun modify
//@ for 0 array
//@ spec
requires current.wf(),
ensures r.wf(), match subs_attr(*attrs) { None => r.list() == current.list(), Some(s) => r.list() == customized(current.list(), s) },
//@ loop 0
invariant next.wf(), vx_i0 <= vx_s0.len(), vx_s0.len() == split_spec(subs@, ',').len(), forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i])@ == split_spec(subs@, ',')[i],
    next.list() == after_parts(if subs@.contains('-') || subs@.contains('+') { current.list() } else { Seq::empty() }, split_spec(subs@, ','), vx_i0 as int),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
proof { reveal_with_fuel(all_applied, 8); }
//@end
} // verus!
fn main() {}
