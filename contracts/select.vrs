//@include prelude.inc
use vstd::string::*;
use std::ops::Range;
verus! {
// unit: which lines of an included file are taken over (parser/src/tasks/directives/includes/*.rs)
//@gsub BumpVec<'arena, u8> ==> Vec<u8>
//@gsub BumpVec<u8> ==> Vec<u8>
//@gsub BumpVec::with_capacity_in($x, self.bump) ==> Vec::with_capacity($x)
//@gsub BumpVec::with_capacity_in($x, bump) ==> Vec::with_capacity($x)
//@gsub format!($x) ==> vx_msg()
// ---- trusted models ----
#[derive(Clone, Copy)]
pub struct VxBump { x: u8 }
pub struct VxErr { x: u8 }
#[derive(PartialEq, Eq)]
pub struct Diagnostic { x: u8 }
pub type Result<T> = std::result::Result<T, Diagnostic>;
#[verifier::external_body]
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
#[verifier::external_body]
fn vx_is_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0), { a.is_empty() }
#[verifier::external_body]
fn vx_string(a: &str) -> (r: String) ensures r@ == a@, { a.to_owned() }
#[verifier::external_body]
fn vx_extend(d: &mut Vec<u8>, s: &[u8]) ensures final(d)@ == old(d)@ + s@, { d.extend_from_slice(s) }
#[verifier::external_body]
fn vx_swap(a: &mut Vec<u8>, b: &mut Vec<u8>) ensures final(a)@ == old(b)@, final(b)@ == old(a)@, { std::mem::swap(a, b) }
pub uninterp spec fn trim_spec(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_trim(s: &str) -> (r: &str) ensures r@ == trim_spec(s@), { s.trim() }
/// `str.parse::<usize>()`
pub uninterp spec fn num(s: Seq<char>) -> Option<usize>;
#[verifier::external_body]
fn vx_num(s: &str) -> (r: std::result::Result<usize, VxErr>) ensures match r { Ok(n) => num(s@) == Some(n), Err(_) => num(s@).is_none() }, { unimplemented!() }
/// `str.split_once("..")`
pub uninterp spec fn dots(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
#[verifier::external_body]
fn vx_split_dots(s: &str) -> (r: Option<(&str, &str)>) ensures match r { Some((a, b)) => dots(s@) == Some((a@, b@)), None => dots(s@).is_none() }, { unimplemented!() }
/// `str.split([',', ';'])`
spec fn parts(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] } else { let p = parts(s.drop_last()); if s.last() == ',' || s.last() == ';' { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } }
}
#[verifier::external_body]
fn vx_split2<'a>(s: &'a str, c: [char; 2]) -> (r: Vec<&'a str>)
    requires c@ == seq![',', ';'],
    ensures r.len() == parts(s@).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == parts(s@)[i],
{ s.split(c).collect() }
/// `str.strip_prefix('!')`
#[verifier::external_body]
fn vx_strip_bang(s: &str) -> (r: Option<&str>) ensures match r { Some(t) => s@.len() > 0 && s@[0] == '!' && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != '!' }, { unimplemented!() }
pub uninterp spec fn has_space(s: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_has_space(s: &str) -> (r: bool) ensures r == has_space(s@), { unimplemented!() }
#[verifier::external_body]
proof fn axiom_no_space(s: Seq<char>) requires s == "*"@ || s == "**"@, ensures !has_space(s) { }
#[verifier::external_body]
fn vx_msg() -> (r: String) { unimplemented!() }

// ---- lines: a newline ends a line ----
//@expect parser/src/tasks/directives/includes/normalize_includes.rs :: .split_inclusive(|&b| b == b'\n')
pub open spec fn lines_of(s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s.last() == 10 { lines_of_open(s.drop_last()) }
    else { lines_of_open(s) }
}
/// the lines of a text whose last line has not been ended
pub open spec fn lines_of_open(s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { seq![Seq::empty()] }
    else if s.last() == 10 { lines_of_open(s.drop_last()).push(Seq::empty()) }
    else { let p = lines_of_open(s.drop_last()); p.drop_last().push(p.last().push(s.last())) }
}
#[verifier::external_body]
fn vx_source_lines<'a>(s: &'a [u8]) -> (r: Vec<&'a [u8]>)
    ensures r.len() == lines_of(s@).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == lines_of(s@)[i], r.len() < usize::MAX,
{ unimplemented!() }
/// `split_inclusive`: the lines with their newlines, which only the last one may lack
#[verifier::external_body]
fn vx_lines_with_end<'a>(s: &'a [u8]) -> (r: Vec<&'a [u8]>)
    ensures r.len() == lines_of(s@).len(), r.len() < usize::MAX, forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@ == (if i < r.len() - 1 || s@.last() == 10 { lines_of(s@)[i].push(10u8) } else { lines_of(s@)[i] }),
{ unimplemented!() }
/// `line.strip_suffix(b"\n").unwrap_or(line)`
#[verifier::external_body]
fn vx_strip_nl<'a>(s: &'a [u8]) -> (r: &'a [u8])
    ensures r@ == (if s@.len() > 0 && s@.last() == 10 { s@.drop_last() } else { s@ }),
{ unimplemented!() }
spec fn joined(l: Seq<Seq<u8>>) -> Seq<u8>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { joined(l.drop_last()) + l.last().push(10u8) } }
/// what stands in for a line left out
pub open spec fn marker() -> Seq<u8> { seq![97u8, 115u8, 99u8, 105u8, 105u8, 100u8, 111u8, 114u8, 107u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8, 58u8, 58u8, 91u8, 102u8, 97u8, 108u8, 115u8, 101u8, 93u8] }
//@gsub selected.extend(line) ==> vx_extend(&mut selected, line)
//@gsub dest.extend(line) ==> vx_extend(&mut dest, line)
//@gsub dest.extend_from_slice(line) ==> vx_extend(&mut dest, line)

// ---- lines by number ----
/// does one entry of the list name line n
spec fn names(p: Seq<char>, n: int) -> bool {
    let t = trim_spec(p);
    match dots(t) {
        Some((lo, hi)) => match num(lo) { Some(a) => a <= n && (hi == "-1"@ || hi.len() == 0 || (num(hi).is_some() && n <= num(hi).unwrap())), None => false },
        None => num(t) == Some(n as usize),
    }
}
/// is the entry a line number or a range
spec fn valid(p: Seq<char>) -> bool {
    let t = trim_spec(p);
    match dots(t) {
        Some((lo, hi)) => match num(lo) { Some(a) => hi == "-1"@ || hi.len() == 0 || (num(hi).is_some() && a <= num(hi).unwrap()), None => false },
        None => num(t).is_some(),
    }
}
spec fn inside(r: Range<usize>, n: int) -> bool { r.start <= n < r.end }
spec fn ranges_hit(rs: Seq<Range<usize>>, n: int) -> bool { exists|k: int| 0 <= k < rs.len() && inside(#[trigger] rs[k], n) }
spec fn named(ps: Seq<Seq<char>>, n: int) -> bool { exists|k: int| 0 <= k < ps.len() && names(#[trigger] ps[k], n) }
spec fn any_valid(ps: Seq<Seq<char>>) -> bool { exists|k: int| 0 <= k < ps.len() && valid(#[trigger] ps[k]) }
fn vx_any_range(rs: &Vec<Range<usize>>, n: usize) -> (r: bool)
    ensures r == ranges_hit(rs@, n as int),
{
    let mut k = 0;
    while k < rs.len()
        invariant k <= rs.len(), forall|j: int| 0 <= j < k ==> !inside(#[trigger] rs@[j], n as int),
        decreases rs.len() - k,
    {
        if rs[k].start <= n && n < rs[k].end { assert(inside(rs@[k as int], n as int)); return true; }
        k = k + 1;
    }
    false
}
proof fn lemma_hit_push(rs: Seq<Range<usize>>, x: Range<usize>, n: int)
    ensures ranges_hit(rs.push(x), n) == (ranges_hit(rs, n) || inside(x, n)),
{
    let y = rs.push(x);
    if ranges_hit(rs, n) { let k = choose|k: int| 0 <= k < rs.len() && inside(#[trigger] rs[k], n); assert(inside(y[k], n)); }
    if inside(x, n) { assert(inside(y[rs.len() as int], n)); }
    if ranges_hit(y, n) { let k = choose|k: int| 0 <= k < y.len() && inside(#[trigger] y[k], n); if k < rs.len() { assert(inside(rs[k], n)); } }
}
proof fn lemma_named_step(ps: Seq<Seq<char>>, k: int, n: int)
    requires 0 <= k < ps.len(),
    ensures named(ps.take(k + 1), n) == (named(ps.take(k), n) || names(ps[k], n)), any_valid(ps.take(k + 1)) == (any_valid(ps.take(k)) || valid(ps[k])),
{
    let a = ps.take(k); let b = ps.take(k + 1);
    if named(a, n) { let j = choose|j: int| 0 <= j < a.len() && names(#[trigger] a[j], n); assert(names(b[j], n)); }
    if names(ps[k], n) { assert(names(b[k], n)); }
    if named(b, n) { let j = choose|j: int| 0 <= j < b.len() && names(#[trigger] b[j], n); if j < k { assert(names(a[j], n)); } }
    if any_valid(a) { let j = choose|j: int| 0 <= j < a.len() && valid(#[trigger] a[j]); assert(valid(b[j])); }
    if valid(ps[k]) { assert(valid(b[k])); }
    if any_valid(b) { let j = choose|j: int| 0 <= j < b.len() && valid(#[trigger] b[j]); if j < k { assert(valid(a[j])); } }
}
spec fn ranges_ok(rs: Seq<Range<usize>>, ps: Seq<Seq<char>>) -> bool {
    &&& (rs.len() > 0) == any_valid(ps)
    &&& forall|n: int| 0 <= n < usize::MAX ==> #[trigger] ranges_hit(rs, n) == named(ps, n)
}
spec fn added(rs: Seq<Range<usize>>, r2: Seq<Range<usize>>, p: Seq<char>) -> bool {
    if valid(p) { r2.len() == rs.len() + 1 && r2.drop_last() =~= rs && forall|n: int| 0 <= n < usize::MAX ==> #[trigger] inside(r2.last(), n) == names(p, n) }
    else { r2 == rs && forall|n: int| 0 <= n < usize::MAX ==> !#[trigger] names(p, n) }
}
proof fn lemma_ranges_step(rs: Seq<Range<usize>>, r2: Seq<Range<usize>>, ps: Seq<Seq<char>>, k: int)
    requires 0 <= k < ps.len(), ranges_ok(rs, ps.take(k)), added(rs, r2, ps[k]),
    ensures ranges_ok(r2, ps.take(k + 1)),
{
    lemma_named_step(ps, k, 0);
    assert forall|n: int| 0 <= n < usize::MAX implies #[trigger] ranges_hit(r2, n) == named(ps.take(k + 1), n) by {
        lemma_named_step(ps, k, n);
        assert(ranges_hit(rs, n) == named(ps.take(k), n));
        if valid(ps[k]) {
            let x = r2.last(); assert(r2 =~= rs.push(x));
            lemma_hit_push(rs, x, n);
            assert(inside(x, n) == names(ps[k], n));
        } else { assert(!names(ps[k], n)); }
    }
}
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: - :: fn parse_line_ranges
//@ sub s.split([',', ';']).for_each(|part| { ==> for vx_part in vx_split2(s, [',', ';']) { let ghost r0 = ranges@; let part: &str = vx_part;
//@ sub } }); ==> } }
//@ sub return; ==> continue;
//@ sub part.trim() ==> vx_trim(part)
//@ sub part.split_once("..") ==> vx_split_dots(part)
//@ sub low.parse::<usize>() ==> vx_num(low)
//@ sub high.parse::<usize>() ==> vx_num(high)
//@ sub part.parse::<usize>() ==> vx_num(part)
//@ sub high == "-1" ==> vx_str_eq(high, "-1")
//@ sub high.is_empty() ==> vx_is_empty(high)
//@ for 0 array
//@ body
proof { reveal_strlit("-1"); }
//@ spec
ensures ranges_ok(r@, parts(s@)),
//@ loop 0
invariant vx_s0.len() == parts(s@).len(), vx_i0 <= vx_s0.len(), forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i])@ == parts(s@)[i],
    ranges_ok(ranges@, parts(s@).take(vx_i0 as int)),
decreases vx_s0.len() - vx_i0,
//@ after let ghost r0 = ranges@;
proof { let ps = parts(s@); let k = vx_i0 - 1; assert forall|r2: Seq<Range<usize>>| added(r0, r2, ps[k]) implies #[trigger] ranges_ok(r2, ps.take(k + 1)) by { lemma_ranges_step(r0, r2, ps, k); } }
//@ tail
proof { assert(parts(s@).take(parts(s@).len() as int) =~= parts(s@)); }
//@end

spec fn kept(ls: Seq<Seq<u8>>, ps: Seq<Seq<char>>) -> Seq<Seq<u8>> { Seq::new(ls.len(), |i: int| if named(ps, i + 1) { ls[i] } else { marker() }) }
proof fn lemma_joined_push(l: Seq<Seq<u8>>, x: Seq<u8>)
    ensures joined(l.push(x)) == joined(l) + x.push(10u8),
{ assert(l.push(x).drop_last() =~= l); }
// ---- attributes of the directive ----
#[verifier::external_body]
pub struct AttrList { x: u8 }
pub struct SourceLocation { pub start: u32, pub end: u32, pub include_depth: u16 }
impl AttrList {
    pub uninterp spec fn v(&self, k: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn named(&self, k: &str) -> (r: Option<&str>) ensures match r { Some(s) => self.v(k@) == Some(s@), None => self.v(k@).is_none() }, { unimplemented!() }
    #[verifier::external_body]
    fn vx_nonempty(&self, k: &str) -> (r: Option<(&str, SourceLocation)>) ensures match r { Some((s, l)) => self.v(k@) == Some(s@) && s@.len() > 0, None => self.v(k@).is_none() || self.v(k@).unwrap().len() == 0 }, { unimplemented!() }
    #[verifier::external_body]
    fn vx_number(&self, k: &str) -> (r: Option<u16>) ensures match r { Some(n) => self.v(k@).is_some() && num16(self.v(k@).unwrap()) == Some(n), None => self.v(k@).is_none() || num16(self.v(k@).unwrap()).is_none() }, { unimplemented!() }
}
pub uninterp spec fn num16(s: Seq<char>) -> Option<u16>;
#[verifier::external_body]
pub struct Path { x: u8 }
pub struct Parser { pub bump: VxBump }
spec fn ranged(src: Seq<u8>, lines: Seq<char>) -> Seq<u8> {
    if any_valid(parts(lines)) { joined(kept(lines_of(src), parts(lines))) } else { src }
}
fn vx_enum<'a>(v: Vec<&'a [u8]>) -> (r: Vec<(usize, &'a [u8])>)
    ensures r.len() == v.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i],
{
    let mut r: Vec<(usize, &'a [u8])> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).0 == j && r@[j].1 == v@[j],
        decreases v.len() - i,
    { r.push((i, v[i])); i = i + 1; }
    r
}
impl Parser {
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: impl Parser :: fn select_line_ranges
//@ sub for (i, line) in source_lines(bytes).enumerate() { ==> for vx_il in vx_enum(vx_source_lines(bytes)) { let (i, line) = vx_il; let ghost d0 = selected@;
//@ sub ranges.iter().any(|range| range.contains(&(i + 1))) ==> vx_any_range(&ranges, i + 1)
//@ sub std::mem::swap(bytes, &mut selected) ==> vx_swap(bytes, &mut selected)
//@ for 0 array
//@ spec
ensures final(bytes)@ == ranged(old(bytes)@, lines@),
//@ loop 0
invariant vx_s0.len() == lines_of(bytes@).len(), vx_i0 <= vx_s0.len(), vx_s0.len() < usize::MAX, *bytes == *old(bytes), ranges_ok(ranges@, parts(lines@)),
    forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i]).0 == i && vx_s0@[i].1@ == lines_of(bytes@)[i],
    selected@ == joined(kept(lines_of(bytes@), parts(lines@)).take(vx_i0 as int)),
decreases vx_s0.len() - vx_i0,
//@ after let ghost d0 = selected@;
proof { let k = kept(lines_of(bytes@), parts(lines@)); assert(k.take(vx_i0 as int) =~= k.take(vx_i0 - 1).push(k[vx_i0 - 1])); lemma_joined_push(k.take(vx_i0 - 1), k[vx_i0 - 1]); assert(line@.push(10u8) =~= line@ + seq![10u8]); assert((d0 + line@).push(10u8) =~= d0 + line@.push(10u8)); assert(ranges_hit(ranges@, i + 1) == named(parts(lines@), i + 1)); assert(k[i as int] == (if named(parts(lines@), i + 1) { lines_of(bytes@)[i as int] } else { marker() })); assert(d0 == joined(k.take(vx_i0 - 1))); assert(joined(k.take(vx_i0 as int)) == d0 + k[i as int].push(10u8)); }
//@ tail
proof { let k = kept(lines_of(old(bytes)@), parts(lines@)); assert(k.take(k.len() as int) =~= k); }
//@end
}

// ---- trailing whitespace of AsciiDoc files ----
spec fn rtrim(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{ if s.len() > 0 && (s.last() == 32 || s.last() == 9) { rtrim(s.drop_last()) } else { s } }
/// the text without the whitespace and carriage returns before newlines
spec fn cleaned(s: Seq<u8>, k: int) -> Seq<u8>
    decreases k,
{
    if k <= 0 { Seq::empty() }
    else if s[k - 1] == 10 { rtrim(cleaned(s, k - 1)).push(10u8) }
    else if s[k - 1] == 13 && k < s.len() && s[k] == 10 { cleaned(s, k - 1) }
    else { cleaned(s, k - 1).push(s[k - 1]) }
}
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: - :: fn trim_trailing_whitespace
//@ spec
ensures final(bytes)@ == rtrim(old(bytes)@),
//@ loop 0
invariant i <= bytes.len(), *bytes == *old(bytes), rtrim(bytes@) == rtrim(bytes@.take(i as int)),
decreases i,
//@ loopbody 0
proof { assert(bytes@.take(i as int).drop_last() =~= bytes@.take(i - 1)); assert(bytes@.take(i as int).last() == bytes@[i - 1]); }
//@ body
proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@ before bytes.truncate(i)
proof { assert(bytes@.subrange(0, i as int) =~= bytes@.take(i as int)); if i > 0 { assert(bytes@.take(i as int).last() == bytes@[i - 1]); } }
//@end

#[verifier::external_body]
fn vx_asciidoc_file(p: &Path) -> (r: bool) ensures r == is_asciidoc(*p), { unimplemented!() }
pub uninterp spec fn is_asciidoc(p: Path) -> bool;
fn vx_enum_bytes(v: &Vec<u8>) -> (r: Vec<(usize, u8)>)
    ensures r.len() == v.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i],
{
    let mut r: Vec<(usize, u8)> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).0 == j && r@[j].1 == v@[j],
        decreases v.len() - i,
    { r.push((i, v[i])); i = i + 1; }
    r
}
fn vx_byte_is(v: &Vec<u8>, i: usize, b: u8) -> (r: bool)
    ensures r == (i < v.len() && v@[i as int] == b),
{ i < v.len() && v[i] == b }
impl Parser {
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: impl Parser :: fn normalize_asciidoc
//@ sub let adoc_exts = [".adoc", ".asciidoc", ".ad", ".asc", ".txt"]; ==>
//@ sub !adoc_exts.contains(&path.extension()) ==> !vx_asciidoc_file(path)
//@ sub for (i, b) in bytes.iter().enumerate() { ==> for vx_ib in vx_enum_bytes(bytes) { let (i, vx_b) = vx_ib; let b = &vx_b;
//@ sub bytes.get(i + 1) == Some(&b'\n') ==> vx_byte_is(bytes, i + 1, b'\n')
//@ sub std::mem::swap(bytes, &mut dest) ==> vx_swap(bytes, &mut dest)
//@ for 0 array
//@ spec
ensures final(bytes)@ == (if is_asciidoc(*path) { cleaned(old(bytes)@, old(bytes)@.len() as int) } else { old(bytes)@ }),
//@ loop 0
invariant vx_s0.len() == bytes.len(), vx_i0 <= vx_s0.len(), *bytes == *old(bytes), forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i]).0 == i && vx_s0@[i].1 == bytes@[i],
    dest@ == cleaned(bytes@, vx_i0 as int),
decreases vx_s0.len() - vx_i0,
//@end
}

// ---- indentation ----
/// blank lines and stand-ins have none
spec fn indented(l: Seq<u8>) -> bool { !(l.len() == 0 || l == seq![13u8] || l == marker()) }
spec fn lead(l: Seq<u8>) -> nat
    decreases l.len(),
{ if l.len() > 0 && (l[0] == 32 || l[0] == 9) { 1 + lead(l.skip(1)) } else { 0 } }
proof fn lemma_lead(l: Seq<u8>)
    ensures lead(l) <= l.len(), forall|i: int| 0 <= i < lead(l) ==> (#[trigger] l[i] == 32 || l[i] == 9), lead(l) < l.len() ==> l[lead(l) as int] != 32 && l[lead(l) as int] != 9,
    decreases l.len(),
{
    if l.len() > 0 && (l[0] == 32 || l[0] == 9) {
        lemma_lead(l.skip(1));
        assert forall|i: int| 0 <= i < lead(l) implies (#[trigger] l[i] == 32 || l[i] == 9) by { if i > 0 { assert(l.skip(1)[i - 1] == l[i]); } }
        if lead(l) < l.len() { assert(l.skip(1)[lead(l) - 1] == l[lead(l) as int]); }
    }
}
#[verifier::external_body]
fn vx_is_marker(l: &[u8]) -> (r: bool) ensures r == (l@ == marker()), { unimplemented!() }
#[verifier::external_body]
fn vx_is_cr(l: &[u8]) -> (r: bool) ensures r == (l@ == seq![13u8]), { unimplemented!() }
#[verifier::external_body]
fn vx_count_lead(l: &[u8]) -> (r: usize) ensures r == lead(l@), { unimplemented!() }
//@extract parser/src/tasks/directives/includes/process_includes.rs :: - :: fn line_indentation
//@ sub line == &[13u8] ==> vx_is_cr(line)
//@ sub line == &[97u8, 115u8, 99u8, 105u8, 105u8, 100u8, 111u8, 114u8, 107u8, 105u8, 110u8, 99u8, 108u8, 117u8, 100u8, 101u8, 58u8, 58u8, 91u8, 102u8, 97u8, 108u8, 115u8, 101u8, 93u8] ==> vx_is_marker(line)
//@ sub line.iter().take_while(|&&c| c == b' ' || c == b'\t').count() ==> vx_count_lead(line)
//@ spec
ensures r.is_some() == indented(line@), r.is_some() ==> r.unwrap() == lead(line@),
//@end

spec fn min_lead(ls: Seq<Seq<u8>>) -> Option<nat>
    decreases ls.len(),
{
    if ls.len() == 0 { None } else {
        let m = min_lead(ls.drop_last());
        if indented(ls.last()) { match m { Some(k) => if k <= lead(ls.last()) { Some(k) } else { Some(lead(ls.last())) }, None => Some(lead(ls.last())) } } else { m }
    }
}
proof fn lemma_min_lead(ls: Seq<Seq<u8>>)
    ensures match min_lead(ls) {
        Some(m) => forall|i: int| 0 <= i < ls.len() && indented(#[trigger] ls[i]) ==> m <= lead(ls[i]),
        None => forall|i: int| 0 <= i < ls.len() ==> !indented(#[trigger] ls[i]),
    },
    decreases ls.len(),
{
    if ls.len() > 0 {
        let p = ls.drop_last();
        lemma_min_lead(p);
        assert forall|i: int| 0 <= i < ls.len() && indented(#[trigger] ls[i]) implies min_lead(ls).is_some() && min_lead(ls).unwrap() <= lead(ls[i]) by {
            if i < p.len() { assert(p[i] == ls[i]); }
        }
    }
}
/// `source_lines(buf).filter_map(line_indentation).min()`
fn vx_min_indent(buf: &Vec<u8>) -> (r: Option<usize>)
    ensures r.is_some() == min_lead(lines_of(buf@)).is_some(), r.is_some() ==> r.unwrap() == min_lead(lines_of(buf@)).unwrap(),
{
    let ls = vx_source_lines(buf);
    let mut m: Option<usize> = None;
    let mut i: usize = 0;
    while i < ls.len()
        invariant i <= ls.len(), ls.len() == lines_of(buf@).len(), forall|j: int| 0 <= j < ls.len() ==> (#[trigger] ls@[j])@ == lines_of(buf@)[j],
            m.is_some() == min_lead(lines_of(buf@).take(i as int)).is_some(), m.is_some() ==> m.unwrap() == min_lead(lines_of(buf@).take(i as int)).unwrap(),
        decreases ls.len() - i,
    {
        let x = line_indentation(ls[i]);
        let ghost g = lines_of(buf@);
        proof { assert(g.take(i + 1).drop_last() =~= g.take(i as int)); assert(g.take(i + 1).last() == g[i as int]); }
        match x { Some(k) => { match m { Some(o) => { if k < o { m = Some(k); } } None => { m = Some(k); } } } None => {} }
        i = i + 1;
    }
    proof { assert(lines_of(buf@).take(i as int) =~= lines_of(buf@)); }
    m
}
spec fn with_end(s: Seq<u8>, i: int) -> Seq<u8> { let ls = lines_of(s); if i < ls.len() - 1 || s.last() == 10 { ls[i].push(10u8) } else { ls[i] } }
spec fn spaces(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 32u8) }
/// the first k lines with their indentation replaced
spec fn reindented(s: Seq<u8>, n: int, m: int, k: int) -> Seq<u8>
    decreases k,
{
    if k <= 0 { Seq::empty() } else {
        reindented(s, n, m, k - 1) + (if indented(lines_of(s)[k - 1]) { spaces(n) + with_end(s, k - 1).skip(m) } else { with_end(s, k - 1) })
    }
}
spec fn reindent(s: Seq<u8>, n: int) -> Seq<u8> {
    match min_lead(lines_of(s)) { Some(m) => reindented(s, n, m as int, lines_of(s).len() as int), None => s }
}
#[verifier::external_body]
fn vx_push_spaces(d: &mut Vec<u8>, b: u8, n: usize) ensures final(d)@ == old(d)@ + Seq::new(n as nat, |i: int| b), { unimplemented!() }
proof fn lemma_last_line(s: Seq<u8>)
    requires s.len() > 0, s.last() != 10,
    ensures lines_of(s).len() > 0, lines_of(s).last().len() > 0, lines_of(s).last().last() == s.last(),
{ }
//@extract parser/src/tasks/directives/includes/process_includes.rs :: - :: fn _set_indentation
//@ sub source_lines(buf).filter_map(line_indentation).min() ==> vx_min_indent(buf)
//@ sub bump: &'arena Bump ==> bump: VxBump
//@ sub buf.split_inclusive(|&c| c == b'\n') ==> vx_lines_with_end(buf)
//@ sub line.strip_suffix(&[10u8]).unwrap_or(line) ==> vx_strip_nl(line)
//@ sub dest.extend(std::iter::repeat_n(b' ', indent)) ==> vx_push_spaces(&mut dest, b' ', indent)
//@ sub dest.extend_from_slice(&line[min_indent..]) ==> vx_extend(&mut dest, vx_from(line, min_indent))
//@ sub std::mem::swap(buf, &mut dest) ==> vx_swap(buf, &mut dest)
//@ for 0 array
//@ spec
ensures final(buf)@ == reindent(old(buf)@, indent as int),
//@ loop 0
invariant vx_s0.len() == lines_of(buf@).len(), vx_i0 <= vx_s0.len(), *buf == *old(buf), min_lead(lines_of(buf@)) == Some(min_indent as nat),
    forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i])@ == with_end(buf@, i),
    dest@ == reindented(buf@, indent as int, min_indent as int, vx_i0 as int),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
let ghost d0 = dest@;
proof {
    let k = vx_i0 as int; let l = lines_of(buf@)[k]; lemma_min_lead(lines_of(buf@)); lemma_lead(l);
    if !(k < vx_s0.len() - 1 || buf@.last() == 10) { if buf@.len() > 0 { lemma_last_line(buf@); } }
    assert(l.push(10u8).drop_last() =~= l);
    assert(with_end(buf@, k).skip(min_indent as int) =~= with_end(buf@, k).subrange(min_indent as int, with_end(buf@, k).len() as int));
    assert((d0 + spaces(indent as int)) + with_end(buf@, k).skip(min_indent as int) =~= d0 + (spaces(indent as int) + with_end(buf@, k).skip(min_indent as int)));
}
//@end
fn vx_from<'a>(l: &'a [u8], n: usize) -> (r: &'a [u8])
    requires n <= l.len(),
    ensures r@ == l@.skip(n as int),
{ let r = vstd::slice::slice_subrange(l, n, l.len()); proof { assert(r@ =~= l@.skip(n as int)); } r }
impl Parser {
//@extract parser/src/tasks/directives/includes/process_includes.rs :: impl Parser :: fn set_include_indentation
//@ sub attrs.named("indent").and_then(|s| s.parse::<u16>().ok()) ==> attrs.vx_number("indent")
//@ spec
ensures final(buf)@ == (match attrs.v("indent"@) { Some(v) => match num16(v) { Some(n) => reindent(old(buf)@, n as int), None => old(buf)@ }, None => old(buf)@ }),
//@end
}

// ---- regions by tag ----
//@item parser/src/tasks/directives/includes/tags.rs :: - :: enum Spec
//@end
//@item parser/src/tasks/directives/includes/tags.rs :: - :: struct TagSpecs
//@end
//@item parser/src/tasks/directives/includes/tags.rs :: - :: struct TagFilter
//@end
//@item parser/src/tasks/directives/includes/tags.rs :: - :: struct Region
//@end
//@item parser/src/tasks/directives/includes/tags.rs :: - :: struct TagStack
//@end
//@item parser/src/tasks/directives/includes/tags.rs :: - :: enum TagDirective
//@end
pub type Rule = (Seq<char>, bool);
spec fn rl(t: Seq<char>, b: bool) -> Rule { (t, b) }
spec fn all() -> Seq<char> { "**"@ }
spec fn star() -> Seq<char> { "*"@ }
/// a spec as the rules it was written as
spec fn flat1(s: Spec) -> Seq<Rule> {
    match s {
        Spec::AllNonTagDirectiveLines => seq![rl(all(), true)],
        Spec::NoLines => seq![rl(all(), false)],
        Spec::AllTaggedRegions => seq![rl(star(), true)],
        Spec::AllUntaggedRegions => seq![rl(star(), false)],
        Spec::Tag(t) => seq![rl(t@, true)],
        Spec::AllLinesExcl(t) => seq![rl(t@, false)],
        Spec::TagExclAllNested(t) => seq![rl(t@, true), rl(star(), false)],
        Spec::TagExclNested(t, u) => seq![rl(t@, true), rl(u@, false)],
        Spec::AllTaggedExcl(t) => seq![rl(star(), true), rl(t@, false)],
        Spec::AllUntaggedIncl(t) => seq![rl(star(), false), rl(t@, true)],
    }
}
spec fn flat(s: Seq<Spec>) -> Seq<Rule>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + flat1(s.last()) } }
spec fn seen(r: Seq<(&str, bool)>) -> Seq<Rule> { Seq::new(r.len(), |i: int| rl(r[i].0@, r[i].1)) }
fn vx_s(s: &String) -> (r: &str) ensures r@ == s@, { s.as_str() }
fn vx_rules1<'a>(a: (&'a str, bool)) -> (r: Vec<(&'a str, bool)>) ensures r@ == seq![a], { let mut v = Vec::new(); v.push(a); v }
fn vx_rules2<'a>(a: (&'a str, bool), b: (&'a str, bool)) -> (r: Vec<(&'a str, bool)>) ensures r@ == seq![a, b], { let mut v = Vec::new(); v.push(a); v.push(b); v }
impl Spec {
//@extract parser/src/tasks/directives/includes/tags.rs :: impl Spec :: fn rules
//@ sub vec![($a), ($b)] ==> vx_rules2(($a), ($b))
//@ sub vec![($a)] ==> vx_rules1(($a))
//@ sub (tag, true) ==> (vx_s(tag), true)
//@ sub (tag, false) ==> (vx_s(tag), false)
//@ sub (incl, true) ==> (vx_s(incl), true)
//@ sub (excl, false) ==> (vx_s(excl), false)
//@ spec
ensures seen(r@) =~= flat1(*self),
//@end
}
/// the last rule for a tag counts, in the place of the first one
spec fn at(r: Seq<Rule>, t: Seq<char>) -> Option<int>
    decreases r.len(),
{ if r.len() == 0 { None } else if r.last().0 == t { Some(r.len() - 1) } else { at(r.drop_last(), t) } }
spec fn val(r: Seq<Rule>, t: Seq<char>) -> Option<bool> { match at(r, t) { Some(i) => Some(r[i].1), None => None } }
spec fn dedupe1(p: Seq<Rule>, x: Rule) -> Seq<Rule> { match at(p, x.0) { Some(i) => p.update(i, x), None => p.push(x) } }
spec fn dedupe(r: Seq<Rule>) -> Seq<Rule>
    decreases r.len(),
{ if r.len() == 0 { Seq::empty() } else { dedupe1(dedupe(r.drop_last()), r.last()) } }
spec fn distinct(r: Seq<Rule>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0 }
proof fn lemma_at(r: Seq<Rule>, t: Seq<char>)
    ensures match at(r, t) { Some(i) => 0 <= i < r.len() && r[i].0 == t, None => forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 != t },
    decreases r.len(),
{
    if r.len() > 0 && r.last().0 != t {
        lemma_at(r.drop_last(), t);
        if at(r, t).is_none() { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 != t by { if i < r.len() - 1 { assert(r.drop_last()[i] == r[i]); } } }
    }
}
proof fn lemma_at_is(r: Seq<Rule>, t: Seq<char>, i: int)
    requires distinct(r), 0 <= i < r.len(), r[i].0 == t,
    ensures at(r, t) == Some(i),
{ lemma_at(r, t); let j = at(r, t).unwrap(); if j < i { assert(r[j].0 != r[i].0); } else if i < j { assert(r[i].0 != r[j].0); } }
proof fn lemma_dedupe1(p: Seq<Rule>, x: Rule)
    requires distinct(p),
    ensures distinct(dedupe1(p, x)), forall|t: Seq<char>| #[trigger] val(dedupe1(p, x), t) == (if t == x.0 { Some(x.1) } else { val(p, t) }),
{
    lemma_at(p, x.0);
    let q = dedupe1(p, x);
    assert(distinct(q));
    assert forall|t: Seq<char>| #[trigger] val(q, t) == (if t == x.0 { Some(x.1) } else { val(p, t) }) by {
        lemma_at(p, t); lemma_at(q, t);
        if t == x.0 { match at(p, x.0) { Some(i) => { lemma_at_is(q, t, i); } None => { lemma_at_is(q, t, p.len() as int); } } }
        else { match at(p, t) { Some(i) => { lemma_at_is(q, t, i); } None => { } } }
    }
}
proof fn lemma_dedupe(r: Seq<Rule>)
    ensures distinct(dedupe(r)),
    decreases r.len(),
{ if r.len() > 0 { lemma_dedupe(r.drop_last()); lemma_dedupe1(dedupe(r.drop_last()), r.last()); } }
/// where a tag has its rule
fn vx_at(r: &Vec<(&str, bool)>, t: &str) -> (x: Option<usize>)
    requires distinct(seen(r@)),
    ensures match x { Some(i) => at(seen(r@), t@) == Some(i as int) && i < r.len(), None => at(seen(r@), t@).is_none() },
{
    let mut i: usize = 0;
    while i < r.len()
        invariant i <= r.len(), distinct(seen(r@)), forall|j: int| 0 <= j < i ==> (#[trigger] seen(r@)[j]).0 != t@,
        decreases r.len() - i,
    {
        if vx_str_eq(r[i].0, t) { proof { lemma_at_is(seen(r@), t@, i as int); } return Some(i); }
        i = i + 1;
    }
    proof { lemma_at(seen(r@), t@); }
    None
}
/// `self.0.iter().flat_map(Spec::rules)`
fn vx_flat<'a>(s: &'a Vec<Spec>) -> (r: Vec<(&'a str, bool)>)
    ensures seen(r@) == flat(s@),
{
    let mut r: Vec<(&'a str, bool)> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), seen(r@) == flat(s@.take(i as int)),
        decreases s.len() - i,
    {
        let x = s[i].rules();
        let ghost r0 = r@;
        vx_append(&mut r, x);
        proof { assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); assert(s@.take(i + 1).last() == s@[i as int]); assert(seen(r@) =~= seen(r0) + seen(x@)); }
        i = i + 1;
    }
    proof { assert(s@.take(i as int) =~= s@); }
    r
}
fn vx_append<'a>(r: &mut Vec<(&'a str, bool)>, x: Vec<(&'a str, bool)>) ensures final(r)@ == old(r)@ + x@, { let mut y = x; r.append(&mut y); }
fn vx_set(r: &mut Vec<(&str, bool)>, i: usize, b: bool)
    requires i < old(r).len(),
    ensures seen(final(r)@) == seen(old(r)@).update(i as int, (seen(old(r)@)[i as int].0, b)),
{ let t = r[i].0; let ghost r0 = r@; r.set(i, (t, b)); proof { assert(seen(r@) =~= seen(r0).update(i as int, (seen(r0)[i as int].0, b))); } }
impl TagSpecs {
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagSpecs :: fn rules
//@ sub for (tag, select) in self.0.iter().flat_map(Spec::rules) { ==> for vx_ts in vx_flat(&self.0) { let (tag, select) = vx_ts; let ghost r0 = rules@;
//@ sub match rules.iter_mut().find(|rule| rule.0 == tag) ==> match vx_at(&rules, tag)
//@ sub rule.1 = select ==> vx_set(&mut rules, rule, select)
//@ sub None => rules.push((tag, select)), ==> None => { rules.push((tag, select)); proof { assert(seen(rules@) =~= seen(r0).push((tag@, select))); } }
//@ for 0 array
//@ spec
ensures seen(r@) == dedupe(flat(self.0@)),
//@ loop 0
invariant seen(vx_s0@) == flat(self.0@), vx_i0 <= vx_s0.len(), seen(rules@) == dedupe(flat(self.0@).take(vx_i0 as int)),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
proof { let f = flat(self.0@); let k = vx_i0 as int; lemma_dedupe(f.take(k)); assert(f.take(k + 1).drop_last() =~= f.take(k)); assert(f.take(k + 1).last() == seen(vx_s0@)[k]); lemma_at(seen(rules@), f[k].0); }
//@ tail
proof { assert(flat(self.0@).take(flat(self.0@).len() as int) =~= flat(self.0@)); }
//@end
}

fn vx_same(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@), { vx_str_eq(a.as_str(), b.as_str()) }
spec fn is_all(s: Spec) -> bool { s is AllNonTagDirectiveLines }
fn vx_has_all(s: &Vec<Spec>) -> (r: bool)
    ensures r == (exists|i: int| 0 <= i < s.len() && is_all(#[trigger] s@[i])),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), forall|j: int| 0 <= j < i ==> !is_all(#[trigger] s@[j]),
        decreases s.len() - i,
    { if let Spec::AllNonTagDirectiveLines = s[i] { assert(is_all(s@[i as int])); return true; } i = i + 1; }
    false
}
fn vx_last_none(s: &Vec<Spec>) -> (r: bool)
    ensures r == (s.len() > 0 && s@.last() is NoLines),
{ if s.len() == 0 { return false; } if let Spec::NoLines = s[s.len() - 1] { true } else { false } }
fn vx_only_all() -> (r: Vec<Spec>) ensures r.len() == 1, r@[0] is AllNonTagDirectiveLines, { let mut v = Vec::new(); v.push(Spec::AllNonTagDirectiveLines); v }
/// nothing in the list is about `**`
spec fn plain1(s: Spec) -> bool { !(s is AllNonTagDirectiveLines) && !(s is NoLines) }
spec fn plain(s: Seq<Spec>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain1(#[trigger] s[i]) }
proof fn lemma_flat_push(s: Seq<Spec>, x: Spec)
    ensures flat(s.push(x)) == flat(s) + flat1(x),
{ assert(s.push(x).drop_last() =~= s); }
impl TagSpecs {
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagSpecs :: fn push
//@ sub self.0.contains(&Spec::AllNonTagDirectiveLines) ==> vx_has_all(&self.0)
//@ sub self.0.last() == Some(&Spec::NoLines) ==> vx_last_none(&self.0)
//@ sub if prev == tag => ==> if vx_same(&prev, &tag) =>
//@ sub self.0 = vec![Spec::AllNonTagDirectiveLines] ==> { self.0 = vx_only_all(); }
//@ sub prev.map(|prev| self.0.push(prev)); ==> if let Some(vx_prev) = prev { self.0.push(vx_prev); }
//@ spec
ensures
    spec is AllNonTagDirectiveLines ==> flat(final(self).0@) =~= seq![rl(all(), true)],
    plain(old(self).0@) && !(spec is AllNonTagDirectiveLines) && !(old(self).0.len() > 0 && old(self).0@.last() is AllUntaggedIncl && spec is AllLinesExcl && spec->AllLinesExcl_0@ == old(self).0@.last()->AllUntaggedIncl_0@)
        ==> flat(final(self).0@) =~= flat(old(self).0@) + flat1(spec),
    plain(old(self).0@) && plain1(spec) ==> plain(final(self).0@),
//@ body
let ghost s0 = self.0@;
proof {
    if s0.len() > 0 { assert(s0.drop_last().push(s0.last()) =~= s0); lemma_flat_push(s0.drop_last(), s0.last()); }
    assert forall|a: Seq<Spec>, b: Spec| flat(#[trigger] a.push(b)) == flat(a) + flat1(b) by { lemma_flat_push(a, b); }
    assert(flat(Seq::<Spec>::empty()) =~= Seq::<Rule>::empty());
    if s0.len() > 0 && plain(s0) { assert forall|i: int| 0 <= i < s0.len() - 1 implies plain1(#[trigger] s0.drop_last()[i]) by { assert(plain1(s0[i])); } assert(plain1(s0[s0.len() - 1])); }
}
//@ tail
proof {
    if self.0.len() == 1 { assert(self.0@ =~= Seq::<Spec>::empty().push(self.0@[0])); }
}
//@end
}

/// what one entry of the list says
spec fn rule_of(p: Seq<char>) -> Option<Rule> {
    let t = trim_spec(p);
    if t.len() == 0 { None } else {
        let n = if t[0] == '!' { t.skip(1) } else { t };
        if n.len() == 0 || has_space(n) { None } else { Some(rl(n, t[0] != '!')) }
    }
}
//@extract parser/src/tasks/directives/includes/tags.rs :: - :: fn parse_spec
//@ sub s.trim() ==> vx_trim(s)
//@ sub part.strip_prefix('!') ==> vx_strip_bang(part)
//@ sub !tag.is_empty() ==> !vx_is_empty(tag)
//@ sub tag.contains(char::is_whitespace) ==> vx_has_space(tag)
//@ sub tag.to_string() ==> vx_string(tag)
//@ body
proof { axiom_no_space(star()); axiom_no_space(all()); reveal_strlit("*"); reveal_strlit("**"); reveal_strlit("!*"); reveal_strlit("!**"); reveal_strlit(""); assert("!*"@.skip(1) =~= "*"@); assert("!**"@.skip(1) =~= "**"@);
    assert("!**"@.len() == 3 && "**"@.len() == 2 && "!*"@.len() == 2 && "*"@.len() == 1 && ""@.len() == 0);
    let t = trim_spec(s@); if t.len() == 3 && t[0] == '!' && t.skip(1) == "**"@ { assert(t.skip(1)[0] == t[1] && t.skip(1)[1] == t[2]); assert(t =~= "!**"@); }
    assert(t.len() == 0 ==> t =~= ""@); }
//@ spec
ensures match rule_of(s@) { Some(x) => r.is_some() && flat1(r.unwrap()) =~= seq![x] && (x.0 == all() <==> !plain1(r.unwrap())), None => r.is_none() },
//@end

spec fn rules_in(ps: Seq<Seq<char>>) -> Seq<Rule>
    decreases ps.len(),
{ if ps.len() == 0 { Seq::empty() } else { match rule_of(ps.last()) { Some(x) => rules_in(ps.drop_last()).push(x), None => rules_in(ps.drop_last()) } } }
/// every tag once, and nothing about `**`
spec fn clean(r: Seq<Rule>) -> bool { distinct(r) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 != all() }
proof fn lemma_clean(p: Seq<Rule>, x: Rule)
    requires clean(p.push(x)),
    ensures clean(p), x.0 != all(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 != x.0,
{
    let q = p.push(x);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 != all() && p[i].0 != x.0 by { assert(q[i].0 != all()); assert(q[i].0 != q[p.len() as int].0); }
    assert(q[p.len() as int].0 != all());
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by { assert(q[i].0 != q[j].0); }
}
proof fn lemma_flat_last(s: Seq<Spec>)
    requires s.len() > 0,
    ensures flat(s).len() > 0, flat(s).last() == flat1(s.last()).last(),
{ assert(flat1(s.last()).len() > 0); }
//@extract parser/src/tasks/directives/includes/tags.rs :: - :: fn parse_selection
//@ sub s.trim().split([',', ';']).filter_map(parse_spec).for_each(|spec| { ==> for vx_part in vx_split2(vx_trim(s), [',', ';']) { let vx_p: &str = vx_part; if let Some(spec) = parse_spec(vx_p) {
//@ sub selection.push(spec); }); ==> selection.push(spec); } }
//@ for 0 array
//@ spec
ensures clean(rules_in(parts(trim_spec(s@)))) ==> flat(r.0@) == rules_in(parts(trim_spec(s@))),
//@ loop 0
invariant vx_s0.len() == parts(trim_spec(s@)).len(), vx_i0 <= vx_s0.len(), forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i])@ == parts(trim_spec(s@))[i],
    clean(rules_in(parts(trim_spec(s@)).take(vx_i0 as int))) ==> plain(selection.0@) && flat(selection.0@) == rules_in(parts(trim_spec(s@)).take(vx_i0 as int)),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
proof {
    let ps = parts(trim_spec(s@)); let k = vx_i0 as int; assert(ps.take(k + 1).drop_last() =~= ps.take(k)); assert(ps.take(k + 1).last() == ps[k]);
    if let Some(x) = rule_of(ps[k]) {
        let p = rules_in(ps.take(k));
        if clean(p.push(x)) {
            lemma_clean(p, x);
            if selection.0.len() > 0 { lemma_flat_last(selection.0@); }
        }
        assert forall|y: Spec| flat1(y) =~= seq![x] implies flat(selection.0@) + #[trigger] flat1(y) =~= flat(selection.0@).push(x) && (y is AllLinesExcl ==> y->AllLinesExcl_0@ == x.0) && (y is AllNonTagDirectiveLines ==> x.0 == all()) by { assert(flat1(y)[0] == x); }
    }
}
//@ tail
proof { assert(parts(trim_spec(s@)).take(parts(trim_spec(s@)).len() as int) =~= parts(trim_spec(s@))); }
//@end

// the rules of Asciidoctor (PreprocessorReader#preprocess_include_directive)
spec fn without(r: Seq<Rule>, t: Seq<char>) -> Seq<Rule> { match at(r, t) { Some(i) => r.remove(i), None => r } }
spec fn any_tag(r: Seq<Rule>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).1 }
/// are lines outside of all regions taken
spec fn base_of(r: Seq<Rule>) -> bool {
    match (val(r, all()), val(r, star())) {
        (Some(a), _) => a,
        (None, Some(w)) => r[0].0 == star() && !w,
        (None, None) => !any_tag(r),
    }
}
/// regions no rule names
spec fn wild_of(r: Seq<Rule>) -> Option<bool> {
    let q = without(r, all());
    if val(r, star()).is_some() { val(r, star()) }
    else if val(r, all()) == Some(false) && q.len() > 0 && !q[0].1 { Some(true) }
    else { None }
}
spec fn rule_for(r: Seq<Rule>, t: Seq<char>) -> Option<bool> { if t == all() || t == star() { None } else { val(r, t) } }
pub type St = Seq<(Seq<char>, bool)>;
spec fn entered(r: Seq<Rule>, t: Seq<char>, st: St) -> Option<bool> {
    if rule_for(r, t).is_some() { rule_for(r, t) }
    else if wild_of(r).is_some() && st.len() > 0 && !st.last().1 { Some(false) }
    else { wild_of(r) }
}
spec fn last_of(st: St, t: Seq<char>) -> Option<int>
    decreases st.len(),
{ if st.len() == 0 { None } else if st.last().0 == t { Some(st.len() - 1) } else { last_of(st.drop_last(), t) } }
spec fn left(r: Seq<Rule>, t: Seq<char>, st: St) -> St {
    if st.len() > 0 && st.last().0 == t { st.drop_last() }
    else if rule_for(r, t).is_some() && last_of(st, t).is_some() { st.remove(last_of(st, t).unwrap()) }
    else { st }
}
proof fn lemma_without(r: Seq<Rule>, k: Seq<char>)
    requires distinct(r),
    ensures distinct(without(r, k)), forall|t: Seq<char>| #[trigger] val(without(r, k), t) == (if t == k { None } else { val(r, t) }),
{
    lemma_at(r, k);
    let q = without(r, k);
    if let Some(i) = at(r, k) {
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies (#[trigger] q[a]).0 != (#[trigger] q[b]).0 by { let x = if a < i { a } else { a + 1 }; let y = if b < i { b } else { b + 1 }; assert(q[a] == r[x] && q[b] == r[y]); assert(r[x].0 != r[y].0); }
        assert forall|t: Seq<char>| #[trigger] val(q, t) == (if t == k { None } else { val(r, t) }) by {
            lemma_at(r, t); lemma_at(q, t);
            if t == k { if let Some(a) = at(q, t) { let x = if a < i { a } else { a + 1 }; assert(q[a] == r[x]); if x < i { assert(r[x].0 != r[i].0); } else { assert(r[i].0 != r[x].0); } } }
            else { match at(r, t) { Some(x) => { let a = if x < i { x } else { x - 1 }; assert(q[a] == r[x]); lemma_at_is(q, t, a); } None => { if let Some(a) = at(q, t) { let x = if a < i { a } else { a + 1 }; assert(q[a] == r[x]); assert(r[x].0 != t); } } } }
        }
    }
}
fn vx_take_rule(r: &mut Vec<(&str, bool)>, i: usize) -> (b: bool)
    requires i < old(r).len(),
    ensures b == seen(old(r)@)[i as int].1, seen(final(r)@) == seen(old(r)@).remove(i as int),
{ let ghost r0 = r@; let x = r.remove(i); proof { assert(seen(r@) =~= seen(r0).remove(i as int)); } x.1 }
fn vx_first<'a>(r: &Vec<(&'a str, bool)>) -> (x: Option<(&'a str, bool)>)
    ensures match x { Some(p) => r.len() > 0 && rl(p.0@, p.1) == seen(r@)[0], None => r.len() == 0 },
{ if r.len() > 0 { Some(r[0]) } else { None } }
fn vx_any_tag(r: &Vec<(&str, bool)>) -> (x: bool)
    ensures x == any_tag(seen(r@)),
{
    let mut i: usize = 0;
    while i < r.len()
        invariant i <= r.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] seen(r@)[j]).1,
        decreases r.len() - i,
    { if r[i].1 { assert(seen(r@)[i as int].1); return true; } i = i + 1; }
    false
}
spec fn filter_ok(f: &TagFilter, r: Seq<Rule>) -> bool {
    &&& f.base == base_of(r)
    &&& f.wildcard == wild_of(r)
    &&& distinct(seen(f.rules@))
    &&& forall|t: Seq<char>| #[trigger] val(seen(f.rules@), t) == rule_for(r, t)
}
fn vx_last_region(v: &Vec<Region>) -> (r: Option<&Region>)
    ensures match r { Some(x) => v.len() > 0 && *x == v@.last(), None => v.len() == 0 },
{ if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
/// `iter().rposition(|region| region.tag == tag)`
fn vx_rposition(v: &Vec<Region>, t: &str) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v.len() && last_of(regions(v@), t@) == Some(i as int), None => last_of(regions(v@), t@).is_none() },
{
    let mut i = v.len();
    proof { assert(regions(v@).take(i as int) =~= regions(v@)); }
    while i > 0
        invariant i <= v.len(), last_of(regions(v@), t@) == last_of(regions(v@).take(i as int), t@),
        decreases i,
    {
        proof { assert(regions(v@).take(i as int).drop_last() =~= regions(v@).take(i - 1)); assert(regions(v@).take(i as int).last() == regions(v@)[i - 1]); }
        if vx_str_eq(v[i - 1].tag.as_str(), t) { return Some(i - 1); }
        i = i - 1;
    }
    None
}
spec fn regions(v: Seq<Region>) -> St { Seq::new(v.len(), |i: int| (v[i].tag@, v[i].select)) }
proof fn lemma_regions(v: Seq<Region>)
    ensures v.len() > 0 ==> regions(v.drop_last()) =~= regions(v).drop_last(),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] regions(v.remove(i)) =~= regions(v).remove(i),
        forall|x: Region| #[trigger] regions(v.push(x)) =~= regions(v).push((x.tag@, x.select)),
        last_ok(regions(v)),
{ lemma_last_ok(regions(v)); }
spec fn last_ok(st: St) -> bool { forall|t: Seq<char>| match #[trigger] last_of(st, t) { Some(i) => 0 <= i < st.len(), None => true } }
proof fn lemma_last_ok(st: St)
    ensures last_ok(st),
    decreases st.len(),
{ if st.len() > 0 { lemma_last_ok(st.drop_last()); assert forall|t: Seq<char>| match #[trigger] last_of(st, t) { Some(i) => 0 <= i < st.len(), None => true } by { let _ = last_of(st.drop_last(), t); } } }
impl TagStack {
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagStack :: fn new
//@ spec
ensures regions(r.0@) =~= Seq::<(Seq<char>, bool)>::empty(),
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagStack :: fn push
//@ body
proof { lemma_regions(self.0@); }
//@ spec
ensures regions(final(self).0@) =~= regions(old(self).0@).push((tag@, select)),
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagStack :: fn pop
//@ body
proof { lemma_regions(self.0@); }
//@ spec
ensures regions(final(self).0@) =~= (if old(self).0.len() > 0 { regions(old(self).0@).drop_last() } else { regions(old(self).0@) }),
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagStack :: fn remove
//@ sub self.0.iter().rposition(|region| region.tag == tag) ==> vx_rposition(&self.0, tag)
//@ body
proof { lemma_regions(self.0@); }
//@ spec
ensures regions(final(self).0@) =~= (match last_of(regions(old(self).0@), tag@) { Some(i) => regions(old(self).0@).remove(i), None => regions(old(self).0@) }),
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagStack :: fn last_is
//@ sub self.0.last() ==> vx_last_region(&self.0)
//@ sub region.tag == tag ==> vx_str_eq(region.tag.as_str(), tag)
//@ optchain
//@ spec
ensures r == (self.0.len() > 0 && regions(self.0@).last().0 == tag@),
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagStack :: fn last
//@ sub self.0.last() ==> vx_last_region(&self.0)
//@ spec
ensures match r { Some(x) => self.0.len() > 0 && (x.tag@, x.select) == regions(self.0@).last(), None => self.0.len() == 0 },
//@end
}
impl<'a> TagFilter<'a> {
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagFilter :: fn new
//@ sub rules.iter().position(|rule| rule.0 == "**") ==> vx_at(&rules, "**")
//@ sub rules.iter().position(|rule| rule.0 == "*") ==> vx_at(&rules, "*")
//@ sub rules.remove(idx).1 ==> vx_take_rule(&mut rules, idx)
//@ sub rules.first() ==> vx_first(&rules)
//@ sub rules.iter().any(|rule| rule.1) ==> vx_any_tag(&rules)
//@ sub rule.0 == "*" ==> vx_str_eq(rule.0, "*")
//@ optchain
//@ body
let ghost r0 = seen(rules@); 
proof { reveal_strlit("*"); reveal_strlit("**"); assert("*"@.len() == 1 && "**"@.len() == 2); lemma_without(r0, all()); lemma_without(without(r0, all()), star()); lemma_at(r0, all()); lemma_at(r0, star()); lemma_at(without(r0, all()), star()); }
//@ spec
requires distinct(seen(rules@)),
ensures filter_ok(&r, seen(rules@)),
//@ before TagFilter {
proof {
    let q = without(r0, "**"@);
    assert(all == val(r0, "**"@));
    assert(val(q, "*"@) == val(r0, "*"@));
    assert(seen(rules@) == without(q, "*"@));
    assert(base == base_of(r0));
    assert(wildcard == wild_of(r0));
}
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagFilter :: fn rule
//@ sub self.rules.iter().find(|rule| rule.0 == tag) ==> vx_at(&self.rules, tag)
//@ sub rule.1 ==> self.rules[rule].1
//@ optchain
//@ body
proof { lemma_at(seen(self.rules@), tag@); }
//@ spec
requires distinct(seen(self.rules@)),
ensures r == val(seen(self.rules@), tag@),
//@end
//@extract parser/src/tasks/directives/includes/tags.rs :: impl TagFilter :: fn enter
//@ optchain
//@ spec
requires distinct(seen(self.rules@)),
ensures forall|g: Seq<Rule>| #[trigger] filter_ok(self, g) ==> r == entered(g, tag@, regions(stack.0@)),
//@end
}

/// a line `… tag::name[] …` or `… end::name[] …` (regular expression; trusted)
pub uninterp spec fn directive(l: Seq<u8>) -> Option<(bool, Seq<char>)>;
#[verifier::external_body]
fn vx_directive(l: &[u8]) -> (r: Option<TagDirective>)
    ensures match r { Some(TagDirective::End(t)) => directive(l@) == Some((true, t@)), Some(TagDirective::Start(t)) => directive(l@) == Some((false, t@)), None => directive(l@).is_none() },
{ unimplemented!() }
pub struct Taken { pub st: St, pub out: Seq<u8>, pub any: bool }
spec fn gap() -> Seq<u8> { marker().push(10u8) }
spec fn take_line(r: Seq<Rule>, s: Taken, l: Seq<u8>) -> Taken {
    match directive(l) {
        Some((true, t)) => Taken { st: left(r, t, s.st), out: s.out + gap(), any: s.any },
        Some((false, t)) => Taken { st: match entered(r, t, s.st) { Some(x) => s.st.push((t, x)), None => s.st }, out: s.out + gap(), any: s.any },
        None => if if s.st.len() > 0 { s.st.last().1 } else { base_of(r) } { Taken { st: s.st, out: s.out + l.push(10u8), any: true } } else { s },
    }
}
spec fn take_lines(r: Seq<Rule>, ls: Seq<Seq<u8>>) -> Taken
    decreases ls.len(),
{ if ls.len() == 0 { Taken { st: Seq::empty(), out: Seq::empty(), any: false } } else { take_line(r, take_lines(r, ls.drop_last()), ls.last()) } }
spec fn tagged(r: Seq<Rule>, src: Seq<u8>) -> Seq<u8> { let t = take_lines(r, lines_of(src)); if t.any { t.out } else { Seq::empty() } }
#[verifier::external_body]
pub struct VxTags { x: u8 }
impl VxTags {
    #[verifier::external_body]
    fn remove(&mut self, t: &String) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, t: &String) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl TagSpecs {
    #[verifier::external_body]
    fn expected_tags(&self) -> (r: VxTags) { unimplemented!() }
}
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Path) { unimplemented!() } }
#[verifier::external_body]
fn vx_nth_line(s: &Vec<u8>, n: usize) -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_find(s: &String, t: &String) -> (r: Option<usize>) { unimplemented!() }
impl Parser {
    #[verifier::external_body]
    fn vx_err(&self) -> (r: Result<()>) { unimplemented!() }
//@extract parser/src/tasks/directives/includes/tags.rs :: impl Parser :: fn _select_tagged_lines
//@ sub let lines = source_lines(src); ==> let lines = vx_enum(vx_source_lines(src));
//@ sub for (idx, line) in lines.enumerate() { ==> for vx_il in lines { let (idx, line) = vx_il;
//@ sub tag_directive(line) ==> vx_directive(line)
//@ sub filter.enter(&tag, &tag_stack) ==> filter.enter(tag.as_str(), &tag_stack)
//@ sub tag_stack.last_is(&tag) ==> tag_stack.last_is(tag.as_str())
//@ sub tag_stack.remove(&tag) ==> tag_stack.remove(tag.as_str())
//@ sub filter.rule(&tag) ==> filter.rule(tag.as_str())
//@ sub self.err(Diagnostic { $x })? ==> self.vx_err()?
//@ sub self.err_at($x)? ==> self.vx_err()?
//@ sub nth_line(src, $x).unwrap().to_string() ==> vx_nth_line(src, $x)
//@ sub line.find(&tag) ==> vx_find(&line, &tag)
//@ sub line.find(tag) ==> vx_find(&line, tag)
//@ sub let mut tags = expected_tags.into_iter().collect::<Vec<_>>(); ==>
//@ sub tags.sort_unstable(); ==>
//@ sub std::mem::swap(src, &mut dest) ==> vx_swap(src, &mut dest)
//@ optchain
//@ for 0 array
//@ spec
ensures r.is_ok() ==> final(src)@ == tagged(dedupe(flat(selection.0@)), old(src)@),
//@ loop 0
invariant vx_s0.len() == lines_of(src@).len(), vx_i0 <= vx_s0.len(), vx_s0.len() < usize::MAX, *src == *old(src),
    forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i]).0 == i && vx_s0@[i].1@ == lines_of(src@)[i],
    filter_ok(&filter, dedupe(flat(selection.0@))),
    (Taken { st: regions(tag_stack.0@), out: dest@, any: selected_any_line }) == take_lines(dedupe(flat(selection.0@)), lines_of(src@).take(vx_i0 as int)),
decreases vx_s0.len() - vx_i0,
//@ loopbody 0
let ghost s0 = Taken { st: regions(tag_stack.0@), out: dest@, any: selected_any_line };
proof { let ls = lines_of(src@); let k = vx_i0 as int; assert(ls.take(k + 1).drop_last() =~= ls.take(k)); assert(ls.take(k + 1).last() == ls[k]);
    assert((dest@ + ls[k]).push(10u8) =~= dest@ + ls[k].push(10u8)); assert(marker().push(10u8) =~= gap()); }
//@ before if tag_stack.last_is(
proof { assert(directive(line@) == Some((true, tag@))); assert(dest@ =~= s0.out + gap()); }
//@ before if let Some(select) = filter.enter(
proof { assert(directive(line@) == Some((false, tag@))); assert(dest@ =~= s0.out + gap()); assert(line@ == lines_of(src@)[vx_i0 - 1]); }
//@ after tag_stack.push(tag, idx, select);
proof { assert(entered(dedupe(flat(selection.0@)), tg, s0.st) == Some(select)); assert(regions(tag_stack.0@) == s0.st.push((tg, select))); assert((Taken { st: regions(tag_stack.0@), out: dest@, any: selected_any_line }) == take_line(dedupe(flat(selection.0@)), s0, line@)); }
//@ after expected_tags.remove(&tag);
let ghost tg = tag@;
//@ body
proof { lemma_dedupe(flat(selection.0@)); }
//@ tail
proof { assert(lines_of(old(src)@).take(lines_of(old(src)@).len() as int) =~= lines_of(old(src)@)); }
//@end
}

/// the rules the attributes `tag` and `tags` state, where they name every tag once and don't use `**`
spec fn stated(a: &AttrList) -> Option<Seq<Rule>> {
    match a.v("tag"@) {
        Some(t) if t.len() > 0 && rule_of(t).is_some() => Some(seq![rule_of(t).unwrap()]),
        _ => match a.v("tags"@) { Some(t) if t.len() > 0 => Some(rules_in(parts(trim_spec(t)))), _ => None },
    }
}
spec fn by_tag(a: &AttrList, src: Seq<u8>) -> Seq<u8> { match stated(a) { Some(r) => if r.len() > 0 { tagged(r, src) } else { src }, None => src } }
spec fn selection_of(a: &AttrList, src: Seq<u8>) -> Seq<u8> { match a.v("lines"@) { Some(l) => ranged(src, l), None => by_tag(a, src) } }
spec fn clear(a: &AttrList) -> bool { match a.v("tags"@) { Some(t) => clean(rules_in(parts(trim_spec(t)))), None => true } }
proof fn lemma_dedupe_same(r: Seq<Rule>)
    requires distinct(r),
    ensures dedupe(r) == r,
    decreases r.len(),
{
    if r.len() > 0 {
        let p = r.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by { assert(r[i].0 != r[j].0); }
        lemma_dedupe_same(p); lemma_at(p, r.last().0);
        if let Some(i) = at(p, r.last().0) { assert(p[i] == r[i]); assert(r[i].0 != r[r.len() - 1].0); }
        assert(p.push(r.last()) =~= r);
    }
}
proof fn lemma_flat_one(s: Spec)
    ensures flat(seq![s]) == flat1(s),
{ assert(seq![s].drop_last() =~= Seq::<Spec>::empty()); assert(flat(seq![s].drop_last()) =~= Seq::<Rule>::empty()); assert(flat(seq![s]) =~= flat1(s)); }
fn vx_one(s: Spec) -> (r: Vec<Spec>) ensures r@ == seq![s], { let mut v = Vec::new(); v.push(s); v }
impl Parser {
//@extract parser/src/tasks/directives/includes/tags.rs :: impl Parser :: fn select_tagged_lines
//@ sub attr_list.named_with_loc("tag").filter(|(tag, _)| !tag.is_empty()) ==> attr_list.vx_nonempty("tag")
//@ sub attr_list.named_with_loc("tags").filter(|(tags, _)| !tags.is_empty()) ==> attr_list.vx_nonempty("tags")
//@ sub vec![selection] ==> vx_one(selection)
//@ sub selection.0.is_empty() ==> selection.0.len() == 0
//@ optchain and_then,map
//@ spec
ensures clear(attr_list) && r.is_ok() ==> final(src)@ == by_tag(attr_list, old(src)@),
//@ body
proof {
    assert forall|s: Spec| #[trigger] flat(seq![s]) == flat1(s) by { lemma_flat_one(s); }
    assert forall|r: Seq<Rule>| distinct(r) implies #[trigger] dedupe(r) == r by { lemma_dedupe_same(r); }
    assert forall|s: Seq<Spec>| s.len() > 0 implies (#[trigger] flat(s)).len() > 0 by { lemma_flat_last(s); }
    assert(forall|x: Rule| #[trigger] distinct(seq![x]));
}
//@end
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: impl Parser :: fn select_lines
//@ spec
ensures clear(include_attrs) && r.is_ok() ==> final(bytes)@ == selection_of(include_attrs, old(bytes)@),
//@end
}

// ---- encodings ----
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
/// UTF-16 as UTF-8, if it is valid
pub uninterp spec fn of_utf16(u: Seq<u16>) -> Option<Seq<u8>>;
spec fn padded(s: Seq<u8>) -> Seq<u8> { if s.len() % 2 == 0 { s } else { s.push(0u8) } }
spec fn units(s: Seq<u8>, le: bool) -> Seq<u16> {
    Seq::new(s.len() / 2, |i: int| if le { (s[2 * i] + 256 * s[2 * i + 1]) as u16 } else { (256 * s[2 * i] + s[2 * i + 1]) as u16 })
}
pub uninterp spec fn wants_utf16(e: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_wants_utf16(e: Option<&str>) -> (r: bool) ensures r == (e.is_some() && wants_utf16(e.unwrap()@)), { unimplemented!() }
#[verifier::external_body]
fn vx_utf8(s: &Vec<u8>) -> (r: bool) ensures r == utf8(s@), { unimplemented!() }
fn vx_u16_le(a: [u8; 2]) -> (r: u16) ensures r == a@[0] + 256 * a@[1], { a[0] as u16 + 256 * (a[1] as u16) }
fn vx_u16_be(a: [u8; 2]) -> (r: u16) ensures r == 256 * a@[0] + a@[1], { 256 * (a[0] as u16) + a[1] as u16 }
/// `bytes.chunks_exact(2)`
fn vx_pairs(s: &Vec<u8>) -> (r: Vec<[u8; 2]>)
    ensures r.len() == s.len() / 2, forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i])@[0] == s@[2 * i] && r@[i]@[1] == s@[2 * i + 1],
{
    let mut r: Vec<[u8; 2]> = Vec::new();
    let mut i: usize = 0;
    while i < s.len() / 2
        invariant i <= s.len() / 2, r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@[0] == s@[2 * j] && r@[j]@[1] == s@[2 * j + 1],
        decreases s.len() / 2 - i,
    { r.push([s[2 * i], s[2 * i + 1]]); i = i + 1; }
    r
}
fn vx_collect_le(p: Vec<[u8; 2]>) -> (r: Vec<u16>) ensures r.len() == p.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == p@[i]@[0] + 256 * p@[i]@[1],
{ let mut r: Vec<u16> = Vec::new(); let mut i: usize = 0; while i < p.len() invariant i <= p.len(), r.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == p@[j]@[0] + 256 * p@[j]@[1], decreases p.len() - i, { r.push(vx_u16_le(p[i])); i = i + 1; } r }
fn vx_collect_be(p: Vec<[u8; 2]>) -> (r: Vec<u16>) ensures r.len() == p.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r@[i] == 256 * p@[i]@[0] + p@[i]@[1],
{ let mut r: Vec<u16> = Vec::new(); let mut i: usize = 0; while i < p.len() invariant i <= p.len(), r.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == 256 * p@[j]@[0] + p@[j]@[1], decreases p.len() - i, { r.push(vx_u16_be(p[i])); i = i + 1; } r }
#[verifier::external_body]
fn vx_drop(s: &mut Vec<u8>, n: usize)
    requires n <= old(s).len(),
    ensures final(s)@ == old(s)@.skip(n as int),
{ s.drain(0..n); }
fn vx_head<const N: usize>(s: &Vec<u8>, h: [u8; N]) -> (r: bool)
    requires N <= s.len(),
    ensures r == (s@.take(N as int) =~= h@),
{
    let mut i: usize = 0;
    while i < N
        invariant i <= N <= s.len(), s@.take(i as int) =~= h@.take(i as int),
        decreases N - i,
    {
        if s[i] != h[i] { assert(s@.take(N as int)[i as int] != h@[i as int]); return false; }
        assert(s@.take(i + 1) =~= s@.take(i as int).push(s@[i as int])); assert(h@.take(i + 1) =~= h@.take(i as int).push(h@[i as int]));
        i = i + 1;
    }
    assert(h@.take(N as int) =~= h@);
    true
}
#[verifier::external_body]
fn from_utf16_in(u: Vec<u16>, dest: &mut Vec<u8>, bump: VxBump) -> (r: bool)
    ensures r == of_utf16(u@).is_some(), r ==> Some(final(dest)@) == of_utf16(u@) && utf8(final(dest)@),
{ unimplemented!() }
//@gsub bytes.drain(0..2) ==> vx_drop(bytes, 2)
//@gsub bytes.drain(0..3) ==> vx_drop(bytes, 3)
//@gsub !bytes.len().is_multiple_of(2) ==> bytes.len() % 2 != 0
spec fn decoded(e: Option<Seq<char>>, s: Seq<u8>) -> Option<Seq<u8>> {
    if s.len() >= 2 && s[0] == 0xFF && s[1] == 0xFE { of_utf16(units(padded(s.skip(2)), true)) }
    else if s.len() >= 2 && s[0] == 0xFE && s[1] == 0xFF { of_utf16(units(padded(s.skip(2)), false)) }
    else if e.is_some() && wants_utf16(e.unwrap()) { of_utf16(units(padded(s), true)) }
    else { let t = if s.len() >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF { s.skip(3) } else { s }; if utf8(t) { Some(t) } else { None } }
}
impl Parser {
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: impl Parser :: fn convert_utf16_le
//@ sub bytes.chunks_exact(2).map(|chunk| u16::from_le_bytes([chunk[0], chunk[1]])).collect_in(self.bump) ==> vx_collect_le(vx_pairs(bytes))
//@ sub utf16: BumpVec<u16> ==> utf16: Vec<u16>
//@ spec
ensures r.is_ok() == of_utf16(units(padded(old(bytes)@), true)).is_some(), r.is_ok() ==> Some(final(bytes)@) == of_utf16(units(padded(old(bytes)@), true)) && utf8(final(bytes)@),
//@ before if from_utf16_in(
proof { assert(utf16@ =~= units(padded(old(bytes)@), true)); }
//@end
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: impl Parser :: fn normalize_encoding
//@ sub bytes.chunks_exact(2).map(|chunk| u16::from_be_bytes([chunk[0], chunk[1]])).collect_in::<BumpVec<_>>(self.bump) ==> vx_collect_be(vx_pairs(bytes))
//@ sub bytes[0..2] == [$x] ==> vx_head(bytes, [$x])
//@ sub bytes[0..3] == [$x] ==> vx_head(bytes, [$x])
//@ sub if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding ==> if vx_wants_utf16(encoding)
//@ sub std::str::from_utf8(bytes).is_err() ==> !vx_utf8(bytes)
//@ spec
ensures
    r.is_ok() == decoded(match encoding { Some(e) => Some(e@), None => None }, old(bytes)@).is_some(),
    r.is_ok() ==> Some(final(bytes)@) == decoded(match encoding { Some(e) => Some(e@), None => None }, old(bytes)@) && utf8(final(bytes)@),
//@ before if from_utf16_in(
proof { assert(utf16@ =~= units(padded(old(bytes)@.skip(2)), false)); }
//@end
//@extract parser/src/tasks/directives/includes/normalize_includes.rs :: impl Parser :: fn normalize_include_bytes
//@ spec
ensures r.is_ok() ==> ({
    let d = decoded(include_attrs.v("encoding"@), old(bytes)@).unwrap();
    decoded(include_attrs.v("encoding"@), old(bytes)@).is_some() && final(bytes)@ == (if is_asciidoc(*path) { cleaned(d, d.len() as int) } else { d })
}),
//@end
}
}
fn main() {}
