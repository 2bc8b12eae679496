//@include prelude.inc
use vstd::string::*;
verus! {
// unit: escaping of document text (backend/src/html/htmlbuf.rs) and the tag writer built on it (backend/src/html/open_tag.rs)
//@gsub self.htmlbuf() ==> &mut self.buf
//@gsub tag.htmlbuf() ==> &mut tag.buf
//@gsub & ast::InlineNodes<'_> ==> &VxNodes
//@gsub & impl AttrData ==> &VxAttrs
//@expect backend/src/html/open_tag.rs :: fn htmlbuf(&mut self) -> &mut String { &mut self.buf }
//@expect dr-html-backend/src/asciidoctor_html.rs :: fn htmlbuf(&mut self) -> &mut String { &mut self.html }
//@expect backend-html5s/src/html5s.rs :: fn htmlbuf(&mut self) -> &mut String { &mut self.html }
//@expect backend/src/html/htmlbuf.rs :: r"^&#(?:[0-9]+|x[0-9a-fA-F]+);"

// ---- trusted: std strings are sequences of characters; the one pattern is the reference grammar below ----
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<(usize, char)>)
    ensures r.len() == s@.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r@[i]).1 == s@[i] && (r@[i].0 as int) == byte_at(s@, i),
{ s.char_indices().collect() }
/// the byte offset of a character
pub uninterp spec fn byte_at(s: Seq<char>, i: int) -> int;
/// `NUMERIC_CHAR_REF.is_match(&s[pos..])`
#[verifier::external_body]
fn vx_is_ref(s: &str, pos: usize) -> (r: bool)
    ensures forall|i: int| 0 <= i < s@.len() && byte_at(s@, i) == pos ==> r == ref_at(s@, i),
{ unimplemented!() }
#[verifier::external_body]
fn vx_push(d: &mut String, c: char) ensures final(d)@ == old(d)@.push(c), { d.push(c) }
#[verifier::external_body]
fn vx_push_str(d: &mut String, s: &str) ensures final(d)@ == old(d)@ + s@, { d.push_str(s) }
#[verifier::external_body]
fn vx_string(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty(), { String::with_capacity(n) }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@, { s.to_string() }
pub uninterp spec fn spec_replace(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vx_replace(s: &str, c: char, t: &str) -> (r: String) ensures r@ == spec_replace(s@, c, t@), { s.replace(c, t) }
#[verifier::external_body]
fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }

// ---- specification: what an HTML tokenizer makes of the output ----
/// text, inside a tag, inside a double-quoted value, each also within a character reference; or broken
#[derive(PartialEq, Eq)]
pub enum Q { Text, TRef, Tag, Val, VRef, Bad }
spec fn alnum(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
spec fn step(q: Q, c: char) -> Q {
    match q {
        Q::Text => if c == '<' { Q::Tag } else if c == '>' { Q::Bad } else if c == '&' { Q::TRef } else { Q::Text },
        Q::TRef => if c == ';' { Q::Text } else if alnum(c) || c == '#' { Q::TRef } else { Q::Bad },
        Q::Tag => if c == '>' { Q::Text } else if c == '"' { Q::Val } else if c == '<' { Q::Bad } else { Q::Tag },
        Q::Val => if c == '"' { Q::Tag } else if c == '<' || c == '>' { Q::Bad } else if c == '&' { Q::VRef } else { Q::Val },
        Q::VRef => if c == ';' { Q::Val } else if alnum(c) || c == '#' { Q::VRef } else { Q::Bad },
        Q::Bad => Q::Bad,
    }
}
spec fn run(q: Q, s: Seq<char>) -> Q
    decreases s.len(),
{ if s.len() == 0 { q } else { step(run(q, s.drop_last()), s.last()) } }
proof fn lemma_run_concat(q: Q, a: Seq<char>, b: Seq<char>)
    ensures run(q, a + b) == run(run(q, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_run_concat(q, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
proof fn lemma_run_push(q: Q, a: Seq<char>, c: char)
    ensures run(q, a.push(c)) == step(run(q, a), c),
{ assert(a.push(c).drop_last() =~= a); }

/// a word the processor writes itself: nothing a tokenizer cares about
spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]) }
spec fn special(c: char) -> bool { c == '<' || c == '>' || c == '&' || c == '"' }
proof fn lemma_plain(q: Q, s: Seq<char>)
    requires plain(s), q == Q::Text || q == Q::Tag || q == Q::Val,
    ensures run(q, s) == q,
    decreases s.len(),
{ if s.len() > 0 { assert(forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.drop_last()[i] == s[i]); assert(plain(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies !special(#[trigger] s.drop_last()[i]) by { assert(!special(s[i])); } } lemma_plain(q, s.drop_last()); assert(!special(s[s.len() - 1])); } }

/// a numeric character reference of length `l` at `i`: `&#123;` or `&#x1F;`
spec fn is_ref(s: Seq<char>, i: int, l: int) -> bool {
    &&& 0 <= i && i + l <= s.len() && l >= 4 && s[i] == '&' && s[i + 1] == '#' && s[i + l - 1] == ';'
    &&& (forall|k: int| i + 2 <= k < i + l - 1 ==> '0' <= #[trigger] s[k] <= '9')
        || (l >= 5 && s[i + 2] == 'x' && forall|k: int| i + 3 <= k < i + l - 1 ==> hex(#[trigger] s[k]))
}
spec fn hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
spec fn ref_at(s: Seq<char>, i: int) -> bool { exists|l: int| #[trigger] is_ref(s, i, l) }
/// what one character of document text turns into
spec fn image(s: Seq<char>, i: int, q: Quotes) -> Seq<char> {
    let c = s[i];
    if c == '&' { if ref_at(s, i) { seq!['&'] } else { "&amp;"@ } }
    else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ }
    else if c == '"' && q != Quotes::Keep { "&quot;"@ }
    else if c == '\'' && q == Quotes::Typographic { "&#8217;"@ }
    else { seq![c] }
}
spec fn esc(s: Seq<char>, n: int, q: Quotes) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { esc(s, n - 1, q) + image(s, n - 1, q) } }
/// between the `&` and the `;` of a reference that stays one
spec fn in_ref(s: Seq<char>, n: int) -> bool { exists|p: int, l: int| #[trigger] is_ref(s, p, l) && p < n < p + l }
spec fn referring(q: Q) -> Q { if q == Q::Text { Q::TRef } else { Q::VRef } }
proof fn vx_four(s: Seq<char>) requires s.len() == 4, ensures forall|q: Q| #[trigger] run(q, s) == step(step(step(step(q, s[0]), s[1]), s[2]), s[3])
{ assert forall|q: Q| #[trigger] run(q, s) == step(step(step(step(q, s[0]), s[1]), s[2]), s[3]) by { reveal_with_fuel(run, 5); } }
proof fn vx_five(s: Seq<char>) requires s.len() == 5, ensures forall|q: Q| #[trigger] run(q, s) == step(step(step(step(step(q, s[0]), s[1]), s[2]), s[3]), s[4])
{ assert forall|q: Q| #[trigger] run(q, s) == step(step(step(step(step(q, s[0]), s[1]), s[2]), s[3]), s[4]) by { reveal_with_fuel(run, 6); } }
proof fn vx_six(s: Seq<char>) requires s.len() == 6, ensures forall|q: Q| #[trigger] run(q, s) == step(step(step(step(step(step(q, s[0]), s[1]), s[2]), s[3]), s[4]), s[5])
{ assert forall|q: Q| #[trigger] run(q, s) == step(step(step(step(step(step(q, s[0]), s[1]), s[2]), s[3]), s[4]), s[5]) by { reveal_with_fuel(run, 7); } }
proof fn vx_seven(s: Seq<char>) requires s.len() == 7, ensures forall|q: Q| #[trigger] run(q, s) == step(step(step(step(step(step(step(q, s[0]), s[1]), s[2]), s[3]), s[4]), s[5]), s[6])
{ assert forall|q: Q| #[trigger] run(q, s) == step(step(step(step(step(step(step(q, s[0]), s[1]), s[2]), s[3]), s[4]), s[5]), s[6]) by { reveal_with_fuel(run, 8); } }
proof fn lemma_refs(q: Q)
    requires q == Q::Text || q == Q::Val,
    ensures run(q, "&amp;"@) == q, run(q, "&lt;"@) == q, run(q, "&gt;"@) == q, run(q, "&quot;"@) == q, run(q, "&#8217;"@) == q,
{
    reveal_strlit("&amp;"); assert("&amp;"@.len() == 5); vx_five("&amp;"@);
    reveal_strlit("&lt;"); assert("&lt;"@.len() == 4); vx_four("&lt;"@);
    reveal_strlit("&gt;"); assert("&gt;"@.len() == 4); vx_four("&gt;"@);
    reveal_strlit("&quot;"); assert("&quot;"@.len() == 6); vx_six("&quot;"@);
    reveal_strlit("&#8217;"); assert("&#8217;"@.len() == 7); vx_seven("&#8217;"@);
}
proof fn lemma_one(q: Q, c: char) ensures run(q, seq![c]) == step(q, c)
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(seq![c].last() == c); reveal_with_fuel(run, 2); }
/// state after the first `n` characters of escaped text
proof fn lemma_esc(s: Seq<char>, n: int, k: Quotes, q: Q)
    requires 0 <= n <= s.len(), q == Q::Text || (q == Q::Val && k != Quotes::Keep),
    ensures run(q, esc(s, n, k)) == (if in_ref(s, n) { referring(q) } else { q }),
    decreases n,
{
    if n == 0 {
        assert(!in_ref(s, 0)) by { if in_ref(s, 0) { let (p, l) = choose|p: int, l: int| #[trigger] is_ref(s, p, l) && p < 0 < p + l; assert(false); } }
    } else {
        let m = n - 1; let c = s[m];
        lemma_esc(s, m, k, q);
        lemma_run_concat(q, esc(s, m, k), image(s, m, k));
        lemma_refs(q);
        lemma_one(run(q, esc(s, m, k)), c);
        if in_ref(s, m) {
            let (p, l) = choose|p: int, l: int| #[trigger] is_ref(s, p, l) && p < m < p + l;
            assert(c == '#' || alnum(c) || c == ';');
            assert(c == ';' <==> m == p + l - 1);
            assert(image(s, m, k) == seq![c]);
            if m == p + l - 1 {
                if in_ref(s, n) {
                    let (p2, l2) = choose|p2: int, l2: int| #[trigger] is_ref(s, p2, l2) && p2 < n < p2 + l2;
                    lemma_same_ref(s, p, l, p2, l2, m);
                    assert(false);
                }
            } else { assert(is_ref(s, p, l) && p < n < p + l); }
        } else if c == '&' && ref_at(s, m) {
            let l = choose|l: int| #[trigger] is_ref(s, m, l);
            assert(is_ref(s, m, l) && m < n < m + l);
        } else {
            if in_ref(s, n) {
                let (p, l) = choose|p: int, l: int| #[trigger] is_ref(s, p, l) && p < n < p + l;
                if p == m { assert(ref_at(s, m)); assert(c == '&'); } else { assert(is_ref(s, p, l) && p < m < p + l); }
                assert(false);
            }
        }
    }
}
/// two references over the same character are the same
proof fn lemma_same_ref(s: Seq<char>, p: int, l: int, p2: int, l2: int, m: int)
    requires is_ref(s, p, l), is_ref(s, p2, l2), p < m < p + l, p2 <= m < p2 + l2,
    ensures p == p2, l == l2,
{
    if p2 < p { assert(s[p] == '&'); assert(false); }
    if p < p2 { assert(s[p2] == '&'); assert(false); }
    if l < l2 { assert(s[p + l - 1] == ';'); assert(false); }
    if l2 < l { assert(s[p + l2 - 1] == ';'); assert(false); }
}
proof fn lemma_not_in_ref_at_end(s: Seq<char>)
    ensures !in_ref(s, s.len() as int),
{ if in_ref(s, s.len() as int) { let n = s.len() as int; let (p, l) = choose|p: int, l: int| #[trigger] is_ref(s, p, l) && p < n < p + l; assert(false); } }
/// THEOREM: escaped document text opens and closes nothing, in text and (with its quotes escaped) in a value
proof fn theorem_esc(s: Seq<char>, k: Quotes)
    ensures
        run(Q::Text, esc(s, s.len() as int, k)) == Q::Text,
        k != Quotes::Keep ==> run(Q::Val, esc(s, s.len() as int, k)) == Q::Val,
{
    lemma_not_in_ref_at_end(s);
    lemma_esc(s, s.len() as int, k, Q::Text);
    if k != Quotes::Keep { lemma_esc(s, s.len() as int, k, Q::Val); }
}

// ---- the real escaper ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item backend/src/html/htmlbuf.rs :: - :: enum Quotes
//@end
//@extract backend/src/html/htmlbuf.rs :: - :: fn push_escaped
//@ sub src.char_indices() ==> vx_chars(src)
//@ sub NUMERIC_CHAR_REF.is_match(&src[pos..]) ==> vx_is_ref(src, pos)
//@ sub ?dest.push(c) ==> vx_push(dest, c)
//@ sub ?dest.push_str($x) ==> vx_push_str(dest, $x)
//@ for 0 array
//@ spec
    ensures final(dest)@ == old(dest)@ + esc(src@, src@.len() as int, quotes),
        run(Q::Text, old(dest)@) == Q::Text ==> run(Q::Text, final(dest)@) == Q::Text,
        quotes != Quotes::Keep && run(Q::Text, old(dest)@) == Q::Val ==> run(Q::Text, final(dest)@) == Q::Val,
//@ loop 0
    invariant vx_i0 <= vx_s0.len(), vx_s0.len() == src@.len(),
        forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0@[i]).1 == src@[i] && (vx_s0@[i].0 as int) == byte_at(src@, i),
        dest@ == old(dest)@ + esc(src@, vx_i0 as int, quotes),
    decreases vx_s0.len() - vx_i0,
//@ loopbody 0
    let ghost vx_d = dest@;
    let ghost vx_n = vx_i0 as int;
    proof { assert(vx_s0@[vx_n].1 == src@[vx_n]);
        reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#8217;");
        assert(forall|d: Seq<char>, c: char| #[trigger] d.push(c) =~= d + seq![c]);
        assert(forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c)); }
//@ tail
    proof { theorem_esc(src@, quotes); lemma_run_concat(Q::Text, old(dest)@, esc(src@, src@.len() as int, quotes)); }
//@end
//@extract backend/src/html/htmlbuf.rs :: - :: fn push_url_encoded
//@ sub s.replace(' ', "%20").replace(',', "%2C") ==> vx_replace(vx_replace(s, ' ', "%20").as_str(), ',', "%2C")
//@ spec
    ensures
        final(buf)@ == old(buf)@ + esc(spec_replace(spec_replace(s@, ' ', "%20"@), ',', "%2C"@), spec_replace(spec_replace(s@, ' ', "%20"@), ',', "%2C"@).len() as int, Quotes::Double),
        run(Q::Text, old(buf)@) == Q::Text ==> run(Q::Text, final(buf)@) == Q::Text,
        run(Q::Text, old(buf)@) == Q::Val ==> run(Q::Text, final(buf)@) == Q::Val,
//@end

// ---- trusted: attribute lists and inline nodes as the back ends see them; their texts are arbitrary ----
#[verifier::external_body]
pub struct VxNodes { x: u8 }
impl VxNodes {
    #[verifier::external_body]
    fn single_text(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn plain_text(&self) -> (r: &[&str]) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxNamed { x: u8 }
impl VxNamed {
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&VxNodes>) { unimplemented!() }
}
pub struct AttrList { pub named: VxNamed }
impl AttrList {
    #[verifier::external_body]
    fn named(&self, k: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn has_option(&self, k: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_named_or_pos(&self, k: &str, p: usize) -> (r: Option<&str>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxAttrs { x: u8 }
impl VxAttrs {
    #[verifier::external_body]
    fn id(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn roles(&self) -> (r: VxRoles) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxRoles { x: u8 }
impl VxRoles {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<String>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rest(&self) -> (r: &[String]) { unimplemented!() }
}
pub struct ChunkMeta { pub attrs: AttrList }
pub enum AttrValue { String(String), Bool(bool) }
#[verifier::external_body]
pub struct DocumentMeta { x: u8 }
impl DocumentMeta {
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&AttrValue>) { unimplemented!() }
}
/// a literal of the processor's own
proof fn lemma_lits() ensures
    plain("class"@), plain("style"@), plain("title"@), plain("bare"@), plain("ends"@),
{
    reveal_strlit("class"); reveal_strlit("style"); reveal_strlit("title"); reveal_strlit("bare"); reveal_strlit("ends");
}

// ---- the tag writer ----
//@item backend/src/html/open_tag.rs :: - :: struct OpenTag
//@end
proof fn lemma_cat() ensures forall|q: Q, a: Seq<char>, b: Seq<char>| #[trigger] run(q, a + b) == run(run(q, a), b), forall|q: Q, a: Seq<char>, c: char| #[trigger] run(q, a.push(c)) == step(run(q, a), c)
{
    assert forall|q: Q, a: Seq<char>, b: Seq<char>| #[trigger] run(q, a + b) == run(run(q, a), b) by { lemma_run_concat(q, a, b); }
    assert forall|q: Q, a: Seq<char>, c: char| #[trigger] run(q, a.push(c)) == step(run(q, a), c) by { lemma_run_push(q, a, c); }
}
proof fn lemma_open_lits() ensures
    run(Q::Tag, " class=\""@) == Q::Val, run(Q::Tag, " id=\""@) == Q::Val, run(Q::Tag, " "@) == Q::Tag, run(Q::Tag, "=\""@) == Q::Val,
    run(Q::Tag, " target=\""@) == Q::Val, run(Q::Val, "\" rel=\"noopener"@) == Q::Val, run(Q::Val, " nofollow\""@) == Q::Tag, run(Q::Tag, " rel=\"nofollow\""@) == Q::Tag,
    run(Q::Tag, " target=\"_blank\" rel=\"noopener\""@) == Q::Tag, run(Q::Text, "<"@) == Q::Tag, run(Q::Tag, ">"@) == Q::Text,
{
    reveal_strlit(" class=\""); reveal_strlit(" id=\""); reveal_strlit(" "); reveal_strlit("=\""); reveal_strlit(" target=\""); reveal_strlit("\" rel=\"noopener"); reveal_strlit(" nofollow\"");
    reveal_strlit(" rel=\"nofollow\""); reveal_strlit(" target=\"_blank\" rel=\"noopener\""); reveal_strlit("<"); reveal_strlit(">");
    lemma_unroll(Q::Tag, " class=\""@); lemma_unroll(Q::Tag, " id=\""@); lemma_unroll(Q::Tag, " "@); lemma_unroll(Q::Tag, "=\""@); lemma_unroll(Q::Tag, " target=\""@);
    lemma_unroll(Q::Val, "\" rel=\"noopener"@); lemma_unroll(Q::Val, " nofollow\""@); lemma_unroll(Q::Tag, " rel=\"nofollow\""@); lemma_unroll(Q::Tag, " target=\"_blank\" rel=\"noopener\""@);
    lemma_unroll(Q::Text, "<"@); lemma_unroll(Q::Tag, ">"@);
    reveal_with_fuel(fold, 40);
}
/// `run` from the left, for literals
spec fn fold(q: Q, s: Seq<char>, i: int) -> Q
    decreases s.len() - i,
{ if 0 <= i < s.len() { fold(step(q, s[i]), s, i + 1) } else { q } }
proof fn lemma_unroll(q: Q, s: Seq<char>) ensures run(q, s) == fold(q, s, 0)
{ assert(s.subrange(0, 0) =~= Seq::<char>::empty()); lemma_fold(q, s, 0); }
proof fn lemma_fold(q: Q, s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures run(q, s) == fold(run(q, s.subrange(0, i)), s, i),
    decreases s.len() - i,
{
    if i < s.len() { assert(s.subrange(0, i + 1) =~= s.subrange(0, i).push(s[i])); lemma_run_push(q, s.subrange(0, i), s[i]); lemma_fold(q, s, i + 1); }
    else { assert(s.subrange(0, i) =~= s); }
}
impl OpenTag {
    /// nothing but the text changes
    spec fn frame(&self, o: OpenTag) -> bool { self.opened_classes == o.opened_classes && self.append_classes == o.append_classes && self.styles == o.styles }
    spec fn q(&self) -> Q { run(Q::Text, self.buf@) }
    /// inside the tag, or inside its class attribute exactly when that was opened
    spec fn inv(&self) -> bool { self.q() == (if self.opened_classes { Q::Val } else { Q::Tag }) }
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_str_attr_escaped
//@ spec
    requires old(self).q() == Q::Val,
    ensures final(self).q() == Q::Val, final(self).buf@ == old(self).buf@ + esc(s@, s@.len() as int, Quotes::Typographic), final(self).frame(*old(self)),
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_attr_value
//@ spec
    requires old(self).q() == Q::Val,
    ensures final(self).q() == Q::Val, final(self).buf@ == old(self).buf@ + esc(s@, s@.len() as int, Quotes::Double), final(self).frame(*old(self)),
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_specialchar_escaped
//@ spec
    requires old(self).q() == Q::Text,
    ensures final(self).q() == Q::Text, final(self).buf@ == old(self).buf@ + esc(s@, s@.len() as int, Quotes::Keep), final(self).frame(*old(self)),
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_url_encoded
//@ spec
    requires old(self).q() == Q::Val,
    ensures final(self).q() == Q::Val, final(self).frame(*old(self)),
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_str
//@ sub self.buf.push_str(s) ==> vx_push_str(&mut self.buf, s)
//@ spec
    ensures final(self).buf@ == old(self).buf@ + s@, final(self).q() == run(old(self).q(), s@), final(self).frame(*old(self)),
//@ body
    proof { lemma_cat(); }
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_ch
//@ sub self.buf.push(c) ==> vx_push(&mut self.buf, c)
//@ spec
    ensures final(self).buf@ == old(self).buf@.push(c), final(self).q() == step(old(self).q(), c), final(self).frame(*old(self)),
//@ body
    proof { lemma_cat(); }
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_html_attr
//@ sub self.push([" ", name, "=\""]) ==> { self.push_str(" "); self.push_str(name); self.push_str("=\"") }
//@ spec
    requires old(self).q() == Q::Tag, plain(name@),
    ensures final(self).q() == Q::Tag, final(self).frame(*old(self)),
//@ body
    proof { lemma_cat(); lemma_open_lits(); lemma_plain(Q::Tag, name@); }
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_html_attr_nodes
//@ sub self.push([" ", name, "=\""]) ==> { self.push_str(" "); self.push_str(name); self.push_str("=\"") }

//@ spec
    requires old(self).q() == Q::Tag, plain(name@),
    ensures final(self).q() == Q::Tag, final(self).frame(*old(self)),
//@ for 0 slice
//@ body
    proof { lemma_cat(); lemma_open_lits(); lemma_plain(Q::Tag, name@); }
//@ loop 0
    invariant vx_i0 <= vx_s0.len(), self.q() == Q::Val, self.frame(*old(self)), decreases vx_s0.len() - vx_i0,
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_named_attr
//@ spec
    requires old(self).q() == Q::Tag, plain(name@),
    ensures final(self).q() == Q::Tag, final(self).frame(*old(self)),
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn push_named_or_pos_attr
//@ sub attrs.named(name).or_else(|| attrs.str_positional_at(pos)) ==> attrs.vx_named_or_pos(name, pos)
//@ spec
    requires old(self).q() == Q::Tag, plain(name@),
    ensures final(self).q() == Q::Tag, final(self).frame(*old(self)),
//@end
//@extract backend/src/html/htmlbuf.rs :: trait HtmlBuf :: fn append_link_constraint_attrs
//@ sub window == "_blank" ==> vx_eq(window, "_blank")
//@ spec
    requires old(self).q() == Q::Tag,
    ensures final(self).q() == Q::Tag, final(self).frame(*old(self)),
//@ body
    proof { lemma_cat(); lemma_open_lits(); }
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn new_with_id
//@ sub elem: &str, attrs: ==> elem: &str, attrs:
//@ sub String::with_capacity($n) ==> vx_string($n)
//@ sub tag.buf.push_str($x) ==> vx_push_str(&mut tag.buf, $x)
//@ sub tag.buf.push($x) ==> vx_push(&mut tag.buf, $x)
//@ sub append.push_str(first_role) ==> vx_push_str(&mut append, &first_role)
//@ sub append.push_str(role) ==> vx_push_str(&mut append, role)
//@ sub append.push(' ') ==> vx_push(&mut append, ' ')
//@ sub in roles ==> in roles.vx_rest()
//@ spec
    requires plain(elem@),
    ensures r.inv(), !r.opened_classes,
//@ for 0 slice
//@ body
    proof { lemma_cat(); lemma_open_lits(); lemma_plain(Q::Tag, elem@); reveal_with_fuel(run, 2); }
//@ loop 0
    invariant vx_i0 <= vx_s0.len(), tag.inv(), !tag.opened_classes, decreases vx_s0.len() - vx_i0,
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn new
//@ spec
    requires plain(elem@),
    ensures r.inv(), !r.opened_classes,
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn without_id
//@ spec
    requires plain(elem@),
    ensures r.inv(), !r.opened_classes,
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_prefixed_class
//@ sub class: impl AsRef<str> ==> class: &str
//@ sub self.buf.push_str($x) ==> vx_push_str(&mut self.buf, $x)
//@ sub self.buf.push($x) ==> vx_push(&mut self.buf, $x)
//@ sub class.as_ref() ==> class
//@ spec
    requires old(self).inv(), match prefix { Some(p) => plain(p@), None => true },
    ensures final(self).inv(), final(self).opened_classes,
//@ body
    proof { lemma_cat(); lemma_open_lits(); match prefix { Some(p) => lemma_plain(Q::Val, p@), None => {} } }
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_class
//@ sub class: impl AsRef<str> ==> class: &str
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).opened_classes,
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_opt_prefixed_class
//@ sub class: Option<impl AsRef<str>> ==> class: Option<&str>
//@ spec
    requires old(self).inv(), match prefix { Some(p) => plain(p@), None => true },
    ensures final(self).inv(),
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_opt_class
//@ sub class: Option<impl AsRef<str>> ==> class: Option<&str>
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(),
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_classes
//@ sub source: impl Iterator<Item = impl AsRef<str>> ==> source: &[&str]
//@ sub in source ==> in source
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(),
//@ for 0 slice
//@ loop 0
    invariant vx_i0 <= vx_s0.len(), self.inv(), decreases vx_s0.len() - vx_i0,
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_resolved_attr_class
//@ spec
    requires old(self).inv(), match prefix { Some(p) => plain(p@), None => true },
    ensures final(self).inv(),
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_style
//@ sub style: impl AsRef<str> ==> style: &str
//@ sub style.as_ref() ==> style
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buf == old(self).buf, final(self).opened_classes == old(self).opened_classes,
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn finish_classes
//@ sub self.buf.push_str($x) ==> vx_push_str(&mut self.buf, $x)
//@ sub self.buf.push($x) ==> vx_push(&mut self.buf, $x)
//@ spec
    requires old(self).inv(),
    ensures final(self).q() == Q::Tag, !final(self).opened_classes,
//@ body
    proof { lemma_cat(); lemma_open_lits(); }
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn push_link_attrs
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), !final(self).opened_classes,
//@ body
    proof { lemma_cat(); lemma_open_lits(); lemma_lits(); }
//@end
//@extract backend/src/html/open_tag.rs :: impl OpenTag :: fn finish
//@ sub mut self ==> self
//@ sub self.buf.push($x) ==> vx_push(&mut vx_t.buf, $x)
//@ sub self.finish_classes ==> vx_t.finish_classes
//@ sub self.styles ==> vx_t.styles
//@ sub self.push_html_attr ==> vx_t.push_html_attr
//@ sub self.buf ==> vx_t.buf
//@ spec
    requires self.inv(),
    ensures run(Q::Text, r@) == Q::Text,
//@ body
    let mut vx_t = self;
    proof { lemma_cat(); lemma_open_lits(); lemma_lits(); }
//@end
}
}
fn main() {}
