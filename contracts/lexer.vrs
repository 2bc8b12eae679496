//@include lexer.inc
verus! {
impl SourceLexer {
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn peek
//@ spec
ensures r == (if (self.pos as int) < self.src.len() { Some(self.src@[self.pos as int]) } else { None::<u8> }),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn peek_n
//@ spec
requires self.pos + n <= usize::MAX,
ensures r == (if self.pos + n < self.src.len() { Some(self.src@[self.pos + n]) } else { None::<u8> }),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn is_eof
//@ spec
requires self.wf(),
ensures r == (self.pos == self.src.len()),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn peek_is
//@ spec
ensures r == (self.pos < self.src.len() && self.src@[self.pos as int] == c),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn at_line_start
//@ spec
ensures r == line_start(self.src@, self.pos as int),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn at_newline
//@ spec
ensures r == (self.pos < self.src.len() && (self.src@[self.pos as int] == 0x0a || self.src@[self.pos as int] == 0x0d)),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn nth
//@ spec
requires self.pos + n <= u32::MAX,
ensures r == (if self.pos + n < self.src.len() { Some(self.src@[self.pos + n]) } else { None::<u8> }),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance
//@ spec
requires old(self).pos < u32::MAX,
ensures final(self).same(old(self)), final(self).pos == old(self).pos + 1,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn reverse_by
//@ spec
requires old(self).pos >= n,
ensures final(self).same(old(self)), final(self).pos == old(self).pos - n,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn skip
//@ spec
requires n > 1, old(self).pos + n <= u32::MAX,
ensures final(self).same(old(self)), final(self).pos == old(self).pos + n,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn remaining_len
//@ spec
requires self.wf(), self.pos <= self.src.len(),
ensures r == self.src.len() - self.pos,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn peek_bytes
//@ spec
requires self.wf(), N <= 16,
ensures
    self.pos + N <= self.src.len() ==> r.is_some() && r.unwrap()@ == self.src@.subrange(self.pos as int, self.pos + N),
    self.pos + N > self.src.len() ==> r.is_none(),
//@end

/// the two-byte slice pattern of next_token, as a pair
fn vx_two(&self) -> (r: Option<(u8, u8)>)
    requires self.wf(),
    ensures
        self.pos + 2 <= self.src.len() ==> r == Some((self.src@[self.pos as int], self.src@[self.pos + 1])),
        self.pos + 2 > self.src.len() ==> r.is_none(),
{
    match self.peek_bytes::<2>() { Some(v) => Some((v[0], v[1])), None => None }
}
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_if
//@ spec
requires old(self).pos < u32::MAX,
ensures final(self).same(old(self)),
    r == (old(self).pos < old(self).src.len() && old(self).src@[old(self).pos as int] == c),
    final(self).pos == old(self).pos + (if r { 1int } else { 0 }),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_while
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).same(old(self)), final(self).wf(), r == final(self).pos,
    old(self).pos <= r <= final(self).src.len(),
    forall|i: int| old(self).pos <= i < r ==> old(self).src@[i] == c,
    r < old(self).src.len() ==> old(self).src@[r as int] != c,
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos <= self.src.len(),
    forall|i: int| old(self).pos <= i < self.pos ==> old(self).src@[i] == c,
ensures self.pos < self.src.len() ==> self.src@[self.pos as int] != c,
decreases self.src.len() - self.pos,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_while_one_of
//@ sub chars.contains(&$c) ==> vx_has(chars, $c)
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).same(old(self)), final(self).wf(),
    old(self).pos <= final(self).pos <= final(self).src.len(),
    forall|i: int| old(self).pos <= i < final(self).pos ==> chars@.contains(#[trigger] old(self).src@[i]),
    final(self).pos < old(self).src.len() ==> !chars@.contains(old(self).src@[final(self).pos as int]),
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos <= self.src.len(),
    forall|i: int| old(self).pos <= i < self.pos ==> chars@.contains(#[trigger] old(self).src@[i]),
ensures self.pos < self.src.len() ==> !chars@.contains(self.src@[self.pos as int]),
decreases self.src.len() - self.pos,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_while_with
//@ sub ?self.peek().is_some_and(&f) ==> (match self.peek() { Some(vx_c) => f(vx_c), None => false })
//@ spec
requires forall|c: u8| call_requires(f, (c,)), old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).same(old(self)), final(self).wf(), r == final(self).pos,
    old(self).pos <= r <= final(self).src.len(),
    forall|i: int| old(self).pos <= i < r ==> call_ensures(f, (#[trigger] old(self).src@[i],), true),
    r < old(self).src.len() ==> call_ensures(f, (old(self).src@[r as int],), false),
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos <= self.src.len(),
    forall|c: u8| call_requires(f, (c,)),
    forall|i: int| old(self).pos <= i < self.pos ==> call_ensures(f, (#[trigger] old(self).src@[i],), true),
ensures self.pos < self.src.len() ==> call_ensures(f, (self.src@[self.pos as int],), false),
decreases self.src.len() - self.pos,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_until
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).same(old(self)), final(self).wf(),
    old(self).pos <= final(self).pos <= final(self).src.len(),
    forall|i: int| old(self).pos <= i < final(self).pos ==> old(self).src@[i] != stop,
    final(self).pos < old(self).src.len() ==> old(self).src@[final(self).pos as int] == stop,
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos <= self.src.len(),
    forall|i: int| old(self).pos <= i < self.pos ==> old(self).src@[i] != stop,
ensures self.pos < self.src.len() ==> self.src@[self.pos as int] == stop,
decreases self.src.len() - self.pos,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_until_one_of
//@ sub chars.contains(&$c) ==> vx_has(chars, $c)
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).same(old(self)), final(self).wf(), r == final(self).pos,
    old(self).pos <= r <= final(self).src.len(),
    forall|i: int| old(self).pos <= i < r ==> !chars@.contains(#[trigger] old(self).src@[i]),
    r < old(self).src.len() ==> chars@.contains(old(self).src@[r as int]),
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos <= self.src.len(),
    forall|i: int| old(self).pos <= i < self.pos ==> !chars@.contains(#[trigger] old(self).src@[i]),
ensures self.pos < self.src.len() ==> chars@.contains(self.src@[self.pos as int]),
decreases self.src.len() - self.pos,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn advance_to_word_boundary
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).same(old(self)), final(self).wf(), r == final(self).pos,
    old(self).pos <= r <= final(self).src.len(),
    is_char_boundary(final(self).src@, r as int),
    r < final(self).src.len() ==> word_stop(final(self).src@[r as int], with_at),
    forall|i: int| old(self).pos <= i < r ==> !word_stop(#[trigger] old(self).src@[i], with_at),
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos <= self.src.len(),
    forall|i: int| old(self).pos <= i < self.pos ==> !word_stop(#[trigger] old(self).src@[i], with_at),
ensures self.pos < self.src.len() ==> word_stop(self.src@[self.pos as int], with_at),
decreases self.src.len() - self.pos,
//@ before self.pos
proof { is_char_boundary_start_end_of_seq(self.src@); if self.pos < self.src.len() { lemma_ascii_boundary(self.src@, self.pos as int); } }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn token
//@ spec
requires self.wf(), start <= end <= self.src.len(),
    is_char_boundary(self.src@, start as int), is_char_boundary(self.src@, end as int),
ensures r.kind == kind, self.is_tok(r, start as int, end as int),
//@ body
proof { reveal_strlit(""); lemma_sub_valid(self.src@, start as int, end as int); assert(""@ =~= Seq::empty()); assert(encode_utf8(""@) =~= Seq::<u8>::empty()) by { reveal_with_fuel(encode_utf8, 2); }; assert(start == end ==> self.src@.subrange(start as int, end as int) =~= Seq::<u8>::empty()); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn single
//@ spec
requires self.pos >= 1, self.mid(self.pos - 1), self.src@[self.pos - 1] < 0x80, kind_ok(kind, seq![self.src@[self.pos - 1]]),
ensures r.kind == kind, self.done(self, r, self.pos - 1),
//@ body
proof { lemma_ascii_boundary(self.src@, self.pos - 1); assert(self.src@.subrange(self.pos - 1, self.pos as int) =~= seq![self.src@[self.pos - 1]]); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn codepoint
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), n > 1, old(self).pos - 1 + n <= old(self).src.len(),
    is_char_boundary(old(self).src@, old(self).pos - 1 + n),
    kind_ok(kind, old(self).src@.subrange(old(self).pos - 1, old(self).pos - 1 + n)),
ensures r.kind == kind, final(self).done(old(self), r, old(self).pos - 1), final(self).pos == old(self).pos - 1 + n,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn repeating
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), old(self).src@[old(self).pos - 1] == c, c < 0x80,
    kind == EqualSigns && c == 0x3d || kind == Dashes && c == 0x2d || kind == Dots && c == 0x2e
        || kind == ForwardSlashes && c == 0x2f || kind == OpenParens && c == 0x28 || kind == CloseParens && c == 0x29,
ensures r.kind == kind, final(self).done(old(self), r, old(self).pos - 1),
    final(self).pos < final(self).src.len() ==> final(self).src@[final(self).pos as int] != c,
//@ before self.token
proof { lemma_ascii_boundary(self.src@, self.pos - 1); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn whitespace
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), ws(old(self).src@[old(self).pos - 1]),
ensures r.kind == Whitespace, final(self).done(old(self), r, old(self).pos - 1),
    final(self).pos < final(self).src.len() ==> !ws(final(self).src@[final(self).pos as int]),
//@ before self.token
proof { let w = [0x20u8, 0x09, 0x0b, 0x0c]; assert(w@.contains(w@[0]) && w@.contains(w@[1]) && w@.contains(w@[2]) && w@.contains(w@[3]));
    assert(forall|b: u8| w@.contains(b) <==> ws(b)); lemma_ascii_boundary(self.src@, self.pos - 1); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn digits
//@ sub |c| c.is_ascii_digit() ==> |c: u8| -> (r: bool) ensures r == is_digit(c) { c.is_ascii_digit() }
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), is_digit(old(self).src@[old(self).pos - 1]),
ensures r.kind == Digits, final(self).done(old(self), r, old(self).pos - 1),
    final(self).pos < final(self).src.len() ==> !is_digit(final(self).src@[final(self).pos as int]),
//@ before self.token
proof { lemma_ascii_boundary(self.src@, self.pos - 1); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn at_delimiter_line
//@ sub [$a, $b, $c, $d, $e] ==> ($a, $b, $c, $d, $e)
//@ sub ?sequence[0] ==> sequence.0
//@ spec
requires self.wf(),
ensures
    match r {
        Some((n, c)) => line_start(self.src@, self.pos as int) && delim_at(self.src@, self.pos as int, n as int, c),
        None => !(line_start(self.src@, self.pos as int) && self.pos < self.src.len() && exists|n: int, c: u8| #[trigger] delim_at(self.src@, self.pos as int, n, c)),
    },
//@ loop 0
invariant self.wf(), 4 <= n, self.pos + n <= self.src.len(), self.pos < self.src.len(),
    run_at(self.src@, self.pos as int, n as int, b), b != 0x60, b != 0x2d, delim_byte(b),
ensures !(self.pos + n < self.src.len() && self.src@[self.pos + n] == b),
decreases self.src.len() - n,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn delimiter_line
//@ sub ?let (len, _) = self.at_delimiter_line()?; ==> let (len, _) = match self.at_delimiter_line() { Some(x) => x, None => return None };
//@ spec
requires old(self).wf(), old(self).pos > old(self).src.len() || is_char_boundary(old(self).src@, old(self).pos as int),
ensures match r {
        Some(t) => t.kind == DelimiterLine && line_start(old(self).src@, old(self).pos as int)
            && final(self).done(old(self), t, old(self).pos as int),
        None => final(self).same(old(self)) && final(self).pos == old(self).pos,
    },
    (line_start(old(self).src@, old(self).pos as int) && old(self).pos < old(self).src.len()
        && exists|n: int, c: u8| #[trigger] delim_at(old(self).src@, old(self).pos as int, n, c)) ==> r.is_some(),
//@ before self.skip
proof { lemma_ascii_boundary(self.src@, self.pos + len - 1); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn maybe_term_delimiter
//@ sub n == &b':' ==> *n == b':'
//@ sub next == Some(&$c) ==> vx_ref_is(next, $c)
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), old(self).src@[old(self).pos - 1] == ch, ch == 0x3a || ch == 0x3b,
ensures final(self).done(old(self), r, old(self).pos - 1), r.kind == TermDelimiter || (ch == 0x3a && r.kind == Colon) || (ch == 0x3b && r.kind == SemiColon),
    r.kind == TermDelimiter ==> sp_eol(final(self).src@, final(self).pos as int) && !at_line_start,
//@ body
proof { lemma_ascii_boundary(self.src@, self.pos - 1);
    if self.pos < self.src.len() && self.src@[self.pos as int] == ch { lemma_ascii_boundary(self.src@, self.pos as int);
      if self.pos + 1 < self.src.len() && self.src@[self.pos + 1] == 0x3a { lemma_ascii_boundary(self.src@, self.pos + 1);
        if self.pos + 2 < self.src.len() && self.src@[self.pos + 2] == 0x3a { lemma_ascii_boundary(self.src@, self.pos + 2); } } } }
    let ghost vx_p = self.pos as int;
//@ before return self.token
assert(self.src@.subrange(vx_p - 1, vx_p + 1) =~= seq![ch, ch]);
//@ before [1] return self.token
assert(self.src@.subrange(vx_p - 1, vx_p + 2) =~= seq![ch, ch, ch]); assert(self.pos == vx_p + 3 ==> self.src@.subrange(vx_p - 1, vx_p + 3) =~= seq![ch, ch, ch, ch]);
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn peek_term_delimiter
//@ sub peek.next() != Some(&$c) ==> !vx_ref_is(peek.next(), $c)
//@ spec
requires self.wf(), self.pos < self.src.len(),
ensures r == (self.pos + 1 < self.src.len() && self.src@[self.pos + 1] == 0x3a && (sp_eol(self.src@, self.pos + 2)
    || self.src@[self.pos + 2] == 0x3a && (sp_eol(self.src@, self.pos + 3) || self.src@[self.pos + 3] == 0x3a && sp_eol(self.src@, self.pos + 4)))),
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn maybe_attr_ref
//@ for 0 slice
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), old(self).src@[old(self).pos - 1] == 0x7b,
ensures final(self).done(old(self), r, old(self).pos - 1), r.kind == OpenBrace || r.kind == AttrRef,
    r.kind == AttrRef ==> !(old(self).pos >= 2 && old(self).src@[old(self).pos - 2] == 0x5c),
//@ body
proof { lemma_ascii_boundary(self.src@, self.pos - 1); }
//@ loop 0
invariant self.same(old(self)), self.pos == old(self).pos, self.pos >= 1, self.mid(self.pos - 1), self.src@[self.pos - 1] == 0x7b,
    vx_s0@ == self.src@.subrange(self.pos as int, self.src.len() as int), vx_i0 <= vx_s0.len(), len == vx_i0,
    !(old(self).pos >= 2 && old(self).src@[old(self).pos - 2] == 0x5c),
    forall|i: int| 0 <= i < len ==> (is_alpha(#[trigger] vx_s0@[i]) || is_digit(vx_s0@[i]) || vx_s0@[i] == 0x2d || vx_s0@[i] == 0x5f),
decreases vx_s0.len() - vx_i0,
//@ before let token =
proof { lemma_ascii_boundary(self.src@, self.pos - 1); lemma_ascii_boundary(self.src@, self.pos + len);
    let t = self.src@.subrange(self.pos - 1, self.pos + len + 1);
    assert forall|i: int| 1 <= i < t.len() - 1 implies (is_alpha(#[trigger] t[i]) || is_digit(t[i]) || t[i] == 0x2d || t[i] == 0x5f) by { assert(t[i] == vx_s0@[i - 1]); } }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn finish_entity
//@ sub self.peek_n(pos).is_some_and(&f) ==> (match self.peek_n(pos) { Some(vx_c) => f(vx_c), None => false })
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), old(self).src@[old(self).pos - 1] == 0x26, forall|c: u8| call_requires(f, (c,)),
    old(self).pos < old(self).src.len(), is_alpha(old(self).src@[old(self).pos as int]) || old(self).src@[old(self).pos as int] == 0x23,
    initial_pos + 1 == ent_lead(old(self).src@[old(self).pos as int], byte_or0(old(self).src@, old(self).pos + 1)),
    forall|c: u8, x: bool| call_ensures(f, (c,), x) ==> x == ent_class(old(self).src@[old(self).pos as int], byte_or0(old(self).src@, old(self).pos + 1), c),
ensures final(self).done(old(self), r, old(self).pos - 1), r.kind == Ampersand || r.kind == Entity,
    (exists|e: int| #[trigger] entity_at(old(self).src@, old(self).pos - 1, e)) ==> r.kind == Entity || (old(self).pos >= 2 && old(self).src@[old(self).pos - 2] == 0x5c),
//@ body
let ghost vx_a = self.src@[self.pos as int]; let ghost vx_b = byte_or0(self.src@, self.pos + 1);
proof { lemma_ascii_boundary(self.src@, self.pos - 1);
    assert forall|e: int| #[trigger] entity_at(self.src@, self.pos - 1, e) implies self.pos < e <= self.src.len() && self.src@[e - 1] == 0x3b && self.pos + initial_pos < e - 1
        && forall|i: int| self.pos + initial_pos <= i < e - 1 ==> ent_class(vx_a, vx_b, #[trigger] self.src@[i]) by {
        let t = self.src@.subrange(self.pos - 1, e); assert(t[1] == vx_a && t[2] == vx_b); assert(t[t.len() - 1] == self.src@[e - 1]);
        assert forall|i: int| self.pos + initial_pos <= i < e - 1 implies ent_class(vx_a, vx_b, #[trigger] self.src@[i]) by { assert(t[i - self.pos + 1] == self.src@[i]); } } }
//@ loop 0
invariant self.same(old(self)), self.pos == old(self).pos, self.pos >= 1, self.mid(self.pos - 1), self.src@[self.pos - 1] == 0x26,
    start == self.pos - 1, forall|c: u8| call_requires(f, (c,)), self.pos < self.src.len(), vx_a == self.src@[self.pos as int], vx_b == byte_or0(self.src@, self.pos + 1),
    is_alpha(vx_a) || vx_a == 0x23, initial_pos + 1 == ent_lead(vx_a, vx_b), forall|c: u8, x: bool| call_ensures(f, (c,), x) ==> x == ent_class(vx_a, vx_b, c),
    initial_pos <= pos, self.pos + pos <= self.src.len() || pos == initial_pos, vx_a == 0x23 && vx_b == 0x78 ==> self.pos + 1 < self.src.len(),
    forall|i: int| self.pos + initial_pos <= i < self.pos + pos ==> ent_class(vx_a, vx_b, #[trigger] self.src@[i]),
    forall|e: int| #[trigger] entity_at(self.src@, self.pos - 1, e) ==> self.pos < e <= self.src.len() && self.src@[e - 1] == 0x3b && self.pos + initial_pos < e - 1
        && forall|i: int| self.pos + initial_pos <= i < e - 1 ==> ent_class(vx_a, vx_b, #[trigger] self.src@[i]),
decreases self.src.len() + 2 - pos,
//@ before self.pos +=
proof { lemma_ascii_boundary(self.src@, self.pos + pos);
    let t = self.src@.subrange(self.pos - 1, self.pos + pos + 1);
    assert(t[1] == vx_a && t[2] == vx_b);
    assert forall|i: int| ent_lead(vx_a, vx_b) <= i < t.len() - 1 implies ent_class(vx_a, vx_b, #[trigger] t[i]) by { assert(t[i] == self.src@[self.pos - 1 + i]); } }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn maybe_entity
//@ guards
//@ sub ?self.peek_n($n).is_some_and(|$b| $x) ==> (match self.peek_n($n) { Some($b) => $x, None => false })
//@ sub ?self.finish_entity($n, |byte| byte.is_ascii_digit()) ==> { let vx_f = |byte: u8| -> (r: bool) ensures r == is_digit(byte) { byte.is_ascii_digit() }; self.finish_entity($n, vx_f) }
//@ sub ?self.finish_entity($n, |byte| byte.is_ascii_hexdigit()) ==> { let vx_f = |byte: u8| -> (r: bool) ensures r == is_hex(byte) { byte.is_ascii_hexdigit() }; self.finish_entity($n, vx_f) }
//@ sub ?self.finish_entity($n, |byte| byte.is_ascii_alphanumeric()) ==> { let vx_f = |byte: u8| -> (r: bool) ensures r == (is_alpha(byte) || is_digit(byte)) { byte.is_ascii_alphanumeric() }; self.finish_entity($n, vx_f) }
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), old(self).src@[old(self).pos - 1] == 0x26,
ensures final(self).done(old(self), r, old(self).pos - 1), r.kind == Ampersand || r.kind == Entity,
    (exists|e: int| #[trigger] entity_at(old(self).src@, old(self).pos - 1, e)) ==> r.kind == Entity || (old(self).pos >= 2 && old(self).src@[old(self).pos - 2] == 0x5c),
//@ body
proof { assert forall|e: int| #[trigger] entity_at(self.src@, self.pos - 1, e) implies self.pos + 1 < e - 1 && (is_alpha(self.src@[self.pos as int])
        || (self.src@[self.pos as int] == 0x23 && (self.src@[self.pos + 1] == 0x78 || is_digit(self.src@[self.pos + 1])))) by {
        let t = self.src@.subrange(self.pos - 1, e); assert(t[1] == self.src@[self.pos as int] && t[2] == self.src@[self.pos + 1]); if t[1] == 0x23 && t[2] != 0x78 { assert(ent_class(t[1], t[2], t[2])); } } }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn maybe_callout_number
//@ guards
//@ sub ?self.peek().is_some_and(|$b| $x) ==> (match self.peek() { Some($b) => $x, None => false })
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), old(self).src@[old(self).pos - 1] == 0x3c,
ensures final(self).done(old(self), r, old(self).pos - 1), r.kind == LessThan || r.kind == CalloutNumber,
//@ body
proof { lemma_ascii_boundary(self.src@, self.pos - 1); } let ghost vx_p = self.pos as int;
//@ loop 0
invariant self.same(old(self)), self.wf(), vx_p == old(self).pos, vx_p >= 1, vx_p < self.pos <= self.src.len(), start == vx_p - 1,
    is_char_boundary(self.src@, vx_p - 1), self.src@[vx_p - 1] == 0x3c, old(self).mid(vx_p - 1),
    forall|i: int| vx_p <= i < self.pos ==> is_digit(#[trigger] self.src@[i]),
decreases self.src.len() - self.pos,
//@ loop 1
invariant_except_break self.same(old(self)), self.pos == old(self).pos, self.mid(self.pos - 1), vx_p == self.pos, self.src@[vx_p - 1] == 0x3c, start == vx_p - 1,
    peek.s@ == self.src@.subrange(vx_p + 1, self.src.len() as int), peek.s@.len() == self.src@.len() - vx_p - 1, 1 <= num_digits, peek.i == num_digits + 2, peek.i <= peek.s.len(),
    self.src@[vx_p as int] == 0x21, peek.s@[0] == 0x2d, peek.s@[1] == 0x2d,
    forall|i: int| 2 <= i < 2 + num_digits ==> is_digit(#[trigger] peek.s@[i]),
ensures self.same(old(self)), self.pos == old(self).pos, self.mid(self.pos - 1), vx_p == self.pos, self.src@[vx_p - 1] == 0x3c, start == vx_p - 1,
    peek.s@ == self.src@.subrange(vx_p + 1, self.src.len() as int), peek.s@.len() == self.src@.len() - vx_p - 1, 1 <= num_digits, peek.i == num_digits + 3, peek.i <= peek.s.len(),
    self.src@[vx_p as int] == 0x21, peek.s@[0] == 0x2d, peek.s@[1] == 0x2d, peek.s@[2 + num_digits] == 0x2d,
    forall|i: int| 2 <= i < 2 + num_digits ==> is_digit(#[trigger] peek.s@[i]),
decreases peek.s.len() - peek.i,
//@ before return self.token(CalloutNumber
proof { lemma_ascii_boundary(self.src@, self.pos - 1); }
//@ before [1] return self.token(CalloutNumber
proof { lemma_ascii_boundary(self.src@, self.pos - 1); assert(self.src@.subrange(vx_p - 1, self.pos as int) =~= seq![0x3cu8, 0x2e, 0x3e]); }
//@ before self.skip(7)
proof { let q = self.src@.subrange(vx_p + 1, self.src.len() as int); assert(q[0] == self.src@[vx_p + 1] && q[1] == self.src@[vx_p + 2] && q[2] == self.src@[vx_p + 3] && q[3] == self.src@[vx_p + 4] && q[4] == self.src@[vx_p + 5] && q[5] == self.src@[vx_p + 6]);
     lemma_ascii_boundary(self.src@, vx_p + 6); assert(self.src@.subrange(vx_p - 1, vx_p + 7) =~= seq![0x3cu8, 0x21, 0x2d, 0x2d, 0x2e, 0x2d, 0x2d, 0x3e]); }
//@ before self.skip(num_digits
proof { let q = peek.s@; let t = self.src@.subrange(vx_p - 1, vx_p + num_digits + 6);
     assert(q[num_digits + 4] == self.src@[vx_p + num_digits + 5]); lemma_ascii_boundary(self.src@, vx_p + num_digits + 5);
     assert forall|i: int| 0 <= i < num_digits + 5 implies t[2 + i] == q[i] by { };
     assert(t[2] == q[0] && t[3] == q[1] && t[num_digits + 4] == q[num_digits + 2] && t[num_digits + 5] == q[num_digits + 3] && t[num_digits + 6] == q[num_digits + 4]);
     assert forall|i: int| 4 <= i < t.len() - 3 implies is_digit(#[trigger] t[i]) by { assert(t[i] == q[i - 2]); } }
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn is_builtin_macro_name
//@ spec
ensures lexeme@ == seq![0x66u8, 0x6f, 0x6f, 0x74, 0x6e, 0x6f, 0x74, 0x65] ==> r, lexeme@ == seq![0x69u8, 0x6e, 0x64, 0x65, 0x78, 0x74, 0x65, 0x72, 0x6d] ==> r, r ==> lexeme@.len() >= 3,
//@ body
proof { let f = [0x66u8, 0x6f, 0x6f, 0x74, 0x6e, 0x6f, 0x74, 0x65]; assert(f@ =~= seq![0x66u8, 0x6f, 0x6f, 0x74, 0x6e, 0x6f, 0x74, 0x65]); let g = [0x69u8, 0x6e, 0x64, 0x65, 0x78, 0x74, 0x65, 0x72, 0x6d]; assert(g@ =~= seq![0x69u8, 0x6e, 0x64, 0x65, 0x78, 0x74, 0x65, 0x72, 0x6d]); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn is_macro_name
//@ sub Lexer::is_builtin_macro_name ==> Self::is_builtin_macro_name
//@ sub self.plugin_macros.iter().any(|name| name.as_bytes() == lexeme) ==> vx_plugin_has(&self.plugin_macros, lexeme)
//@ spec
ensures lexeme@ == seq![0x66u8, 0x6f, 0x6f, 0x74, 0x6e, 0x6f, 0x74, 0x65] ==> r, lexeme@ == seq![0x69u8, 0x6e, 0x64, 0x65, 0x78, 0x74, 0x65, 0x72, 0x6d] ==> r,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn continues_uri_scheme
//@ sub ?self.peek_bytes::<3>() == Some($b) ==> vx_opt_eq(self.peek_bytes::<3>(), $b)
//@ sub ?self.peek_bytes::<4>() == Some($b) ==> vx_opt_eq(self.peek_bytes::<4>(), $b)
//@ spec
requires self.wf(), self.pos < self.src.len(),
ensures r.is_some() ==> self.pos + r.unwrap() <= self.src.len() && r.unwrap() >= 3
    && forall|i: int| self.pos <= i < self.pos + r.unwrap() ==> #[trigger] self.src@[i] < 0x80,
//@ body
proof { if self.pos + 3 <= self.src.len() { let t = self.src@.subrange(self.pos as int, self.pos + 3); assert(forall|i: int| 0 <= i < 3 ==> self.src@[self.pos + i] == #[trigger] t[i]);
     assert forall|i: int| self.pos <= i < self.pos + 3 implies #[trigger] self.src@[i] == t[i - self.pos] by { } }
   if self.pos + 4 <= self.src.len() { let t = self.src@.subrange(self.pos as int, self.pos + 4);
     assert forall|i: int| self.pos <= i < self.pos + 4 implies #[trigger] self.src@[i] == t[i - self.pos] by { } } }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn word
//@ guards
//@ sub ?lexeme.last() == Some(&$c) ==> vx_ref_is(lexeme.last(), $c)
//@ sub ?lexeme.ends_with($w) ==> vx_ends_with(lexeme, $w)
//@ sub ?self.advance_while_with(|c| $x) ==> self.advance_while_with(|c: u8| -> (r: bool) ensures r ==> c < 0x80 { $x })
//@ sub ?domain.contains(&$c) ==> vx_has(domain, $c)
//@ spec
requires old(self).pos >= 1, old(self).mid(old(self).pos - 1), 
ensures final(self).done(old(self), r, old(self).pos - 1), r.kind == Word || r.kind == Directive || r.kind == UriScheme || r.kind == MacroName || r.kind == MaybeEmail,
//@ body
proof { lemma_ascii_all(self.src@); }
//@ before return self.token(Word, start, end - 8)
proof { let q = [0x66u8, 0x6f, 0x6f, 0x74, 0x6e, 0x6f, 0x74, 0x65]; assert(q@ =~= seq![0x66u8, 0x6f, 0x6f, 0x74, 0x6e, 0x6f, 0x74, 0x65]);
  assert(lexeme@.subrange(lexeme.len() - 8, lexeme.len() as int)[0] == 0x66); assert(lexeme@.len() == 8 ==> lexeme@ =~= lexeme@.subrange(lexeme.len() - 8, lexeme.len() as int)); }
//@ before return self.token(Word, start, end - 9)
proof { let q = [0x69u8, 0x6e, 0x64, 0x65, 0x78, 0x74, 0x65, 0x72, 0x6d]; assert(q@ =~= seq![0x69u8, 0x6e, 0x64, 0x65, 0x78, 0x74, 0x65, 0x72, 0x6d]);
  assert(lexeme@.subrange(lexeme.len() - 9, lexeme.len() as int)[0] == 0x69); assert(lexeme@.len() == 9 ==> lexeme@ =~= lexeme@.subrange(lexeme.len() - 9, lexeme.len() as int)); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn next_token
//@ guards
//@ sub self.peek_bytes::<2>().unwrap_or(&[]) ==> self.vx_two()
//@ sub (0xE2, &[$x, $y]) ==> (0xE2, Some(($x, $y)))
//@ sub (0xE3, &[$x, $y]) ==> (0xE3, Some(($x, $y)))
//@ sub (0xEF, &[$x, $y]) ==> (0xEF, Some(($x, $y)))
//@ sub self.peek_bytes::<4>() == Some($b) ==> vx_opt_eq(self.peek_bytes::<4>(), $b)
//@ spec
requires old(self).wf(), old(self).pos < 0xffff_ff00, old(self).pos >= old(self).src.len() || is_char_boundary(old(self).src@, old(self).pos as int),
ensures match r {
        Some(t) => final(self).done(old(self), t, old(self).pos as int),
        None => old(self).pos >= old(self).src.len() && final(self).same(old(self)) && final(self).wf() && final(self).pos == old(self).pos + 1,
    },
    old(self).pos < old(self).src.len() ==> r.is_some(),
    r.is_some() ==> kind_first(r.unwrap().kind, old(self).src@, old(self).pos as int),
    r.is_some() ==> kind_maximal(r.unwrap().kind, old(self).src@, final(self).pos as int) || r.unwrap().kind == DelimiterLine,
//@ body
proof { lemma_ascii_all(self.src@);
  if self.pos < self.src.len() && 0xC2 <= self.src@[self.pos as int] < 0xF0 { lemma_multi_boundary(self.src@, self.pos as int); }
  assert(self.pos + 2 <= self.src.len() ==> self.src@.subrange(self.pos as int, self.pos + 2) =~= seq![self.src@[self.pos as int], self.src@[self.pos + 1]]);
  if self.pos + 5 <= self.src.len() { let t = self.src@.subrange(self.pos + 1, self.pos + 5); assert(t[3] == self.src@[self.pos + 4]); } }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn truncate
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(), old(self).at_boundary(),
ensures final(self).wf(), final(self).pos == old(self).pos, final(self).offset == old(self).offset, final(self).src@ == old(self).src@.subrange(0, old(self).pos as int),
//@ body
proof { is_char_boundary_start_end_of_seq(self.src@); valid_utf8_split(self.src@, self.pos as int); }
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn skip_newline
//@ spec
requires old(self).wf(), old(self).pos <= old(self).src.len(),
ensures final(self).wf(), final(self).same(old(self)), old(self).pos <= final(self).pos <= old(self).pos + 2, final(self).pos <= final(self).src.len(),
    forall|i: int| old(self).pos <= i < final(self).pos ==> #[trigger] old(self).src@[i] == 0x0a || old(self).src@[i] == 0x0d,
    old(self).pos < old(self).src.len() && (old(self).src@[old(self).pos as int] == 0x0a || old(self).src@[old(self).pos as int] == 0x0d) ==> final(self).pos > old(self).pos,
    final(self).pos == old(self).pos + 2 ==> old(self).src@[old(self).pos as int] == 0x0d && old(self).src@[old(self).pos + 1] == 0x0a,
//@end
//@extract parser/src/lexer/source_lexer.rs :: impl SourceLexer :: fn consume_empty_lines
//@ spec
requires old(self).wf(),
ensures final(self).wf(), final(self).same(old(self)), old(self).pos <= final(self).pos, old(self).pos <= old(self).src.len() ==> final(self).pos <= final(self).src.len(),
    final(self).pos > old(self).pos ==> final(self).pos <= final(self).src.len(), final(self).at_boundary() || final(self).pos == old(self).pos,
    forall|i: int| old(self).pos <= i < final(self).pos ==> #[trigger] old(self).src@[i] == 0x0a || old(self).src@[i] == 0x0d,
    final(self).pos < final(self).src.len() ==> final(self).src@[final(self).pos as int] != 0x0a && final(self).src@[final(self).pos as int] != 0x0d,
//@ loop 0
invariant self.same(old(self)), self.wf(), old(self).pos <= self.pos, old(self).pos <= old(self).src.len() ==> self.pos <= self.src.len(),
    self.pos > old(self).pos ==> self.pos <= self.src.len() && is_char_boundary(self.src@, self.pos as int),
    forall|i: int| old(self).pos <= i < self.pos ==> #[trigger] old(self).src@[i] == 0x0a || old(self).src@[i] == 0x0d,
decreases self.src.len() - self.pos,
//@ loopbody 0
proof { lemma_ascii_all(self.src@); }
//@end
}
}
//@include root.inc
verus! {
impl SourceLocation {
//@extract ast/src/source_location.rs :: impl SourceLocation :: fn offset
//@ spec
requires self.start <= self.end, self.end + offset <= u32::MAX,
ensures r.start == self.start + offset, r.end == self.end + offset, r.include_depth == self.include_depth,
//@end
}
impl RootLexer {
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn peek
//@ for 0 revslice
//@ sub if let Some((tmp_buf, _)) = &self.tmp_buf ==> if let Some((tmp_buf, _)) = self.tmp_buf.as_ref()
//@ spec
requires self.root_wf(),
ensures r == self.next_byte(),
//@ loop 0
invariant self.root_wf(), vx_s0@ == self.source_stack@, vx_i0 <= vx_s0.len(), self.tmp_buf.is_none(), self.next_idx.is_none(),
    self.sources@[self.idx as int].done_reading(),
    forall|k: int| vx_i0 <= k < vx_s0.len() ==> self.sources@[#[trigger] self.source_stack@[k] as int].done_reading(),
    vx_i0 > 0 ==> self.next_byte() == reading_byte(self.sources@, self.source_stack@[vx_i0 - 1] as int, self.source_stack@, vx_i0 - 1),
    vx_i0 == 0 ==> self.next_byte().is_none(),
decreases vx_i0,
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn peek_is
//@ spec
requires self.root_wf(),
ensures r == (self.next_byte() == Some(c)),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn at_newline
//@ spec
requires self.root_wf(),
ensures r == (self.next_byte() == Some(0x0au8) || self.next_byte() == Some(0x0du8)),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn is_eof
//@ spec
requires self.root_wf(),
ensures r == self.next_byte().is_none(), self.tmp_buf.is_none() ==> r == self.exhausted(),
//@ body
proof { lemma_reading(self.sources@, self.idx as int, self.source_stack@, self.source_stack.len() as int); }
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn maybe_advance_source
//@ spec
requires old(self).root_wf(),
ensures final(self).root_wf(), final(self).sources@ == old(self).sources@, final(self).next_idx.is_none(), final(self).tmp_buf == old(self).tmp_buf, final(self).outer_buf == old(self).outer_buf,
    final(self).depth() == old(self).depth(), final(self).next_byte() == old(self).next_byte(), final(self).next_src_byte() == old(self).next_src_byte(),
    old(self).next_idx.is_none() ==> final(self).idx == old(self).idx && final(self).source_stack@ == old(self).source_stack@,
    old(self).next_idx.is_some() ==> final(self).idx == old(self).next_idx.unwrap() && final(self).source_stack@ == old(self).source_stack@.push(old(self).idx),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn consume_empty_lines
//@ spec
requires old(self).root_wf(), old(self).tmp_buf.is_none(),
ensures final(self).root_wf(), final(self).same_texts(old(self)), final(self).tmp_buf.is_none(), final(self).next_idx.is_none(),
    final(self).next_byte() != Some(0x0au8), final(self).next_byte() != Some(0x0du8),
    forall|k: int| #![trigger final(self).sources@[k]] 0 <= k < old(self).sources.len() ==> old(self).sources@[k].pos <= final(self).sources@[k].pos
        && (forall|i: int| old(self).sources@[k].pos <= i < final(self).sources@[k].pos ==>
            #[trigger] old(self).sources@[k].src@[i] == 0x0a || old(self).sources@[k].src@[i] == 0x0d),
decreases old(self).depth(),
//@ before self.idx = prev_idx
let ghost vx_pre = *self;
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn at_delimiter_line
//@ for 0 revslice
//@ spec
requires self.root_wf(), self.next_idx.is_none(),
ensures ({ let s = self.sources@[reading(self.sources@, self.idx as int, self.source_stack@, self.source_stack.len() as int)];
    match r {
        Some((n, c)) => line_start(s.src@, s.pos as int) && delim_at(s.src@, s.pos as int, n as int, c) && (s.pos + n == s.src.len() || s.src@[s.pos + n] == 0x0a || s.src@[s.pos + n] == 0x0d),
        None => !(line_start(s.src@, s.pos as int) && s.pos < s.src.len() && exists|n: int, c: u8| #[trigger] delim_at(s.src@, s.pos as int, n, c) && (s.pos + n == s.src.len() || s.src@[s.pos + n] == 0x0a || s.src@[s.pos + n] == 0x0d)),
    } }),
//@ loop 0
invariant_except_break self.root_wf(), vx_s0@ == self.source_stack@, vx_i0 <= vx_s0.len(),
    exists|c: int| 0 <= c < self.sources.len() && *cur_source == #[trigger] self.sources@[c] && (self.sources@[c].pos <= self.sources@[c].src.len() || vx_s0.len() == 0)
        && reading(self.sources@, self.idx as int, self.source_stack@, self.source_stack.len() as int) == reading(self.sources@, c, self.source_stack@, vx_i0 as int),
ensures *cur_source == self.sources@[reading(self.sources@, self.idx as int, self.source_stack@, self.source_stack.len() as int)], cur_source.wf(),
decreases vx_i0,
//@ body
proof {
    assert forall|s: Seq<u8>, p: int, n: int, c: u8, m: int, d: u8| #[trigger] delim_at(s, p, n, c) && #[trigger] delim_at(s, p, m, d) implies c == d && (c == 0x60 ==> n == m) by {
        assert(s[p + 0] == c && s[p + 0] == d);
    }
}
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn skip_byte
//@ sub if let Some((tmp_lexer, _)) = &mut self.tmp_buf ==> if let Some((ref mut tmp_lexer, _)) = self.tmp_buf
//@ spec
requires old(self).root_wf(), old(self).next_byte().is_none() || old(self).next_byte().unwrap() < 0x80,
ensures final(self).root_wf(), final(self).same_texts(old(self)),
    old(self).tmp_buf.is_some() ==> final(self).sources@ == old(self).sources@ && final(self).next_src_byte() == old(self).next_src_byte(),
    old(self).tmp_buf.is_none() ==> final(self).tmp_buf.is_none(),
    old(self).tmp_buf.is_some() && old(self).tmp_buf.unwrap().0.pos + 1 == old(self).tmp_buf.unwrap().0.src.len() ==> final(self).tmp_buf == old(self).outer_buf && final(self).outer_buf.is_none(),
    old(self).tmp_buf.is_some() && old(self).tmp_buf.unwrap().0.pos + 1 < old(self).tmp_buf.unwrap().0.src.len() ==> final(self).tmp_buf.is_some()
        && final(self).tmp_buf.unwrap().0.same(&old(self).tmp_buf.unwrap().0) && final(self).tmp_buf.unwrap().0.pos == old(self).tmp_buf.unwrap().0.pos + 1
        && final(self).tmp_buf.unwrap().1 == old(self).tmp_buf.unwrap().1 && final(self).outer_buf == old(self).outer_buf,
decreases old(self).depth(),
//@ body
proof { if self.tmp_buf.is_some() { let t = self.tmp_buf.unwrap().0; if !t.done_reading() { lemma_ascii_boundary(t.src@, t.pos as int); } } }
//@ after self.maybe_advance_source();
proof { let t = self.sources@[self.idx as int]; if !t.done_reading() { lemma_ascii_boundary(t.src@, t.pos as int); }
    else if self.source_stack.len() > 0 { lemma_pop(self.sources@, self.idx as int, self.source_stack@); } }
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn skip_newline
//@ spec
requires old(self).root_wf(),
ensures final(self).root_wf(), final(self).same_texts(old(self)),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn set_tmp_buf
//@ sub SourceLexer::from_str(buf, $f, $b) ==> vx_tmp_source(buf)
//@ sub ?lexer.plugin_macros = Rc::clone(&self.plugin_macros); ==>
//@ spec
requires old(self).root_wf(), old(self).tmp_buf.is_none() || old(self).outer_buf.is_none(), 0 < buf@.len(), encode_utf8(buf@).len() < 0xffff_0000,
    match loc { BufLoc::Repeat(_) => true, BufLoc::Offset(o) => encode_utf8(buf@).len() + o <= 0xffff_ff00, BufLoc::From(f) => encode_utf8(buf@).len() + f.start <= 0xffff_ff00 },
ensures final(self).root_wf(), final(self).sources@ == old(self).sources@, final(self).idx == old(self).idx,
    final(self).next_idx == old(self).next_idx, final(self).source_stack@ == old(self).source_stack@,
    // what was being read is kept, and read on where it stood once the new text is used up
    final(self).outer_buf == old(self).tmp_buf,
    final(self).tmp_buf.is_some() && final(self).tmp_buf.unwrap().1 == loc && final(self).tmp_buf.unwrap().0.pos == 0
        && final(self).tmp_buf.unwrap().0.offset == 0 && final(self).tmp_buf.unwrap().0.src@ == encode_utf8(buf@),
//@ body
proof { encode_utf8_valid_utf8(buf@); lemma_encode_nonempty(buf@); is_char_boundary_start_end_of_seq(encode_utf8(buf@)); }
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn reading_replacement
//@ spec
ensures r == (match self.tmp_buf { Some((_, BufLoc::Offset(_))) => false, Some(_) => true, None => false }),
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn loc
//@ spec
requires (self.idx as int) < self.sources.len(),
ensures r.start == self.sources@[self.idx as int].pos, r.end == r.start, r.include_depth == self.idx,
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn push_source
//@ sub src_bytes.last() != Some(&$c) ==> !vx_ref_is(src_bytes.last(), $c)
//@ sub SourceLexer::new($a, $b, $c, $d, $e, $f,) ==> vx_new_source($a, $b, $c, $d)
//@ spec
requires old(self).root_wf(), old(self).next_idx.is_none(), old(self).sources.len() < 0xffff, valid_utf8(src_bytes@), src_bytes.len() < 0xffff_0000,
    old(self).sources@[old(self).idx as int].pos <= old(self).sources@[old(self).idx as int].src.len(),
ensures final(self).root_wf(), final(self).sources.len() == old(self).sources.len() + 1,
    final(self).sources@.subrange(0, old(self).sources.len() as int) =~= old(self).sources@,
    final(self).next_idx == Some(old(self).sources.len() as u16), final(self).idx == old(self).idx, final(self).source_stack@ == old(self).source_stack@,
    ({ let s = final(self).sources@.last();
       &&& s.pos == 0 && s.offset == 0 && s.leveloffset == leveloffset && s.max_include_depth == max_include_depth
       &&& s.src@ == (if src_bytes@.len() > 0 && src_bytes@.last() == 0x0a { src_bytes@ } else { src_bytes@.push(0x0a) }) }),
//@ body
proof { lemma_push_ascii(src_bytes@, 0x0a); is_char_boundary_start_end_of_seq(src_bytes@); is_char_boundary_start_end_of_seq(src_bytes@.push(0x0a)); }
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn truncate
//@ spec
requires old(self).root_wf(), old(self).tmp_buf.is_none(), old(self).next_idx.is_none(), old(self).sources@[old(self).idx as int].pos <= old(self).sources@[old(self).idx as int].src.len(),
ensures final(self).root_wf(), final(self).sources@[old(self).idx as int].src@ == old(self).sources@[old(self).idx as int].src@.subrange(0, old(self).sources@[old(self).idx as int].pos as int),
    final(self).sources@[old(self).idx as int].done_reading(),
    forall|k: int| 0 <= k < old(self).sources.len() && k != old(self).idx ==> (#[trigger] final(self).sources@[k]) == old(self).sources@[k],
//@end
//@extract parser/src/lexer/root_lexer.rs :: impl RootLexer :: fn next_token
//@ sub self.token(TokenKind::Eof, "", self.loc()) ==> vx_eof_token(self.loc())
//@ spec
requires old(self).root_wf(),
ensures final(self).same_texts(old(self)),
    final(self).root_wf() || r.kind == Eof,
    old(self).next_byte().is_none() ==> r.kind == Eof,
    old(self).next_byte().is_some() ==> r.kind != Eof && r.lexeme@.len() > 0 && r.lexeme@[0] == old(self).next_byte().unwrap() && kind_ok(r.kind, r.lexeme@),
    final(self).next_idx.is_none() || old(self).tmp_buf.is_some(), final(self).source_stack.len() <= old(self).depth(),
    old(self).tmp_buf.is_none() && r.kind != Eof ==> final(self).tmp_buf.is_none() && final(self).idx == r.loc.include_depth
        && final(self).idx == old(self).next_src()
        && final(self).idx <= (if old(self).next_idx.is_some() { old(self).next_idx.unwrap() } else { old(self).idx })
        && final(self).sources@[final(self).idx as int].covers(r, old(self).sources@[final(self).idx as int].pos as int, final(self).sources@[final(self).idx as int].pos as int)
        && (forall|k: int| 0 <= k < final(self).idx ==> final(self).sources@[k] == #[trigger] old(self).sources@[k]),
    old(self).tmp_buf.is_some() ==> final(self).sources@ == old(self).sources@ && final(self).next_src_byte() == old(self).next_src_byte()
        && buf_tok(old(self).tmp_buf.unwrap().0, old(self).tmp_buf.unwrap().1, old(self).idx, r, old(self).tmp_buf.unwrap().0.pos + r.lexeme@.len())
        && (if old(self).tmp_buf.unwrap().0.pos + r.lexeme@.len() == old(self).tmp_buf.unwrap().0.src.len() {
            final(self).tmp_buf == old(self).outer_buf && final(self).outer_buf.is_none()
        } else {
            let (t, l) = final(self).tmp_buf.unwrap();
            final(self).tmp_buf.is_some() && final(self).outer_buf == old(self).outer_buf
            && t.same(&old(self).tmp_buf.unwrap().0) && l == old(self).tmp_buf.unwrap().1 && t.pos == old(self).tmp_buf.unwrap().0.pos + r.lexeme@.len()
        }),
decreases old(self).depth(),
//@ after self.maybe_advance_source();
let ghost vx_pre = *self;
//@ before self.idx = prev_idx
proof { lemma_pop2(vx_pre.sources@, self.sources@, vx_pre.idx as int, vx_pre.source_stack@); }
//@end
}
impl SourceLexer {
    /// `is_tok` up to the source index the root lexer stamps on it
    spec fn covers(&self, t: Token, a: int, b: int) -> bool {
        &&& 0 <= a < b <= self.src.len()
        &&& t.loc.start == a + self.offset
        &&& t.loc.end == b + self.offset
        &&& t.lexeme@ == self.src@.subrange(a, b)
    }
}
/// a token of a temporary buffer: exact text of the buffer, located as the buffer asks for
spec fn buf_tok(t: SourceLexer, l: BufLoc, idx: u16, r: Token, e: int) -> bool {
    &&& e <= t.src.len()
    &&& r.lexeme@ == t.src@.subrange(t.pos as int, e)
    &&& match l {
        BufLoc::Repeat(loc) => r.loc == loc,
        BufLoc::Offset(o) => r.loc.start == t.pos + t.offset + o && r.loc.end == e + t.offset + o && r.loc.include_depth == idx,
        BufLoc::From(f) => r.loc.start == f.start + t.pos + t.offset && r.loc.end == f.start + e + t.offset && r.loc.include_depth == f.include_depth,
    }
}
proof fn lemma_push_ascii(s: Seq<u8>, b: u8)
    requires valid_utf8(s), b < 0x80,
    ensures valid_utf8(s.push(b)),
{
    assert(valid_utf8(seq![b])) by { reveal_with_fuel(valid_utf8, 3); assert(seq![b].subrange(1, 1) =~= Seq::<u8>::empty()); }
    valid_utf8_concat(s, seq![b]);
    assert(s + seq![b] =~= s.push(b));
}
/// `SourceLexer::new`: a struct literal with pos 0 and offset 0 (the model drops file, bump and plugin names)
#[verifier::external_body]
fn vx_new_source(src: Vec<u8>, file: SourceFile, leveloffset: i8, max_include_depth: Option<u16>) -> (r: SourceLexer)
    ensures r.src@ == src@, r.pos == 0, r.offset == 0, r.leveloffset == leveloffset, r.max_include_depth == max_include_depth,
{ unimplemented!() }
/// `SourceLexer::from_str`: pos 0, offset 0, the bytes of the text
#[verifier::external_body]
fn vx_tmp_source(buf: &str) -> (r: SourceLexer)
    ensures r.src@ == encode_utf8(buf@), r.pos == 0, r.offset == 0, r.leveloffset == 0, r.max_include_depth.is_none(),
{ unimplemented!() }
proof fn lemma_encode_nonempty(s: Seq<char>)
    requires s.len() > 0,
    ensures encode_utf8(s).len() > 0,
{
    reveal_with_fuel(encode_utf8, 2);
}
#[verifier::external_body]
fn vx_eof_token(loc: SourceLocation) -> (r: Token)
    ensures r.kind == Eof, r.loc == loc, r.lexeme@.len() == 0,
{ unimplemented!() }
/// what a caller that reads to the end sees: the tokens put together are the source text, nothing
/// added, dropped, repeated or reordered, and each sits where the one before it ended
spec fn cat(toks: Seq<Token>) -> Seq<u8>
    decreases toks.len(),
{
    if toks.len() == 0 { Seq::empty() } else { cat(toks.drop_last()) + toks.last().lexeme@ }
}
fn vx_lex_all(l: &mut RootLexer) -> (toks: Vec<Token>)
    requires old(l).root_wf(), old(l).tmp_buf.is_none(), old(l).next_idx.is_none(), old(l).source_stack.len() == 0,
        old(l).sources@[old(l).idx as int].pos <= old(l).sources@[old(l).idx as int].src.len(),
    ensures
        ({ let s = old(l).sources@[old(l).idx as int];
           &&& cat(toks@) == s.src@.subrange(s.pos as int, s.src@.len() as int)
           &&& forall|k: int| 0 <= k < toks.len() ==> (#[trigger] toks@[k]).lexeme@.len() > 0 && kind_ok(toks@[k].kind, toks@[k].lexeme@)
                && toks@[k].loc.include_depth == old(l).idx && toks@[k].loc.end - toks@[k].loc.start == toks@[k].lexeme@.len()
           &&& forall|k: int| 1 <= k < toks.len() ==> #[trigger] toks@[k].loc.start == toks@[k - 1].loc.end
           &&& toks.len() > 0 ==> toks@[0].loc.start == s.pos + s.offset && toks@.last().loc.end == s.src.len() + s.offset }),
{
    let mut toks: Vec<Token> = Vec::new();
    proof { let s = l.sources@[l.idx as int]; assert(s.src@.subrange(s.pos as int, s.pos as int) =~= Seq::<u8>::empty()); }
    while !l.is_eof()
        invariant
            l.root_wf(), l.tmp_buf.is_none(), l.next_idx.is_none(), l.source_stack.len() == 0, l.same_texts(old(l)), l.idx == old(l).idx,
            old(l).root_wf(), (l.idx as int) < l.sources.len(), 
            ({ let s = old(l).sources@[old(l).idx as int]; let c = l.sources@[l.idx as int];
               &&& s.pos <= c.pos <= c.src.len()
               &&& cat(toks@) == s.src@.subrange(s.pos as int, c.pos as int)
               &&& forall|k: int| 0 <= k < toks.len() ==> (#[trigger] toks@[k]).lexeme@.len() > 0 && kind_ok(toks@[k].kind, toks@[k].lexeme@)
                    && toks@[k].loc.include_depth == old(l).idx && toks@[k].loc.end - toks@[k].loc.start == toks@[k].lexeme@.len()
               &&& forall|k: int| 1 <= k < toks.len() ==> #[trigger] toks@[k].loc.start == toks@[k - 1].loc.end
               &&& (toks.len() > 0 ==> toks@[0].loc.start == s.pos + s.offset && toks@.last().loc.end == c.pos + s.offset)
               &&& (toks.len() == 0 ==> c.pos == s.pos) }),
        ensures l.exhausted(),
        decreases l.sources@[l.idx as int].src.len() - l.sources@[l.idx as int].pos,
    {
        let ghost a = l.sources@[l.idx as int];
        let ghost before = toks@;
        let ghost pre = *l;
        let t = l.next_token();
        toks.push(t);
        proof {
            let s = old(l).sources@[old(l).idx as int];
            let c = l.sources@[l.idx as int];
            lemma_reading(pre.sources@, pre.idx as int, pre.source_stack@, 0);
            assert(toks@.drop_last() =~= before);
            assert(s.src@.subrange(s.pos as int, c.pos as int) =~= s.src@.subrange(s.pos as int, a.pos as int) + s.src@.subrange(a.pos as int, c.pos as int));
        }
    }
    toks
}
}
fn main() {}
