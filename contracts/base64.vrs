//@include prelude.inc
verus! {
// unit: base64 encoder of embedded (data-uri) bytes

// ---- trusted model of bumpalo's String: a sequence of chars ----
#[verifier::external_body]
pub struct BumpString { s: String }
#[verifier::external_body]
pub struct Bump { x: u8 }
impl View for BumpString {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}
impl BumpString {
    #[verifier::external_body]
    fn with_capacity_in(n: usize, b: &Bump) -> (r: BumpString)
        ensures r@ == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn new_in(b: &Bump) -> (r: BumpString)
        ensures r@ == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, c: char)
        ensures final(self)@ == old(self)@.push(c),
    { unimplemented!() }
    #[verifier::external_body]
    fn extend<const N: usize>(&mut self, cs: [char; N])
        ensures final(self)@ == old(self)@ + cs@,
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_div_ceil(a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r <= a,
{ a.div_ceil(b) }
#[verifier::external_body]
fn vx_cap_mul(a: usize, b: usize) -> (r: usize)
{ a * b }
/// `slice.chunks(k)`: the chunk starting at i
#[verifier::external_body]
fn vx_chunk(s: &[u8], i: usize, k: usize) -> (r: &[u8])
    requires i < s.len(), k > 0,
    ensures
        i + k <= s.len() ==> r@ == s@.subrange(i as int, i + k),
        i + k > s.len() ==> r@ == s@.subrange(i as int, s.len() as int),
{ &s[i..if s.len() - i > k { i + k } else { s.len() }] }

// ---- specification (RFC 4648 section 4) ----
spec fn b64_char(n: int) -> char {
    if 0 <= n < 26 { (65 + n) as u8 as char }
    else if n < 52 { (97 + n - 26) as u8 as char }
    else if n < 62 { (48 + n - 52) as u8 as char }
    else if n == 62 { '+' } else { '/' }
}
spec fn b64_val(c: char) -> int {
    let x = c as u32 as int;
    if 65 <= x <= 90 { x - 65 } else if 97 <= x <= 122 { x - 97 + 26 } else if 48 <= x <= 57 { x - 48 + 52 }
    else if x == 43 { 62 } else if x == 47 { 63 } else { -1 }
}
/// standard decoder, on integers: four characters -> three, two or one byte
spec fn dec(s: Seq<char>) -> Seq<int>
    decreases s.len(),
{
    if s.len() < 4 { Seq::empty() } else {
        let a = b64_val(s[0]); let b = b64_val(s[1]); let c = b64_val(s[2]); let d = b64_val(s[3]);
        let head = if s[2] == '=' { seq![a * 4 + b / 16] }
            else if s[3] == '=' { seq![a * 4 + b / 16, (b % 16) * 16 + c / 4] }
            else { seq![a * 4 + b / 16, (b % 16) * 16 + c / 4, (c % 4) * 64 + d] };
        head + dec(s.subrange(4, s.len() as int))
    }
}
spec fn ints(b: Seq<u8>) -> Seq<int> { b.map_values(|x: u8| x as int) }
spec fn enc(b: Seq<u8>) -> Seq<char>
    decreases b.len(),
{
    if b.len() == 0 { Seq::empty() }
    else if b.len() == 1 { seq![b64_char(b[0] as int / 4), b64_char((b[0] as int % 4) * 16), '=', '='] }
    else if b.len() == 2 { seq![b64_char(b[0] as int / 4), b64_char((b[0] as int % 4) * 16 + b[1] as int / 16), b64_char((b[1] as int % 16) * 4), '='] }
    else {
        seq![b64_char(b[0] as int / 4), b64_char((b[0] as int % 4) * 16 + b[1] as int / 16),
             b64_char((b[1] as int % 16) * 4 + b[2] as int / 64), b64_char(b[2] as int % 64)]
        + enc(b.subrange(3, b.len() as int))
    }
}
proof fn lemma_char_val(n: int)
    requires 0 <= n < 64,
    ensures b64_val(b64_char(n)) == n, b64_char(n) != '=',
{
}
/// every encoding decodes to the encoded bytes
proof fn theorem_roundtrip(b: Seq<u8>)
    ensures dec(enc(b)) == ints(b), enc(b).len() == ((b.len() + 2) / 3) * 4,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(dec(enc(b)) =~= ints(b));
    } else {
        let x = b[0] as int;
        lemma_char_val(x / 4);
        let e = enc(b);
        if b.len() == 1 {
            lemma_char_val((x % 4) * 16);
            assert(e.subrange(4, e.len() as int) =~= Seq::empty());
            assert(dec(e.subrange(4, e.len() as int)) =~= Seq::<int>::empty());
            assert(dec(enc(b)) =~= ints(b));
        } else if b.len() == 2 {
            let y = b[1] as int;
            lemma_char_val((x % 4) * 16 + y / 16);
            lemma_char_val((y % 16) * 4);
            assert(e.subrange(4, e.len() as int) =~= Seq::empty());
            assert(dec(e.subrange(4, e.len() as int)) =~= Seq::<int>::empty());
            assert(dec(enc(b)) =~= ints(b));
        } else {
            let y = b[1] as int; let z = b[2] as int;
            lemma_char_val((x % 4) * 16 + y / 16);
            lemma_char_val((y % 16) * 4 + z / 64);
            lemma_char_val(z % 64);
            let rest = b.subrange(3, b.len() as int);
            theorem_roundtrip(rest);
            assert(e.subrange(4, e.len() as int) =~= enc(rest));
            assert(ints(b) =~= seq![x, y, z] + ints(rest));
            assert(dec(enc(b)) =~= ints(b));
        }
    }
}
proof fn lemma_bits(a: u8, b: u8, c: u8)
    ensures
        (a >> 2) as int == a as int / 4,
        ((a << 4 | b >> 4) & 0b111111) as int == (a as int % 4) * 16 + b as int / 16,
        ((b << 2 | c >> 6) & 0b111111) as int == (b as int % 16) * 4 + c as int / 64,
        (c & 0b111111) as int == c as int % 64,
        (b << 2 & 0b111111) as int == (b as int % 16) * 4,
        (a << 4 & 0b111111) as int == (a as int % 4) * 16,
        a >> 2 < 64, c & 0b111111 < 64,
        (a << 4 | b >> 4) & 0b111111 < 64, (b << 2 | c >> 6) & 0b111111 < 64,
        b << 2 & 0b111111 < 64, a << 4 & 0b111111 < 64,
{
    assert((a >> 2) == a / 4) by(bit_vector);
    assert(((a << 4 | b >> 4) & 0b111111) == (a % 4) * 16 + b / 16) by(bit_vector);
    assert(((b << 2 | c >> 6) & 0b111111) == (b % 16) * 4 + c / 64) by(bit_vector);
    assert((c & 0b111111) == c % 64) by(bit_vector);
    assert((b << 2 & 0b111111) == (b % 16) * 4) by(bit_vector);
    assert((a << 4 & 0b111111) == (a % 4) * 16) by(bit_vector);
}
/// the encoding of a prefix of whole chunks, extended by one more chunk
proof fn lemma_enc_snoc(p: Seq<u8>, ch: Seq<u8>)
    requires p.len() % 3 == 0, 1 <= ch.len() <= 3,
    ensures enc(p + ch) == enc(p) + enc(ch),
    decreases p.len(),
{
    if p.len() == 0 {
        assert(p + ch =~= ch);
        assert(enc(p) + enc(ch) =~= enc(ch));
    } else {
        let t = p + ch;
        let pr = p.subrange(3, p.len() as int);
        assert(t.subrange(3, t.len() as int) =~= pr + ch);
        lemma_enc_snoc(pr, ch);
        assert(enc(t) =~= enc(p) + enc(ch));
    }
}
proof fn lemma_enc3(ch: Seq<u8>)
    requires ch.len() == 3,
    ensures enc(ch) == seq![b64_char(ch[0] as int / 4), b64_char((ch[0] as int % 4) * 16 + ch[1] as int / 16),
             b64_char((ch[1] as int % 16) * 4 + ch[2] as int / 64), b64_char(ch[2] as int % 64)],
{
    assert(ch.subrange(3, 3) =~= Seq::empty());
    assert(enc(ch.subrange(3, 3)) =~= Seq::<char>::empty());
    assert(enc(ch) =~= seq![b64_char(ch[0] as int / 4), b64_char((ch[0] as int % 4) * 16 + ch[1] as int / 16),
             b64_char((ch[1] as int % 16) * 4 + ch[2] as int / 64), b64_char(ch[2] as int % 64)]);
}

// ---- the real encoder ----
//@extract parser/src/base64.rs :: - :: fn encode_in
//@ sub <'a> ==>
//@ sub &'a Bump ==> &Bump
//@ sub bytes.len().div_ceil(3) * 4 ==> vx_cap_mul(vx_div_ceil(bytes.len(), 3), 4)
//@ sub |index: u8| alphabet[index as usize] as char ==> |index: u8| -> (c: char) requires index < 64 ensures c == b64_char(index as int) { alphabet[index as usize] as char }
//@ for 0 chunks
//@ spec
    ensures r@ == enc(bytes@), dec(r@) == ints(bytes@),
//@ body
    proof { theorem_roundtrip(bytes@); assert(bytes@.subrange(0, 0) =~= Seq::empty()); assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@);
        assert(enc(Seq::<u8>::empty()) =~= Seq::<char>::empty()); }
//@ loop 0
    invariant
        vx_s0@ == bytes@, vx_k0 == 3, vx_i0 <= bytes.len(),
        vx_i0 % 3 == 0 || vx_i0 == bytes.len(),
        out@ == enc(bytes@.subrange(0, vx_i0 as int)),
        forall|i: u8| i < 64 ==> call_requires(digit, (i,)),
        forall|i: u8, c: char| call_ensures(digit, (i,), c) ==> c == b64_char(i as int),
    decreases bytes.len() - vx_i0,
//@ loopbody 0
    proof {
        let rest = vx_s0.len() - vx_i0; let n: int = if rest > 3 { 3 } else { rest };
        let ch = bytes@.subrange(vx_i0 as int, vx_i0 + n);
        assert(bytes@.subrange(0, vx_i0 + n) =~= bytes@.subrange(0, vx_i0 as int) + ch);
        lemma_enc_snoc(bytes@.subrange(0, vx_i0 as int), ch);
        let z = 0u8;
        lemma_bits(ch[0], if n > 1 { ch[1] } else { z }, if n > 2 { ch[2] } else { z });
        if n == 3 { lemma_enc3(ch); }
    }
    let ghost vx_o = out@;
//@ tail
//@end
}
fn main() {}
