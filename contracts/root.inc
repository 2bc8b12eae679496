verus! {
//@gsub BumpVec<'arena, SourceLexer> ==> Vec<SourceLexer>
//@item parser/src/lexer/root_lexer.rs :: - :: enum BufLoc
//@end
//@item parser/src/lexer/root_lexer.rs :: - :: struct RootLexer
//@end
impl RootLexer {
    spec fn root_wf(&self) -> bool {
        let n = self.sources.len();
        let m = self.source_stack.len();
        &&& n <= 0xffff
        &&& (self.idx as int) < n
        &&& (match self.next_idx { Some(i) => self.idx < i && (i as int) < n && !self.sources@[i as int].done_reading()
                && self.sources@[self.idx as int].pos <= self.sources@[self.idx as int].src.len(), None => true })
        &&& forall|k: int| #![trigger self.source_stack@[k]] 0 <= k < m ==> self.source_stack@[k] < self.idx
                && self.sources@[self.source_stack@[k] as int].pos <= self.sources@[self.source_stack@[k] as int].src.len()
        &&& forall|j: int, k: int| 0 <= j < k < m ==> self.source_stack@[j] < self.source_stack@[k]
        &&& (m > 0 ==> self.sources@[self.idx as int].pos <= self.sources@[self.idx as int].src.len())
        &&& forall|k: int| 0 <= k < n ==> (#[trigger] self.sources@[k]).good()
        &&& (match self.tmp_buf { Some(b) => buf_ok(b), None => self.outer_buf.is_none() })
        &&& (match self.outer_buf { Some(b) => buf_ok(b), None => true })
    }
    /// the source texts, offsets and level offsets are never touched
    spec fn same_texts(&self, o: &RootLexer) -> bool {
        self.sources.len() == o.sources.len() && forall|k: int| 0 <= k < o.sources.len() ==> (#[trigger] self.sources@[k]).same(&o.sources@[k])
    }
    /// the next byte of the document: pushed source, else current source, else the nearest suspended
    /// source that still has text
    spec fn next_byte(&self) -> Option<u8> {
        match self.tmp_buf {
            Some((t, _)) => first_of(t),
            None => self.next_src_byte(),
        }
    }
    spec fn next_src_byte(&self) -> Option<u8> {
        match self.next_idx {
            Some(i) => first_of(self.sources@[i as int]),
            None => reading_byte(self.sources@, self.idx as int, self.source_stack@, self.source_stack.len() as int),
        }
    }
    /// the source the next byte comes from
    spec fn next_src(&self) -> int {
        match self.next_idx {
            Some(i) => i as int,
            None => reading(self.sources@, self.idx as int, self.source_stack@, self.source_stack.len() as int),
        }
    }
    /// nothing left anywhere
    spec fn exhausted(&self) -> bool {
        self.next_idx.is_none() && self.sources@[self.idx as int].done_reading()
        && forall|k: int| 0 <= k < self.source_stack.len() ==> self.sources@[(#[trigger] self.source_stack@[k]) as int].done_reading()
    }
    spec fn depth(&self) -> int { self.source_stack.len() + (if self.next_idx.is_some() { 1int } else { 0 }) }
}
/// a temporary buffer that still has something to read
spec fn buf_ok(b: (SourceLexer, BufLoc)) -> bool {
    b.0.good() && !b.0.done_reading() && (match b.1 {
        BufLoc::Repeat(_) => true,
        BufLoc::Offset(o) => b.0.src.len() + b.0.offset + o <= 0xffff_ff00,
        BufLoc::From(f) => b.0.src.len() + b.0.offset + f.start <= 0xffff_ff00,
    })
}
spec fn first_of(s: SourceLexer) -> Option<u8> { if !s.done_reading() { Some(s.src@[s.pos as int]) } else { None } }
spec fn reading_byte(sources: Seq<SourceLexer>, cur: int, stack: Seq<u16>, n: int) -> Option<u8>
    decreases n,
{
    if !sources[cur].done_reading() { first_of(sources[cur]) }
    else if n <= 0 { None } else { reading_byte(sources, stack[n - 1] as int, stack, n - 1) }
}
spec fn reading(sources: Seq<SourceLexer>, cur: int, stack: Seq<u16>, n: int) -> int
    decreases n,
{
    if !sources[cur].done_reading() || n <= 0 { cur } else { reading(sources, stack[n - 1] as int, stack, n - 1) }
}
proof fn lemma_reading(sources: Seq<SourceLexer>, cur: int, stack: Seq<u16>, n: int)
    requires 0 <= n <= stack.len(),
    ensures
        reading_byte(sources, cur, stack, n) == first_of(sources[reading(sources, cur, stack, n)]),
        reading_byte(sources, cur, stack, n).is_none() <==> (sources[cur].done_reading()
            && forall|k: int| 0 <= k < n ==> sources[(#[trigger] stack[k]) as int].done_reading()),
    decreases n,
{
    if sources[cur].done_reading() && n > 0 {
        lemma_reading(sources, stack[n - 1] as int, stack, n - 1);
        if reading_byte(sources, stack[n - 1] as int, stack, n - 1).is_none() {
            assert forall|k: int| 0 <= k < n implies sources[(#[trigger] stack[k]) as int].done_reading() by { if k == n - 1 {} else {} }
        }
    }
}
/// what was beyond the top of the stack does not matter
proof fn lemma_reading_ext(a: Seq<SourceLexer>, b: Seq<SourceLexer>, cur: int, s: Seq<u16>, t: Seq<u16>, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), s.subrange(0, n) =~= t.subrange(0, n), a.len() == b.len(), 0 <= cur < a.len(), a[cur] == b[cur],
        forall|k: int| 0 <= k < n ==> (#[trigger] s[k] as int) < a.len() && a[s[k] as int] == b[s[k] as int],
    ensures reading_byte(a, cur, s, n) == reading_byte(b, cur, t, n), reading(a, cur, s, n) == reading(b, cur, t, n),
    decreases n,
{
    if a[cur].done_reading() && n > 0 {
        assert(s[n - 1] == s.subrange(0, n)[n - 1]);
        assert(t[n - 1] == t.subrange(0, n)[n - 1]);
        assert(s.subrange(0, n - 1) =~= s.subrange(0, n).subrange(0, n - 1));
        assert(t.subrange(0, n - 1) =~= t.subrange(0, n).subrange(0, n - 1));
        lemma_reading_ext(a, b, s[n - 1] as int, s, t, n - 1);
    }
}
proof fn lemma_pop(a: Seq<SourceLexer>, cur: int, s: Seq<u16>)
    requires s.len() > 0, 0 <= cur < a.len(), a[cur].done_reading(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] as int) < a.len(),
    ensures reading_byte(a, cur, s, s.len() as int) == reading_byte(a, s.last() as int, s.drop_last(), s.len() - 1),
        reading(a, cur, s, s.len() as int) == reading(a, s.last() as int, s.drop_last(), s.len() - 1),
{
    let n = s.len() - 1;
    assert(s.subrange(0, n) =~= s.drop_last().subrange(0, n));
    lemma_reading_ext(a, a, s.last() as int, s, s.drop_last(), n);
}
/// advancing the (exhausted) current source leaves what the suspended ones offer unchanged
proof fn lemma_pop2(a: Seq<SourceLexer>, b: Seq<SourceLexer>, cur: int, s: Seq<u16>)
    requires s.len() > 0, 0 <= cur < a.len(), a.len() == b.len(), a[cur].done_reading(),
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] as int) < cur,
        forall|k: int| 0 <= k < a.len() && k != cur ==> #[trigger] a[k] == b[k],
    ensures reading_byte(a, cur, s, s.len() as int) == reading_byte(b, s.last() as int, s.drop_last(), s.len() - 1),
        reading(a, cur, s, s.len() as int) == reading(b, s.last() as int, s.drop_last(), s.len() - 1),
{
    let n = s.len() - 1;
    lemma_pop(a, cur, s);
    assert(s.drop_last().subrange(0, n) =~= s.drop_last());
    assert forall|k: int| 0 <= k < n implies (#[trigger] s.drop_last()[k] as int) < a.len() && a[s.drop_last()[k] as int] == b[s.drop_last()[k] as int] by { assert(s.drop_last()[k] == s[k]); }
    lemma_reading_ext(a, b, s.last() as int, s.drop_last(), s.drop_last(), n);
}
}
