//@include prelude.inc
verus! {
// unit: which substitutions the inline parser does (parser/src/tasks/parse_inlines/mod.rs, inline_utils.rs)
//@item parser/src/substitutions.rs :: - :: enum Subs
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item parser/src/substitutions.rs :: - :: struct Substitutions
//@ attr #[derive(Clone, Copy)]
//@end
//@item parser/src/token.rs :: - :: enum TokenKind
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ sub #[default] ==>
//@end
spec fn asks(s: Substitutions, b: u8) -> bool { s.flags & b != 0 }
spec fn special(s: Substitutions) -> bool { asks(s, 1) }
spec fn quotes(s: Substitutions) -> bool { asks(s, 2) }
spec fn refs(s: Substitutions) -> bool { asks(s, 4) }
spec fn replacements(s: Substitutions) -> bool { asks(s, 8) }
spec fn macros(s: Substitutions) -> bool { asks(s, 16) }
spec fn post(s: Substitutions) -> bool { asks(s, 32) }
spec fn callouts(s: Substitutions) -> bool { asks(s, 64) }
//@gsub Subs::SPECIAL_CHARS ==> 1
//@gsub Subs::INLINE_FORMATTING ==> 2
//@gsub Subs::ATTR_REFS ==> 4
//@gsub Subs::CHAR_REPLACEMENT ==> 8
//@gsub Subs::MACROS ==> 16
//@gsub Subs::POST_REPLACEMENT ==> 32
//@gsub Subs::CALLOUTS ==> 64
// the bits of the list, one for each substitution
//@expect parser/src/substitutions.rs :: const SPECIAL_CHARS: u8 = 0b_00000001;
//@expect parser/src/substitutions.rs :: const INLINE_FORMATTING: u8 = 0b_00000010;
//@expect parser/src/substitutions.rs :: const ATTR_REFS: u8 = 0b_00000100;
//@expect parser/src/substitutions.rs :: const CHAR_REPLACEMENT: u8 = 0b_00001000;
//@expect parser/src/substitutions.rs :: const MACROS: u8 = 0b_00010000;
//@expect parser/src/substitutions.rs :: const POST_REPLACEMENT: u8 = 0b_00100000;
//@expect parser/src/substitutions.rs :: const CALLOUTS: u8 = 0b_01000000;
spec fn verbatim_only(s: Substitutions) -> bool { !quotes(s) && !refs(s) && !replacements(s) && !macros(s) && !post(s) }
spec fn nothing(s: Substitutions) -> bool { verbatim_only(s) && !special(s) && !callouts(s) }
impl Substitutions {
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn special_chars
//@ spec
    ensures r == special(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn inline_formatting
//@ spec
    ensures r == quotes(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn attr_refs
//@ spec
    ensures r == refs(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn char_replacement
//@ spec
    ensures r == replacements(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn macros
//@ spec
    ensures r == macros(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn post_replacement
//@ spec
    ensures r == post(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn callouts
//@ spec
    ensures r == callouts(*self),
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn verbatim
//@ spec
    ensures verbatim_only(r), special(r), callouts(r),
//@ body
    proof { assert(0b_01000001u8 & 1 != 0 && 0b_01000001u8 & 2 == 0 && 0b_01000001u8 & 4 == 0 && 0b_01000001u8 & 8 == 0 && 0b_01000001u8 & 16 == 0 && 0b_01000001u8 & 32 == 0 && 0b_01000001u8 & 64 != 0) by (compute); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn normal
//@ spec
    ensures special(r), quotes(r), refs(r), replacements(r), macros(r), post(r), !callouts(r),
//@ body
    proof { assert(0b_00111111u8 & 1 != 0 && 0b_00111111u8 & 2 != 0 && 0b_00111111u8 & 4 != 0 && 0b_00111111u8 & 8 != 0 && 0b_00111111u8 & 16 != 0 && 0b_00111111u8 & 32 != 0 && 0b_00111111u8 & 64 == 0) by (compute); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn only_special_chars
//@ spec
    ensures verbatim_only(r), special(r), !callouts(r),
//@ body
    proof { assert(1u8 & 1 != 0 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0 && 1u8 & 16 == 0 && 1u8 & 32 == 0 && 1u8 & 64 == 0) by (compute); }
//@end
//@extract parser/src/substitutions.rs :: impl Substitutions :: fn none
//@ spec
    ensures nothing(r),
//@ body
    proof { assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 0u8 & 16 == 0 && 0u8 & 32 == 0 && 0u8 & 64 == 0) by (compute); }
//@end
/// text in plus signs is passed through: with its special characters escaped, or (three of them) as it is
//@extract parser/src/tasks/parse_inlines/inline_utils.rs :: impl Substitutions :: fn from_pass_plus_len
//@ spec
    ensures verbatim_only(r), !callouts(r), special(r) == (len != 3),
//@end
/// a backslash is dropped only where a substitution would have been done
//@extract parser/src/tasks/parse_inlines/inline_utils.rs :: impl Substitutions :: fn escapable
//@ spec
    ensures
        nothing(*self) || verbatim_only(*self) && !callouts(*self) ==> (r ==> kind == TokenKind::Directive),
        verbatim_only(*self) ==> (r ==> kind == TokenKind::Directive || kind == TokenKind::CalloutNumber),
        kind == TokenKind::AttrRef ==> r == refs(*self),
        kind == TokenKind::CalloutNumber ==> r == callouts(*self),
//@end
}
//@item ast/src/table.rs :: - :: enum CellContentStyle
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ sub #[default] ==>
//@end
/// only a literal cell is verbatim
//@extract parser/src/substitutions.rs :: impl From<CellContentStyle> for Substitutions :: fn from
//@ rename subs_of_cell
//@ sub Self ==> Substitutions
//@ spec
    ensures
        style == CellContentStyle::Literal ==> verbatim_only(r) && special(r),
        style != CellContentStyle::Literal ==> special(r) && quotes(r) && refs(r) && replacements(r) && macros(r) && post(r) && !callouts(r),
//@end
// ---- what a block asks for ----
//@item ast/src/block.rs :: - :: enum BlockContext
//@ attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
#[verifier::external_body]
pub struct ChunkMeta { x: u8 }
uninterp spec fn has_subs(m: ChunkMeta) -> bool;
uninterp spec fn source_style(m: ChunkMeta) -> bool;
#[verifier::external_body]
fn vx_source_style(m: &ChunkMeta) -> (r: bool)
    ensures r == source_style(*m),
{ unimplemented!() }
/// contract proved of the code in unit `subs`
#[verifier::external_body]
fn from_meta(current: Substitutions, m: &ChunkMeta) -> (r: Substitutions)
    ensures !has_subs(*m) ==> r == current,
{ unimplemented!() }
struct Ctx { subs: Substitutions }
impl Ctx {
/// without a `subs` attribute: a passthrough block has no substitutions done, a listing or literal block only special characters and
/// callouts, any other block those of what it is in; the substitutions in effect before are returned
//@extract parser/src/parse_context.rs :: impl ParseContext :: fn set_subs_for
//@ sub meta . attrs . has_str_positional ( "source" ) ==> vx_source_style(meta)
//@ sub customize_subs :: from_meta ( self . subs , & meta . attrs ) ==> from_meta(self.subs, meta)
//@ spec
    ensures
        r == old(self).subs,
        !has_subs(*meta) && block_context == BlockContext::Passthrough ==> nothing(final(self).subs),
        !has_subs(*meta) && (block_context == BlockContext::Listing || block_context == BlockContext::Literal) ==> verbatim_only(final(self).subs) && special(final(self).subs) && callouts(final(self).subs),
        !has_subs(*meta) && block_context == BlockContext::Paragraph && source_style(*meta) ==> verbatim_only(final(self).subs) && special(final(self).subs) && callouts(final(self).subs),
        !has_subs(*meta) && block_context != BlockContext::Passthrough && block_context != BlockContext::Listing && block_context != BlockContext::Literal
            && !(block_context == BlockContext::Paragraph && source_style(*meta)) ==> final(self).subs == old(self).subs,
//@end
}
// ---- the inline parser: no construct but of a substitution that is asked for ----
#[verifier::external_body]
fn vx_any() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
fn vx_any_kind() -> (r: TokenKind) { unimplemented!() }
fn vx_quoted(s: Substitutions) requires quotes(s) {}
fn vx_replaced(s: Substitutions) requires replacements(s) {}
fn vx_macro(s: Substitutions) requires macros(s) {}
fn vx_callout(s: Substitutions) requires callouts(s) {}
fn vx_post(s: Substitutions) requires post(s) {}
fn vx_escaped(s: Substitutions) requires special(s) {}
fn vx_missing(s: Substitutions) requires refs(s) {}
/// text written as it is: no special character that is to be escaped, no character reference where they aren't kept
fn vx_raw(s: Substitutions, kind: TokenKind)
    requires
        special(s) ==> kind != TokenKind::LessThan && kind != TokenKind::GreaterThan && kind != TokenKind::CalloutNumber && kind != TokenKind::AttrDef,
        special(s) && !replacements(s) ==> kind != TokenKind::Ampersand && kind != TokenKind::Entity,
{}
/// dropped: a reference only where references are resolved
fn vx_dropped(s: Substitutions, kind: TokenKind)
    requires kind == TokenKind::AttrRef ==> refs(s),
{}
//@skeleton parser/src/tasks/parse_inlines/mod.rs :: impl Parser :: fn parse_inlines_until
//@ tracked subs special_chars inline_formatting attr_refs char_replacement macros post_replacement callouts
//@ kindof token parser/src/token.rs
//@ param vx_subs: Substitutions
//@ effect Symbol ( ==> vx_replaced(vx_subs);
//@ effect push_emdash ( ==> vx_replaced(vx_subs);
//@ effect LineBreak ==> vx_post(vx_subs);
//@ effect span ( ==> vx_quoted(vx_subs);
//@ effect Quote ( ==> vx_quoted(vx_subs);
//@ effect CurlyQuote ( ==> vx_quoted(vx_subs);
//@ effect MultiCharWhitespace ( ==> vx_quoted(vx_subs);
//@ effect parse_formatted_text_attr_list ( ==> vx_quoted(vx_subs);
//@ effect Macro ( ==> vx_macro(vx_subs);
//@ effect InlineAnchor ( ==> vx_macro(vx_subs);
//@ effect BiblioAnchor ( ==> vx_macro(vx_subs);
//@ effect push_xref ( ==> vx_macro(vx_subs);
//@ effect insert_anchor ( ==> vx_macro(vx_subs);
//@ effect parse_uri_scheme_macro ( ==> vx_macro(vx_subs);
//@ effect parse_index_term_shorthand ( ==> vx_macro(vx_subs);
//@ effect parse_index_term_macro ( ==> vx_macro(vx_subs);
//@ effect parse_kbd_macro ( ==> vx_macro(vx_subs);
//@ effect CalloutNum ( ==> vx_callout(vx_subs);
//@ effect push_callout ( ==> vx_callout(vx_subs);
//@ effect push_callout_tuck ( ==> vx_callout(vx_subs);
//@ effect recover_custom_line_comment ( ==> vx_callout(vx_subs);
//@ effect SpecialChar ( ==> vx_escaped(vx_subs);
//@ effect push_literal ( ==> vx_escaped(vx_subs);
//@ effect push_unused_callout_number ( ==> vx_escaped(vx_subs);
//@ effect keeps_missing_attr_ref ( ==> vx_missing(vx_subs);
//@ effect drops_missing_attr_ref_line ( ==> vx_missing(vx_subs);
//@ effect push_text_token ( & token ) ==> vx_raw(vx_subs, vx_kind);
//@ effect Text ( token . lexeme ) ==> vx_raw(vx_subs, vx_kind);
//@ effect push_node ( Discarded , token . loc ) ==> vx_dropped(vx_subs, vx_kind);
//@end
} // verus!
fn main() {}
