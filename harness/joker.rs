// Analysis roots for the tokenizer: instantiates the public API with an opaque
// character source.  Never executed; only its MIR is read.
extern crate joker;
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::{Token, TokenData, NumberLiteral, StringLiteral, RegExpLiteral, NumberSource, Radix};
use joker::track::{Posn, Span, span, Untrack};
use joker::word::{Atom, Name, Reserved, Map, Word};

pub struct Source(u32);
#[inline(never)]
pub fn opaque_next(_: &mut Source) -> Option<char> { None }
impl Iterator for Source {
    type Item = char;
    fn next(&mut self) -> Option<char> { opaque_next(self) }
}

pub fn root_new(s: Source) -> Lexer<Source> { Lexer::new(s) }
pub fn root_read(l: &mut Lexer<Source>, op: bool) -> Result<Token, Error> { l.read_token(op) }
pub fn root_peek(l: &mut Lexer<Source>, op: bool) -> Result<&Token, Error> { l.peek_token(op) }
pub fn root_skip(l: &mut Lexer<Source>, op: bool) -> Result<(), Error> { l.skip_token(op) }
pub fn root_repeek(l: &mut Lexer<Source>) -> &Token { l.repeek_token() }
pub fn root_reread(l: &mut Lexer<Source>) -> Token { l.reread_token() }
pub fn root_unread(l: &mut Lexer<Source>, t: Token) { l.unread_token(t) }
pub fn root_posn(l: &Lexer<Source>) -> Posn { l.posn() }

pub fn root_reserved_name(r: Reserved) -> &'static str { r.name() }
pub fn root_atom_name(r: Atom) -> &'static str { r.name() }
pub fn root_name_from(s: String) -> Name { Name::from(s) }
pub fn root_name_atom(n: &Name) -> Option<Atom> { n.atom() }
pub fn root_name_string(n: Name) -> String { n.into_string() }
pub fn root_name_asref(n: &Name) -> &str { n.as_ref() }
pub fn root_map_new() -> Map { Map::new() }
pub fn root_map_tokenize(m: &Map, w: Word) -> Result<TokenData, Error> { m.tokenize(w) }

pub fn root_number_value(n: &NumberSource) -> f64 { n.value() }
pub fn root_number_token(n: NumberSource) -> TokenData { n.into_token_data() }
pub fn root_radix_value(n: &Radix) -> u32 { n.value() }
pub fn root_number_eq(a: &NumberLiteral, b: &NumberLiteral) -> bool { a == b }
pub fn root_string_eq(a: &StringLiteral, b: &StringLiteral) -> bool { a == b }
pub fn root_regexp_eq(a: &RegExpLiteral, b: &RegExpLiteral) -> bool { a == b }
pub fn root_error_display(e: &Error, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
pub fn root_span(a: &Option<Span>, b: &Option<Span>) -> Option<Span> { span(a, b) }
pub fn root_untrack_span(a: &mut Option<Span>) { a.untrack() }
pub fn root_is_string(t: &TokenData) -> bool { t.is_string() }
