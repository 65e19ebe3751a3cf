#![allow(dead_code)]
extern crate joker;
extern crate easter;
use std::fmt;
use std::str::FromStr;
use joker::track::*;
use joker::token::Token;
use easter::id::*;
use easter::fun::*;
use easter::obj::*;
use easter::stmt::*;
use easter::expr::*;
use easter::decl::*;
use easter::patt::*;
use easter::punc::*;
use easter::cover::*;

// every node type, by way of the two that contain them all
pub fn root_untrack_script(x: &mut Script) { x.untrack() }
pub fn root_untrack_module(x: &mut Module) { x.untrack() }

macro_rules! loc {
    ($($m:ident: $t:ty),*) => { $(pub mod $m {
        use super::*;
        pub fn root_ref(x: &$t) -> &Option<Span> { x.tracking_ref() }
        pub fn root_mut(x: &mut $t) -> &mut Option<Span> { x.tracking_mut() }
    })* }
}
loc!(expr: Expr, item: ExprListItem, stmt: Stmt, block: Block, script: Script, module: Module, forhead: ForHead,
     forin: ForInHead, forof: ForOfHead, catch: Catch, case: Case, dir: Dir, moditem: ModItem, sli: StmtListItem,
     import: Import, export: Export, decl: Decl, dtor: Dtor, cdtor: ConstDtor, rest: RestPatt<Id>, resta: RestPatt<AssignTarget>,
     comp: CompoundPatt<Id>, compa: CompoundPatt<AssignTarget>, pp: PropPatt<Id>, ppa: PropPatt<AssignTarget>, patt: Patt<Id>,
     patta: Patt<AssignTarget>, at: AssignTarget, id: Id, params: Params, fun: Fun<Id>, funo: Fun<Option<Id>>, funk: Fun<PropKey>,
     dotkey: DotKey, prop: Prop, propkey: PropKey, propval: PropVal, unop: Unop, binop: Binop, logop: Logop, assop: Assop);

pub fn root_expr_eq(a: &Expr, b: &Expr) -> bool { a == b }

pub fn root_unop_parse(s: &str) -> Result<UnopTag, ()> { UnopTag::from_str(s) }
pub fn root_binop_parse(s: &str) -> Result<BinopTag, ()> { BinopTag::from_str(s) }
pub fn root_logop_parse(s: &str) -> Result<LogopTag, ()> { LogopTag::from_str(s) }
pub fn root_assop_parse(s: &str) -> Result<AssopTag, ()> { AssopTag::from_str(s) }
pub fn root_op_parse(s: &str) -> Result<Binop, ()> { Binop::from_str(s) }
pub fn root_binop_show(x: &BinopTag, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(x, f) }
pub fn root_logop_show(x: &LogopTag, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(x, f) }
pub fn root_assop_show(x: &AssopTag, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(x, f) }
pub fn root_binop_prec(x: &BinopTag) -> u32 { x.precedence() }
pub fn root_logop_prec(x: &LogopTag) -> u32 { x.precedence() }
pub fn root_assop_prec(x: &AssopTag) -> u32 { x.precedence() }
pub fn root_op_prec(x: &Binop) -> u32 { x.precedence() }
pub fn root_to_binop(t: &Token, allow_in: bool) -> Option<Binop> { t.to_binop(allow_in) }
pub fn root_to_logop(t: &Token) -> Option<Logop> { t.to_logop() }
pub fn root_to_assop(t: &Token) -> Option<Assop> { t.to_assop() }

pub fn root_assign_target(e: Expr) -> Result<AssignTarget, Error> { e.into_assign_target() }
pub fn root_assign_patt(e: Expr) -> Result<Patt<AssignTarget>, Error> { e.into_assign_patt() }
pub fn root_assign_prop(p: Prop) -> Result<PropPatt<AssignTarget>, Error> { p.into_assign_prop() }

pub fn root_id_new(n: joker::word::Name, l: Option<Span>) -> Id { Id::new(n, l) }
pub fn root_id_patt(i: Id) -> Patt<Id> { i.into_patt() }
pub fn root_id_expr(i: Id) -> Expr { i.into_expr() }
pub fn root_id_dtor(i: Id) -> Dtor { i.into_dtor() }
pub fn root_dtor_simple(i: Id, e: Expr) -> Dtor { Dtor::from_simple_init(i, e) }
pub fn root_dtor_compound(i: CompoundPatt<Id>, e: Expr) -> Dtor { Dtor::from_compound_init(i, e) }
pub fn root_dtor_init(i: Patt<Id>, e: Expr) -> Dtor { Dtor::from_init(i, e) }
pub fn root_dtor_init_opt(i: Patt<Id>, e: Option<Expr>) -> Result<Dtor, Patt<Id>> { Dtor::from_init_opt(i, e) }
pub fn root_cdtor_simple(i: Id, e: Expr) -> ConstDtor { ConstDtor::from_simple_init(i, e) }
pub fn root_cdtor_compound(i: CompoundPatt<Id>, e: Expr) -> ConstDtor { ConstDtor::from_compound_init(i, e) }
pub fn root_cdtor_init(i: Patt<Id>, e: Expr) -> ConstDtor { ConstDtor::from_init(i, e) }
pub fn root_cdtor_init_opt(i: Patt<Id>, e: Option<Expr>) -> Result<ConstDtor, Patt<Id>> { ConstDtor::from_init_opt(i, e) }

pub fn root_stmt_isdir(s: &Stmt) -> bool { s.is_directive() }
pub fn root_stmt_todir(s: &Stmt) -> Option<Dir> { s.to_directive() }
pub fn root_stmt_intodir(s: Stmt) -> Result<Dir, Stmt> { s.into_directive() }
pub fn root_item_isdir(s: &StmtListItem) -> bool { s.is_directive() }
pub fn root_item_todir(s: &StmtListItem) -> Option<Dir> { s.to_directive() }
pub fn root_item_intodir(s: StmtListItem) -> Result<Dir, StmtListItem> { s.into_directive() }
pub fn root_dir_pragma(d: &Dir) -> &str { d.pragma() }
pub fn root_patt_simple(p: &Patt<Id>) -> bool { p.is_simple() }
