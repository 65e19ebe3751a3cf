#![allow(dead_code)]
// Analysis roots for estree's readers.  Never executed; only its MIR is read.
extern crate unjson;
extern crate serde_json;
extern crate easter;
extern crate estree;
use unjson::ty::Object;
use estree::IntoScript;
use estree::result::Result;
use easter::stmt::Script;

pub fn root_into_script(o: Object) -> Result<Script> { o.into_script() }
pub fn root_error_display(e: &estree::error::Error, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
