#![allow(dead_code)]
extern crate joker;
extern crate easter;
extern crate esprit;
use esprit::result::Result;
use esprit::Program;
use easter::stmt::*;

pub fn root_script(s: &str) -> Result<Script> { esprit::script(s) }
pub fn root_strict(s: &str) -> Result<Script> { esprit::strict(s) }
pub fn root_module(s: &str) -> Result<Module> { esprit::module(s) }
pub fn root_program(s: &str) -> Result<Program> { esprit::program(s) }
pub fn root_to_script(p: Program) -> Result<Script> { p.script() }
pub fn root_to_strict(p: Program) -> Result<Script> { p.strict() }
pub fn root_to_module(p: Program) -> Result<Module> { p.module() }
