// Analysis roots for unjson's accessors.  Never executed; only its MIR is read.
extern crate unjson;
extern crate serde_json;
use serde_json::Value;
use unjson::{Unjson, GetField, ExtractField};
use unjson::ty::{Array, Object, Ty, TyOf};
use unjson::error::Error;
use unjson::result::Result;

pub fn root_into_array(v: Value) -> Result<Array> { v.into_array() }
pub fn root_get_array<'a>(v: &'a Object, n: &'static str) -> Result<&'a Array> { v.get_array(n) }
pub fn root_extract_array(v: &mut Object, n: &'static str) -> Result<Array> { v.extract_array(n) }
pub fn root_into_array_opt(v: Value) -> Result<Option<Array>> { v.into_array_opt() }
pub fn root_get_array_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<&'a Array>> { v.get_array_opt(n) }
pub fn root_extract_array_opt(v: &mut Object, n: &'static str) -> Result<Option<Array>> { v.extract_array_opt(n) }
pub fn root_into_string(v: Value) -> Result<String> { v.into_string() }
pub fn root_get_string<'a>(v: &'a Object, n: &'static str) -> Result<&'a str> { v.get_string(n) }
pub fn root_extract_string(v: &mut Object, n: &'static str) -> Result<String> { v.extract_string(n) }
pub fn root_into_string_opt(v: Value) -> Result<Option<String>> { v.into_string_opt() }
pub fn root_get_string_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<&'a str>> { v.get_string_opt(n) }
pub fn root_extract_string_opt(v: &mut Object, n: &'static str) -> Result<Option<String>> { v.extract_string_opt(n) }
pub fn root_into_object(v: Value) -> Result<Object> { v.into_object() }
pub fn root_get_object<'a>(v: &'a Object, n: &'static str) -> Result<&'a Object> { v.get_object(n) }
pub fn root_extract_object(v: &mut Object, n: &'static str) -> Result<Object> { v.extract_object(n) }
pub fn root_into_object_opt(v: Value) -> Result<Option<Object>> { v.into_object_opt() }
pub fn root_get_object_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<&'a Object>> { v.get_object_opt(n) }
pub fn root_extract_object_opt(v: &mut Object, n: &'static str) -> Result<Option<Object>> { v.extract_object_opt(n) }
pub fn root_to_bool(v: &Value) -> Result<bool> { v.to_bool() }
pub fn root_get_bool<'a>(v: &'a Object, n: &'static str) -> Result<bool> { v.get_bool(n) }
pub fn root_extract_bool(v: &mut Object, n: &'static str) -> Result<bool> { v.extract_bool(n) }
pub fn root_to_bool_opt(v: &Value) -> Result<Option<bool>> { v.to_bool_opt() }
pub fn root_get_bool_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<bool>> { v.get_bool_opt(n) }
pub fn root_extract_bool_opt(v: &mut Object, n: &'static str) -> Result<Option<bool>> { v.extract_bool_opt(n) }
pub fn root_to_i64(v: &Value) -> Result<i64> { v.to_i64() }
pub fn root_get_i64<'a>(v: &'a Object, n: &'static str) -> Result<i64> { v.get_i64(n) }
pub fn root_extract_i64(v: &mut Object, n: &'static str) -> Result<i64> { v.extract_i64(n) }
pub fn root_to_i64_opt(v: &Value) -> Result<Option<i64>> { v.to_i64_opt() }
pub fn root_get_i64_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<i64>> { v.get_i64_opt(n) }
pub fn root_extract_i64_opt(v: &mut Object, n: &'static str) -> Result<Option<i64>> { v.extract_i64_opt(n) }
pub fn root_to_u64(v: &Value) -> Result<u64> { v.to_u64() }
pub fn root_get_u64<'a>(v: &'a Object, n: &'static str) -> Result<u64> { v.get_u64(n) }
pub fn root_extract_u64(v: &mut Object, n: &'static str) -> Result<u64> { v.extract_u64(n) }
pub fn root_to_u64_opt(v: &Value) -> Result<Option<u64>> { v.to_u64_opt() }
pub fn root_get_u64_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<u64>> { v.get_u64_opt(n) }
pub fn root_extract_u64_opt(v: &mut Object, n: &'static str) -> Result<Option<u64>> { v.extract_u64_opt(n) }
pub fn root_to_f64(v: &Value) -> Result<f64> { v.to_f64() }
pub fn root_get_f64<'a>(v: &'a Object, n: &'static str) -> Result<f64> { v.get_f64(n) }
pub fn root_extract_f64(v: &mut Object, n: &'static str) -> Result<f64> { v.extract_f64(n) }
pub fn root_to_f64_opt(v: &Value) -> Result<Option<f64>> { v.to_f64_opt() }
pub fn root_get_f64_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<f64>> { v.get_f64_opt(n) }
pub fn root_extract_f64_opt(v: &mut Object, n: &'static str) -> Result<Option<f64>> { v.extract_f64_opt(n) }
pub fn root_to_number(v: &Value) -> Result<f64> { v.to_number() }
pub fn root_get_number<'a>(v: &'a Object, n: &'static str) -> Result<f64> { v.get_number(n) }
pub fn root_extract_number(v: &mut Object, n: &'static str) -> Result<f64> { v.extract_number(n) }
pub fn root_to_number_opt(v: &Value) -> Result<Option<f64>> { v.to_number_opt() }
pub fn root_get_number_opt<'a>(v: &'a Object, n: &'static str) -> Result<Option<f64>> { v.get_number_opt(n) }
pub fn root_extract_number_opt(v: &mut Object, n: &'static str) -> Result<Option<f64>> { v.extract_number_opt(n) }
pub fn root_get_field<'a>(v: &'a Object, n: &'static str) -> Result<&'a Value> { v.get_field(n) }
pub fn root_extract_field(v: &mut Object, n: &'static str) -> Result<Value> { v.extract_field(n) }
pub fn root_ty(v: &Value) -> Ty { v.ty() }
pub fn root_ty_display(t: &Ty, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(t, f) }
pub fn root_error_display(e: &Error, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
pub fn root_type_error(e: &'static str, a: Ty) -> Result<()> { unjson::error::type_error(e, a) }
pub fn root_field_error(n: &'static str) -> Result<()> { unjson::error::field_error(n) }
pub fn root_array_error(a: usize, b: usize) -> Result<()> { unjson::error::array_error(a, b) }
pub fn root_index_error(a: usize, b: usize) -> Result<()> { unjson::error::index_error(a, b) }
pub fn root_string_error(e: &'static str, s: String) -> Result<()> { unjson::error::string_error(e, s) }
