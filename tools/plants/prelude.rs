#[allow(unused_imports)]
use crate::*;
use crate::parser::blocks::Blocks;
#[allow(unused_imports)]
use crate::parser::source_buffer::{SourceBuffer, SourceBufferFunctionality};
type R = Result<String, String>;
fn p(s: &str) -> PythonCoreParser { PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(s.to_string()))) }
fn d(r: Result<Box<ASTNode>, String>) -> R { r.map(|x| format!("{:?}", x)) }
fn file(s: &str) -> R { d(p(s).parse_blocks_file_input()) }
fn eval(s: &str) -> R { d(p(s).parse_blocks_eval_input()) }
fn single(s: &str) -> R { d(p(s).parse_blocks_single_input()) }
fn func(s: &str) -> R { d(p(s).parse_blocks_func_type_input()) }
/// debug text of every token up to end of file or the first error
fn toks(s: &str) -> Vec<String> {
    let mut t = PythonCoreTokenizer::new(s.to_string());
    let mut v = Vec::new();
    loop { match t.get_symbol() {
        Ok(x) => { let x = format!("{:?}", x); let e = x.starts_with("EOF"); v.push(x); if e { return v } if v.len() > s.len() * 3 + 10 { v.push("NOEND".into()); return v } },
        Err(_) => { v.push("ERR".into()); return v } } }
}
fn head(x: &str) -> String { x.chars().take_while(|c| c.is_alphanumeric()).collect() }
/// kinds of the tokens
fn kinds(s: &str) -> String { toks(s).iter().map(|x| head(x)).collect::<Vec<_>>().join(" ") }
/// kinds of nodes and tokens of a tree in the order they are stored, without trivia and positions
fn shape(r: R) -> String {
    match r { Err(_) => "ERR".into(), Ok(s) => {
        let mut out = String::new(); let c: Vec<char> = s.chars().collect(); let mut i = 0;
        while i < c.len() {
            if c[i] == '"' { let a = i; i += 1; while c[i] != '"' { if c[i] == '\\' { i += 1 } i += 1 } i += 1; out.extend(&c[a..i]); out.push(' '); continue }
            if c[i] == '\'' { i += if c[i + 1] == '\\' { 2 } else { 1 }; while c[i] != '\'' { i += 1 } i += 1; continue }
            if c[i].is_alphabetic() { let a = i; while c[i].is_alphanumeric() || c[i] == '_' { i += 1 } let w: String = c[a..i].iter().collect(); if w != "Some" && w != "None" { out += &w; out.push(' ') } continue }
            i += 1
        }
        out } }
}
fn count(s: &str, w: &str) -> usize { s.split(' ').filter(|x| *x == w).count() }
