// The only place that calls the code under test.
use super::tree::*;
use super::refparse::Entry;
use crate::parser::blocks::Blocks;
use crate::parser::expressions::Expressions;
use crate::parser::statements::Statements;
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::nodes::ASTNode;

pub fn lexer(text: &str) -> PythonCoreTokenizer { PythonCoreTokenizer::new(text.to_string()) }

pub struct SutLex { pub toks: Vec<Tk>, pub err: Option<String>, pub runaway: bool }

/// Reads tokens up to end of file or the first error. A text of n characters has at most 3n+16 tokens
/// (every token but the dedents takes a character; each indent has one dedent).
pub fn tokens(text: &str) -> SutLex {
    let n = text.chars().count();
    let mut l = lexer(text);
    let mut toks = Vec::new();
    loop {
        match l.get_symbol() {
            Ok(t) => {
                let t = tok_of(&t);
                let end = t.kind == "EOF";
                toks.push(t);
                if end { return SutLex { toks, err: None, runaway: false } }
            }
            Err(e) => return SutLex { toks, err: Some(e), runaway: false },
        }
        if toks.len() > 3 * n + 16 { return SutLex { toks, err: None, runaway: true } }
    }
}

pub fn parser(text: &str) -> PythonCoreParser { PythonCoreParser::new(Box::new(lexer(text))) }

pub fn raw(text: &str, e: Entry) -> Result<Box<ASTNode>, String> {
    let mut p = parser(text);
    match e {
        Entry::File => p.parse_blocks_file_input(),
        Entry::Eval => p.parse_blocks_eval_input(),
        Entry::Single => p.parse_blocks_single_input(),
        Entry::Func => p.parse_blocks_func_type_input(),
    }
}
pub fn parse(text: &str, e: Entry) -> Result<Tr, String> { raw(text, e).map(|t| t.dump()) }

/// Single rules, as the repository's own tests call them: on the first token, or on a later one
pub use super::tree::rulebook::{Rule, RULES};
pub fn rule_fn(name: &str) -> Option<Rule> { RULES.iter().find(|r| r.0 == name).map(|r| r.1) }
pub fn run_rule(text: &str, f: Rule) -> Result<Box<ASTNode>, String> { let mut p = parser(text); p.advance(); f(&mut p) }
/// What the rule gives on token i (i tokens skipped), and the token it stops at
pub fn rule_at(text: &str, f: Rule, i: usize) -> (Result<Tr, String>, Result<Tk, String>) {
    let mut p = parser(text);
    for _ in 0..=i { p.advance() }
    let r = f(&mut p).map(|t| t.dump());
    (r, match &p.symbol { Ok(t) => Ok(tok_of(t)), Err(e) => Err(e.clone()) })
}

/// A file parsed statement by statement, so that parsers can take turns
pub struct Steps { p: PythonCoreParser, out: Vec<Result<Tr, String>>, left: usize }
impl Steps {
    pub fn new(text: &str) -> Steps { let mut p = parser(text); p.advance(); Steps { p, out: vec![], left: text.chars().count() + 4 } }
    /// one statement or newline; false at the end
    pub fn step(&mut self) -> bool {
        if self.left == 0 { return false }
        self.left -= 1;
        let k = match &self.p.symbol { Ok(t) => tok_of(t).kind, Err(e) => { self.out.push(Err(e.clone())); return false } };
        match k {
            "EOF" => { self.out.push(Ok(Tr::Nil)); false }
            "Newline" => { self.p.advance(); true }
            _ => { let r = self.p.parse_statements_stmt().map(|t| t.dump()); let ok = r.is_ok(); self.out.push(r); ok }
        }
    }
    pub fn hash(&self, f: fn(&Tr, u64) -> u64) -> u64 { let mut h = 17; for r in &self.out { h = match r { Ok(t) => f(t, h), Err(m) => super::engine::hash_str(h, m) } } h }
}
