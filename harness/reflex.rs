// Reference tokenizer, written from the Python lexical rules and the conventions in GRAMMAR.md.
use super::tree::{Tk, Tv};

pub const OPS: [(&str, &str); 48] = [
    ("**=", "PyPowerAssign"), ("//=", "PyFloorDivAssign"), ("<<=", "PyShiftLeftAssign"), (">>=", "PyShiftRightAssign"), ("...", "PyElipsis"),
    ("**", "PyPower"), ("*=", "PyMulAssign"), ("//", "PyFloorDiv"), ("/=", "PyDivAssign"), ("<<", "PyShiftLeft"), ("<=", "PyLessEqual"),
    ("<>", "PyNotEqual"), (">>", "PyShiftRight"), (">=", "PyGreaterEqual"), ("+=", "PyPlusAssign"), ("->", "PyArrow"), ("-=", "PyMinusAssign"),
    ("%=", "PyModuloAssign"), ("@=", "PyMatriceAssign"), ("&=", "PyBitAndAssign"), ("|=", "PyBitOrAssign"), ("^=", "PyBitXorAssign"),
    (":=", "PyColonAssign"), ("==", "PyEqual"), ("!=", "PyNotEqual"),
    ("+", "PyPlus"), ("-", "PyMinus"), ("*", "PyMul"), ("/", "PyDiv"), ("%", "PyModulo"), ("@", "PyMatrice"), ("&", "PyBitAnd"),
    ("|", "PyBitOr"), ("^", "PyBitXor"), ("~", "PyBitInvert"), ("<", "PyLess"), (">", "PyGreater"), ("(", "PyLeftParen"), ("[", "PyLeftBracket"),
    ("{", "PyLeftCurly"), (")", "PyRightParen"), ("]", "PyRightBracket"), ("}", "PyRightCurly"), (",", "PyComa"), (":", "PyColon"), (".", "PyDot"),
    (";", "PySemiColon"), ("=", "PyAssign"),
];

pub const KEYWORDS: [(&str, &str); 35] = [
    ("False", "PyFalse"), ("None", "PyNone"), ("True", "PyTrue"), ("and", "PyAnd"), ("as", "PyAs"), ("assert", "PyAssert"), ("async", "PyAsync"),
    ("await", "PyAwait"), ("break", "PyBreak"), ("class", "PyClass"), ("continue", "PyContinue"), ("def", "PyDef"), ("del", "PyDel"),
    ("elif", "PyElif"), ("else", "PyElse"), ("except", "PyExcept"), ("finally", "PyFinally"), ("for", "PyFor"), ("from", "PyFrom"),
    ("global", "PyGlobal"), ("if", "PyIf"), ("import", "PyImport"), ("in", "PyIn"), ("is", "PyIs"), ("lambda", "PyLambda"),
    ("nonlocal", "PyNonLocal"), ("not", "PyNot"), ("or", "PyOr"), ("pass", "PyPass"), ("raise", "PyRaise"), ("return", "PyReturn"),
    ("try", "PyTry"), ("while", "PyWhile"), ("with", "PyWith"), ("yield", "PyYield"),
];

pub fn keyword(w: &str) -> Option<&'static str> { KEYWORDS.iter().find(|k| k.0 == w).map(|k| k.1) }

pub fn is_prefix(w: &str) -> bool { matches!(w.to_ascii_lowercase().as_str(), "r" | "u" | "f" | "b" | "br" | "rb" | "fr" | "rf") && w.is_ascii() }

#[derive(Clone)]
pub struct Lexed { pub toks: Vec<Tk>, pub err: bool, pub crlf: bool, pub bad: (u32, u32) }   // crlf: some CRLF outside of literals and continuations; bad: where the token begins that is wrong, and how far it was read

struct Lx<'a> { s: &'a [char], i: usize, from: usize, triv: Vec<Tv>, out: Vec<Tk> }

impl<'a> Lx<'a> {
    fn at(&self, k: usize) -> char { *self.s.get(self.i + k).unwrap_or(&'\0') }
    fn end(&self) -> bool { self.i >= self.s.len() }
    fn tv(&mut self, kind: &'static str, from: usize, text: String) { self.triv.push(Tv { kind, s: from as u32, e: self.i as u32, text }) }
    fn tok(&mut self, kind: &'static str, from: Option<usize>, text: Option<String>, prefix: Option<String>) {
        let triv = std::mem::take(&mut self.triv);
        self.out.push(Tk::new(kind, from.map(|f| (f as u32, self.i as u32)), triv, text, prefix));
    }
    fn slice(&self, a: usize) -> String { self.s[a..self.i].iter().collect() }

    // digits with single underscores between them; at least one digit is there
    fn digits(&mut self, ok: fn(char) -> bool) -> Result<bool, ()> {
        let mut nonzero = false;
        loop {
            if ok(self.at(0)) { nonzero |= self.at(0) != '0'; self.i += 1 }
            else if self.at(0) == '_' { self.i += 1; if !ok(self.at(0)) { return Err(()) } }
            else { return Ok(nonzero) }
        }
    }
    fn number(&mut self) -> Result<(), ()> {
        fn dec(c: char) -> bool { c.is_ascii_digit() }
        fn hex(c: char) -> bool { c.is_ascii_hexdigit() }
        fn oct(c: char) -> bool { ('0'..='7').contains(&c) }
        fn bin(c: char) -> bool { c == '0' || c == '1' }
        let zero = self.at(0) == '0';
        if zero {
            let f: Option<fn(char) -> bool> = match self.at(1) { 'x' | 'X' => Some(hex), 'o' | 'O' => Some(oct), 'b' | 'B' => Some(bin), _ => None };
            if let Some(ok) = f {
                self.i += 2;
                if self.at(0) != '_' && !ok(self.at(0)) { return Err(()) }
                self.digits(ok)?;
                return Ok(())
            }
        }
        let mut integer = true; let mut nonzero = false;
        if dec(self.at(0)) { nonzero = self.digits(dec)? }
        if self.at(0) == '.' {
            integer = false;
            self.i += 1;
            if self.at(0) == '_' { return Err(()) }
            if dec(self.at(0)) { self.digits(dec)?; }
        }
        if (self.at(0) == 'e' || self.at(0) == 'E') && (dec(self.at(1)) || ((self.at(1) == '+' || self.at(1) == '-') && dec(self.at(2)))) {
            integer = false;
            self.i += 2;
            self.digits(dec)?;
        }
        if self.at(0) == 'j' || self.at(0) == 'J' { integer = false; self.i += 1 }
        if zero && integer && nonzero { Err(()) } else { Ok(()) }
    }
    fn string(&mut self) -> Result<(), ()> {
        let q = self.at(0);
        if self.at(1) == q && self.at(2) == q {
            self.i += 3;
            loop {
                match self.at(0) {
                    '\0' => return Err(()),
                    '\\' => { self.i += 1; if self.at(0) == '\0' { return Err(()) } self.i += 1 }
                    c if c == q && self.at(1) == q && self.at(2) == q => { self.i += 3; return Ok(()) }
                    _ => self.i += 1,
                }
            }
        }
        self.i += 1;
        loop {
            match self.at(0) {
                '\0' | '\r' | '\n' => return Err(()),
                '\\' => {
                    self.i += 1;
                    if self.at(0) == '\0' { return Err(()) }
                    if self.at(0) == '\r' && self.at(1) == '\n' { self.i += 1 }
                    self.i += 1;
                }
                c if c == q => { self.i += 1; return Ok(()) }
                _ => self.i += 1,
            }
        }
    }
}

/// Tokens of a text up to end of file or the first error. crlf3: mirror the known finding that a CRLF
/// line break takes the character after it with it.
pub fn lex(s: &[char], crlf3: bool) -> Lexed {
    let mut l = Lx { s, i: 0, from: 0, triv: vec![], out: vec![] };
    let mut crlf = false;
    let r = run(&mut l, crlf3, &mut crlf);
    Lexed { bad: (l.from as u32, l.i as u32), toks: l.out, err: r.is_err(), crlf }
}

fn run(l: &mut Lx, crlf3: bool, crlf: &mut bool) -> Result<(), ()> {
    let mut blocks: Vec<usize> = vec![0];
    let mut brackets: Vec<char> = vec![];
    let mut open = false;       // the logical line has a token
    let mut start = true;       // at the start of a physical line
    loop {
        if start {
            start = false;
            let mut col = 0;
            loop { match l.at(0) { ' ' => col += 1, '\t' => col = col / 4 * 4 + 4, _ => break } l.i += 1 }
            if l.end() { col = 0 }
            let blank = matches!(l.at(0), '#' | '\r' | '\n' | '\\');
            if !blank && brackets.is_empty() {
                if col > *blocks.last().unwrap() { blocks.push(col); l.tok("Indent", None, None, None) }
                else {
                    let keep: Vec<usize> = blocks.iter().cloned().filter(|b| *b <= col).collect();
                    if *keep.last().unwrap() != col { l.from = l.i; return Err(()) }
                    for _ in keep.len()..blocks.len() { l.tok("Dedent", None, None, None) }
                    blocks = keep;
                }
            }
        }
        let from = l.i;
        l.from = from;
        let c = l.at(0);
        if l.end() {
            if brackets.is_empty() {
                if open { open = false; l.tok("Newline", Some(from), Some("  ".to_string()), None); }
                for _ in 1..blocks.len() { l.tok("Dedent", None, None, None) }
            }
            let at = l.i;
            l.tok("EOF", Some(at), None, None);
            return Ok(())
        }
        match c {
            ' ' => { while l.at(0) == ' ' { l.i += 1 } l.tv("WhiteSpace", from, " ".into()); continue }
            '\t' => { l.i += 1; l.tv("WhiteSpace", from, "\t".into()); continue }
            '#' => {
                while !matches!(l.at(0), '\r' | '\n' | '\0') { l.i += 1 }
                let t = l.slice(from);
                if t.starts_with("# type:") { l.tok("TypeComment", Some(from), Some(t), None); open = true } else { l.tv("Comment", from, t) }
                continue
            }
            '\r' | '\n' => {
                let two = c == '\r' && l.at(1) == '\n';
                l.i += if two { *crlf = true; if crlf3 { 3 } else { 2 } } else { 1 };
                let t: String = if two { "\r\n".into() } else { format!("{} ", c) };
                start = true;
                if open && brackets.is_empty() { open = false; l.tok("Newline", Some(from), Some(t), None) } else { l.tv("Newline", from, t) }
                continue
            }
            '\\' => {
                match (l.at(1), l.at(2)) {
                    ('\r', '\n') => { l.i += 3; l.tv("LineContinuation", from, "\\\r\n".into()) }
                    ('\r', _) => { l.i += 2; l.tv("LineContinuation", from, "\\\r ".into()) }
                    ('\n', _) => { l.i += 2; l.tv("LineContinuation", from, "\\\n ".into()) }
                    _ => return Err(()),
                }
                continue
            }
            _ => {}
        }
        open = true;
        if c.is_alphabetic() || c == '_' {
            while l.at(0).is_alphanumeric() || l.at(0) == '_' { l.i += 1 }
            let w = l.slice(from);
            if is_prefix(&w) && (l.at(0) == '"' || l.at(0) == '\'') {
                let q = l.i;
                l.string()?;
                let t = l.slice(q);
                l.tok("AtomString", Some(from), Some(t), Some(w));
            }
            else if let Some(k) = keyword(&w) { l.tok(k, Some(from), None, None) }
            else { l.tok("AtomName", Some(from), Some(w), None) }
        }
        else if c == '"' || c == '\'' { l.string()?; let t = l.slice(from); l.tok("AtomString", Some(from), Some(t), None) }
        else if c.is_ascii_digit() || (c == '.' && l.at(1).is_ascii_digit()) { l.number()?; let t = l.slice(from); l.tok("AtomNumber", Some(from), Some(t), None) }
        else {
            let op = OPS.iter().find(|o| o.0.chars().enumerate().all(|(k, x)| l.at(k) == x));
            let (text, kind) = match op { Some(o) => *o, None => return Err(()) };
            match text {
                "(" => brackets.push(')'), "[" => brackets.push(']'), "{" => brackets.push('}'),
                ")" | "]" | "}" => if brackets.pop() != text.chars().next() { return Err(()) },
                _ => {}
            }
            l.i += text.len();
            l.tok(kind, Some(from), None, None);
        }
    }
}
