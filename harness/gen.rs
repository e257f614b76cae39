// Random programs of the supported grammar (as items), layouts of them, and damaged variants.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64, i: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ i.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..4 { r.u64(); }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { (self.u64() % (n as u64)) as usize }
    pub fn p(&mut self, percent: u64) -> bool { self.u64() % 100 < percent }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    /// small numbers mostly, sometimes larger ones
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo + 1;
        let a = self.n(span); let b = self.n(span);
        lo + if self.p(85) { a.min(b).min(self.n(span)) } else { a }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum G { T(String), Nl, In, De }

pub const NAMES: [&str; 54] = ["a", "b", "c", "x", "y1", "_", "__", "_a", "foo", "bar_baz", "self", "print", "match", "case", "type", "iff", "inn", "isnt", "nott", "orr", "andy", "IF", "If", "true", "none", "false",
    "asyncio", "awaits", "lambda_", "_lambda", "deff", "class_", "r_", "bb", "fr1", "rbx", "u8", "é", "naïve", "имя", "変数", "ß9", "xⅷ", "a_very_long_identifier_with_many_parts_0123456789", "cls", "__init__", "__name__", "args", "kwargs", "Exception", "range", "len", "exec", "except_"];
pub const NUMBERS: [&str; 48] = ["0", "1", "2", "9", "10", "42", "1234567890", "00", "0_0", "1_000", "12_34_5", "0x0", "0xF", "0XaB_c9", "0x_1", "0o7", "0O17_0", "0o_1", "0b1", "0B01_1", "0b_0", "1.", "0.", "1.5", "0.0", "3.14_15", "1_0.2_5",
    ".5", ".0", ".1_2", "1e5", "1E+5", "2e-3", "1e1_0", "1.e5", "1.5e-10", ".5e+2", "0e0", "00.5", "09.5", "08e1", "0j", "1j", "10J", "1.5j", ".5J", "1e5j", "09j"];
pub const BINOPS: [&str; 13] = ["|", "^", "&", "<<", ">>", "+", "-", "*", "/", "//", "%", "@", "**"];
pub const CMPOPS: [&str; 11] = ["<", ">", "<=", ">=", "==", "!=", "<>", "in", "not in", "is", "is not"];
pub const AUG: [&str; 13] = ["+=", "-=", "*=", "/=", "//=", "%=", "@=", "**=", "<<=", ">>=", "|=", "^=", "&="];
pub const PREFIXES: [&str; 25] = ["", "r", "R", "u", "U", "b", "B", "f", "F", "br", "Br", "bR", "BR", "rb", "rB", "Rb", "RB", "fr", "Fr", "fR", "FR", "rf", "rF", "Rf", "RF"];

/// Which statements and expressions a case may use; chosen anew for every case
#[derive(Clone, Copy)]
pub struct Opt { pub ops: u64, pub prim: u64, pub comp: u64, pub lam: u64, pub star: u64, pub tern: u64, pub walrus: u64, pub awaits: u64, pub trail: u64, pub typec: u64, pub maxlist: usize, pub depth: usize, pub plain: bool, pub trys: u64 }

pub struct Gen { pub r: Rng, pub out: Vec<G>, pub left: i32, pub o: Opt }

impl Gen {
    pub fn new(mut r: Rng, budget: i32) -> Gen {
        let mut q = |hi: u64| -> u64 { if r.p(40) { 0 } else { 1 + r.u64() % hi } };
        let o = Opt { ops: q(60) + 5, prim: q(60) + 10, comp: q(15), lam: q(12), star: q(25), tern: q(15), walrus: q(15), awaits: q(12), trail: q(50), typec: q(15), maxlist: 2 + (q(4) as usize) * 2, depth: 5, plain: false, trys: 0 };
        Gen { r, out: vec![], left: budget, o }
    }
    pub fn t(&mut self, s: &str) { self.left -= 1; self.out.push(G::T(s.to_string())) }
    fn p(&mut self, x: u64) -> bool { self.left > 0 && self.r.p(x) }
    pub fn name(&mut self) {
        let s = if self.o.plain { *self.r.pick(&NAMES[..4]) } else if self.r.p(3) && !said_names().is_empty() { *self.r.pick(said_names()) } else { *self.r.pick(&NAMES) };
        self.t(s)
    }
    pub fn string(&mut self) {
        let s = string_literal(&mut self.r);
        self.t(&s)
    }
    fn list<F: FnMut(&mut Gen)>(&mut self, lo: usize, mut f: F) {
        let n = if self.left <= 0 { lo } else { self.r.count(lo, self.o.maxlist.max(lo)) };
        for i in 0..n { if i > 0 { self.t(",") } f(self) }
        if n > 0 && self.p(self.o.trail) { self.t(",") }
    }

    // ---- expressions
    pub fn atom(&mut self) {
        if self.left <= 0 || !self.p(self.o.prim) {
            match self.r.n(12) {
                0 | 1 => { let s = if self.r.p(3) && !super::tree::COUNTED.is_empty() { (*self.r.pick(super::tree::COUNTED) + self.r.u64() % 3 - 1).to_string() } else { self.r.pick(&NUMBERS).to_string() }; self.t(&s) }
                2 => { for _ in 0..=(if self.r.p(30) { self.r.n(3) } else { 0 }) { self.string() } }
                3 => { let s = *self.r.pick(&["None", "True", "False", "..."]); self.t(s) }
                _ => self.name(),
            }
            return
        }
        match self.r.n(9) {
            0 => { self.t("("); self.t(")") }
            1 | 2 => { self.t("("); if self.p(8) { self.yield_() } else { self.comp_list(1) } self.t(")") }
            3 | 4 => { self.t("["); if self.p(80) { self.comp_list(1) } self.t("]") }
            5 => { self.t("{"); if self.p(85) { self.list(1, |g| if g.p(g.o.star) { g.t("**"); g.expr() } else { g.test(); g.t(":"); g.test() }) } self.t("}") }
            6 => { self.t("{"); self.list(1, |g| if g.p(g.o.star) { g.t("*"); g.expr() } else { g.test() }); self.t("}") }
            7 => { self.t("("); self.test(); self.t(")") }
            _ => { self.t("("); self.named(); self.t(")") }
        }
    }
    fn comp_list(&mut self, lo: usize) {
        if self.p(self.o.comp) { if self.p(10) { self.t("*"); self.expr() } else { self.named() } self.comp_for(); return }
        self.list(lo, |g| if g.p(g.o.star) { g.t("*"); g.expr() } else { g.named() })
    }
    pub fn comp_for(&mut self) {
        if self.p(20) { self.t("async") }
        self.t("for"); self.exprlist(); self.t("in"); self.or_test();
        while self.p(30) {
            if self.p(50) { self.t("if"); if self.p(self.o.lam) { self.lambda(false) } else { self.or_test() } }
            else { if self.p(20) { self.t("async") } self.t("for"); self.exprlist(); self.t("in"); self.or_test() }
        }
    }
    pub fn trailer(&mut self) {
        match self.r.n(3) {
            0 => { self.t("."); self.name() }
            1 => { self.t("("); self.args(); self.t(")") }
            _ => {
                self.t("[");
                self.list(1, |g| g.subscript());
                self.t("]")
            }
        }
    }
    pub fn subscript(&mut self) {
        if self.r.p(50) { self.test(); return }
        if self.p(50) { self.test() }
        self.t(":");
        if self.p(50) { self.test() }
        if self.r.p(40) { self.t(":"); if self.p(50) { self.test() } }
    }
    pub fn args(&mut self) {
        if self.p(self.o.comp) { self.test(); self.comp_for(); return }
        self.list(0, |g| match g.r.n(10) {
            0 | 1 => { if g.p(g.o.star * 3) { g.t("*") } g.test() }
            2 => { if g.p(g.o.star * 3) { g.t("**") } g.test() }
            3 | 4 => { g.name(); g.t("="); g.test() }
            5 => { if g.p(g.o.walrus * 3) { g.name(); g.t(":="); } g.test() }
            6 => { g.test(); if g.p(g.o.comp) { g.comp_for() } }
            _ => g.test(),
        })
    }
    pub fn operand(&mut self) {
        while self.p(self.o.ops / 4) { let s = *self.r.pick(&["-", "+", "~"]); self.t(s) }
        if self.p(self.o.awaits) { self.t("await") }
        self.atom();
        while self.p(self.o.prim / 2) { self.trailer() }
    }
    pub fn expr(&mut self) { self.chain(1) }
    pub fn or_test(&mut self) { self.chain(3) }
    /// operands joined by operators; level 1: arithmetic, 2: and comparisons, 3: and boolean ones
    pub fn chain(&mut self, level: usize) {
        self.left -= 1;
        let sub = self.left < 4;
        if level == 3 { while self.p(self.o.ops / 6) { self.t("not") } }
        self.operand();
        while !sub && self.p(self.o.ops) {
            let k = self.r.n(10);
            if level >= 3 && k < 3 { let s = *self.r.pick(&["and", "or"]); self.t(s); while self.p(self.o.ops / 6) { self.t("not") } }
            else if level >= 2 && k < 6 { let s = *self.r.pick(&CMPOPS); for w in s.split(' ') { self.t(w) } }
            else { let s = *self.r.pick(&BINOPS); self.t(s) }
            self.operand()
        }
    }
    pub fn lambda(&mut self, cond: bool) {
        self.t("lambda");
        if self.p(70) { self.params() }
        self.t(":");
        if cond { self.test() } else { self.or_test() }
    }
    pub fn params(&mut self) {
        let one = |g: &mut Gen| { g.name(); if g.p(30) { g.t("="); g.test() } };
        let n = self.r.count(0, self.o.maxlist.min(5));
        let m = self.r.count(0, 3);
        let slash = n > 0 && self.r.p(25);
        let star = self.r.p(40);
        let pow = self.r.p(30);
        let mut first = true;
        let at = if slash { 1 + self.r.n(n) } else { 0 };
        for i in 0..n {
            if !first { self.t(",") } first = false; one(self);
            if slash && i + 1 == at { self.t(","); self.t("/") }
        }
        if star {
            if !first { self.t(",") } first = false;
            self.t("*");
            let named = m == 0 || self.r.p(60);
            if named { self.name() }
            for _ in 0..m { self.t(","); one(self) }
        }
        if pow { if !first { self.t(",") } first = false; self.t("**"); self.name() }
        if first { self.name() }
        if self.r.p(self.o.trail / 2) { self.t(",") }
    }
    pub fn test(&mut self) {
        self.left -= 1;
        if self.p(self.o.lam) { return self.lambda(true) }
        self.chain(3);
        if self.p(self.o.tern) { self.t("if"); self.chain(3); self.t("else"); self.test() }
    }
    pub fn named(&mut self) {
        if self.p(self.o.walrus) { self.name(); self.t(":=") }
        self.test()
    }
    pub fn exprlist(&mut self) { self.list(1, |g| if g.p(g.o.star) { g.t("*"); g.expr() } else { g.expr() }) }
    pub fn testlist(&mut self) { self.list(1, |g| g.test()) }
    pub fn testlist_star(&mut self) { self.list(1, |g| if g.p(g.o.star) { g.t("*"); g.expr() } else { g.test() }) }
    pub fn yield_(&mut self) {
        self.t("yield");
        if self.r.p(30) { self.t("from"); self.test() } else { self.testlist_star() }
    }

    // ---- statements
    fn dotted(&mut self) { self.name(); while self.p(35) { self.t("."); self.name() } }
    fn as_name(&mut self) { if self.p(40) { self.t("as"); self.name() } }
    pub fn small(&mut self, last: bool) {
        match self.r.n(24) {
            0 => self.t("pass"), 1 => self.t("break"), 2 => self.t("continue"),
            3 => { self.t("del"); self.exprlist() }
            4 => { self.t("return"); if self.p(75) { self.testlist_star() } }
            5 => { self.t("raise"); if self.p(80) { self.test(); if self.p(40) { self.t("from"); self.test() } } }
            6 => self.yield_(),
            7 | 8 => {
                self.t("import");
                let n = self.r.count(1, self.o.maxlist);
                for i in 0..n { if i > 0 { self.t(",") } self.dotted(); self.as_name() }
            }
            9 | 10 => {
                self.t("from");
                let dots = if self.p(50) { self.r.count(0, 9) } else { 0 };
                let mut d = dots;
                while d > 0 { let k = 1 + self.r.n(d.min(4)); self.t(&"...."[..k]); d -= k; }
                if dots == 0 || self.p(60) { self.dotted() }
                self.t("import");
                match self.r.n(4) {
                    0 => self.t("*"),
                    1 => { self.t("("); let n = self.r.count(1, self.o.maxlist); for i in 0..n { if i > 0 { self.t(",") } self.name(); self.as_name() } if self.p(self.o.trail) { self.t(",") } self.t(")") }
                    _ => { let n = self.r.count(1, self.o.maxlist); for i in 0..n { if i > 0 { self.t(",") } self.name(); self.as_name() } }
                }
            }
            11 => { let s = *self.r.pick(&["global", "nonlocal"]); self.t(s); let n = self.r.count(1, self.o.maxlist); for i in 0..n { if i > 0 { self.t(",") } self.name() } }
            12 => { self.t("assert"); self.test(); if self.p(50) { self.t(","); self.test() } }
            13 | 14 => {
                self.testlist_star();
                let n = self.r.count(1, self.o.maxlist);
                for _ in 0..n { self.t("="); if self.p(10) { self.yield_() } else { self.testlist() } }
                if last && self.p(self.o.typec) { self.type_comment() }
            }
            15 => { self.testlist_star(); let s = *self.r.pick(&AUG); self.t(s); if self.p(10) { self.yield_() } else { self.testlist() } }
            16 => { if self.r.p(80) { self.expr() } else { self.testlist_star() } self.t(":"); self.test(); if self.p(50) { self.t("="); if self.p(10) { self.yield_() } else { self.testlist() } } }
            _ => self.testlist_star(),
        }
    }
    pub fn type_comment(&mut self) { let s = type_comment(&mut self.r); self.t(&s) }
    pub fn simple(&mut self) {
        let n = if self.p(20) { self.r.count(1, self.o.maxlist) } else { 1 };
        for i in 0..n { if i > 0 { self.t(";") } self.small(i + 1 == n) }
        if !matches!(self.out.last(), Some(G::T(s)) if s.starts_with("# type:")) && self.p(self.o.trail / 4) { self.t(";") }
        self.out.push(G::Nl)
    }
    pub fn suite(&mut self, d: usize) {
        if self.r.p(35) || d == 0 { self.simple(); return }
        self.out.push(G::Nl); self.block(d)
    }
    fn block(&mut self, d: usize) {
        self.out.push(G::In);
        let n = if self.left <= 0 { 1 } else { self.r.count(1, self.o.maxlist) };
        for _ in 0..n { self.stmt(d - 1) }
        self.out.push(G::De)
    }
    fn def(&mut self, d: usize) {
        self.t("def"); self.name(); self.t("("); self.t(")");
        if self.p(40) { self.t("->"); self.test() }
        self.t(":");
        if self.p(self.o.typec) { self.type_comment(); self.out.push(G::Nl); self.block(d.max(1)); return }
        if d > 0 && self.p(self.o.typec) { self.out.push(G::Nl); self.type_comment(); self.out.push(G::Nl); self.block(d); return }
        self.suite(d)
    }
    fn class(&mut self, d: usize) {
        self.t("class"); self.name();
        if self.p(60) { self.t("("); self.args(); self.t(")") }
        self.t(":"); self.suite(d)
    }
    fn else_(&mut self, d: usize) { if self.p(40) { self.t("else"); self.t(":"); self.suite(d) } }
    fn for_(&mut self, d: usize) {
        self.t("for"); self.exprlist(); self.t("in"); self.testlist(); self.t(":");
        if d > 0 && self.p(self.o.typec) { self.type_comment(); self.out.push(G::Nl); self.block(d) } else { self.suite(d) }
        self.else_(d)
    }
    fn with(&mut self, d: usize) {
        self.t("with");
        let par = self.p(40);
        let at = self.out.len();
        let n = self.r.count(1, self.o.maxlist);
        if par { self.t("(") }
        for i in 0..n {
            if i > 0 { self.t(",") }
            let s = self.out.len();
            self.test();
            // a first item that starts with '(' is a known gap when it is not the item list
            if !par && i == 0 && self.out[s] == G::T("(".into()) { self.out.truncate(s); self.name() }
            if self.p(50) { self.t("as"); self.expr() }
        }
        if par { if self.p(self.o.trail) { self.t(",") } self.t(")") }
        let _ = at;
        self.t(":"); self.suite(d)
    }
    pub fn compound(&mut self, d: usize) {
        let k = if self.o.trys > 0 && self.r.p(self.o.trys) { 5 } else { self.r.n(13) };
        match k {
            0 | 1 => {
                self.t("if"); self.named(); self.t(":"); self.suite(d);
                let mut n = self.r.count(0, 4);
                while n > 0 { self.t("elif"); self.named(); self.t(":"); self.suite(d); n -= 1; if self.left <= 0 { break } }
                self.else_(d)
            }
            2 => { self.t("while"); self.named(); self.t(":"); self.suite(d); self.else_(d) }
            3 | 4 => self.for_(d),
            5 | 6 => {
                self.t("try"); self.t(":"); self.suite(d);
                if self.p(25) { self.t("finally"); self.t(":"); self.suite(d); return }
                let star = self.r.p(30);
                let mut n = self.r.count(1, 4);
                while n > 0 {
                    self.t("except");
                    if star { self.t("*") }
                    if star || self.p(70) { self.test(); if self.p(50) { self.t("as"); self.name() } }
                    self.t(":"); self.suite(d); n -= 1;
                    if self.left <= 0 { break }
                }
                self.else_(d);
                if self.p(40) { self.t("finally"); self.t(":"); self.suite(d) }
            }
            7 => self.with(d),
            8 => self.def(d),
            9 => self.class(d),
            10 => { self.t("async"); match self.r.n(3) { 0 => self.for_(d), 1 => self.with(d), _ => self.def(d) } }
            _ => {
                let n = self.r.count(1, 4);
                for _ in 0..n { self.t("@"); self.dotted(); if self.p(50) { self.t("("); self.args(); self.t(")") } self.out.push(G::Nl) }
                match self.r.n(3) { 0 => self.class(d), 1 => { self.t("async"); self.def(d) } _ => self.def(d) }
            }
        }
    }
    pub fn stmt(&mut self, d: usize) { if d > 0 && self.p(40) { self.compound(d) } else { self.simple() } }
    pub fn file(&mut self, n: usize) { for _ in 0..n { let d = self.o.depth; self.stmt(d) } }
    pub fn functype(&mut self) {
        self.t("(");
        let n = self.r.count(0, self.o.maxlist);
        let star = self.r.p(30); let pow = self.r.p(30);
        let mut first = true;
        for _ in 0..n { if !first { self.t(",") } first = false; self.test() }
        if star { if !first { self.t(",") } first = false; self.t("*"); self.test(); let m = self.r.count(0, 2); for _ in 0..m { self.t(","); self.test() } }
        if pow { if !first { self.t(",") } first = false; self.t("**"); self.test() }
        if !first && !star && !pow && self.p(self.o.trail) { self.t(",") }
        self.t(")"); self.t("->"); self.test();
    }
}

pub fn string_literal(r: &mut Rng) -> String {
    let prefix = if r.p(50) { "" } else { *r.pick(&PREFIXES) };
    let q = if r.p(50) { '"' } else { '\'' };
    let o = if q == '"' { '\'' } else { '"' };
    let triple = r.p(30);
    let mut s = prefix.to_string();
    for _ in 0..if triple { 3 } else { 1 } { s.push(q) }
    let n = r.count(0, 9);
    let mut quotes = 0;
    for i in 0..n {
        let c: String = match r.n(12) {
            0 => o.to_string(), 1 => format!("\\{}", q), 2 => "\\\\".into(), 3 => "é".into(), 4 => r.pick(&["\\\n", "\\\n", "\\\r", "\\\r\n"]).to_string(), 5 => "#".into(), 6 => "\\n".into(),
            7 if triple => r.pick(&["\n", "\r", "\r\n"]).to_string(), 8 if triple && i + 1 < n && quotes < 2 => q.to_string(), 9 => "([{".into(), 10 => "日本".into(), 11 if r.p(15) && !said_texts().is_empty() => { let s = *r.pick(said_texts()); if s.contains(q) { "y".into() } else { s.into() } } _ => "x".into(),
        };
        if c == q.to_string() { quotes += 1 } else { quotes = 0 }
        s += &c
    }
    if quotes > 0 { s += "z" }
    for _ in 0..if triple { 3 } else { 1 } { s.push(q) }
    s
}

// ---- layout ------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Style {
    pub nl: u8,            // 0 LF, 1 CR, 2 mix of both, 3 CRLF, 4 mix of all
    pub space: u64,        // how often blanks are put where none are needed
    pub tabs: u64,         // how often blanks are tabs
    pub cont: u64,         // backslash continuations between tokens
    pub brk: u64,          // line breaks inside brackets
    pub comments: u64,
    pub blank: u64,        // blank and comment-only lines
    pub mixind: bool,      // different blanks for the same column
    pub final_nl: bool,
}
impl Style {
    pub fn plain() -> Style { Style { nl: 0, space: 0, tabs: 0, cont: 0, brk: 0, comments: 0, blank: 0, mixind: false, final_nl: true } }
    pub fn pretty() -> Style { Style { space: 100, ..Style::plain() } }
    pub fn random(r: &mut Rng, crlf: bool) -> Style {
        let mut q = |hi: u64| -> u64 { if r.p(45) { 0 } else { r.u64() % hi } };
        let (space, tabs, cont, brk, comments, blank) = (q(100), q(50), q(15), q(30), q(30), q(40));
        let nl = match r.n(20) { 0..=9 => 0, 10..=12 => 1, 13..=15 => 2, 16 | 17 => if crlf { 3 } else { 0 }, _ => if crlf { 4 } else { 2 } };
        Style { nl, space, tabs, cont, brk, comments, blank, mixind: r.p(40), final_nl: r.p(80) }
    }
}

/// words the code under test mentions
pub fn said_names() -> &'static Vec<&'static str> {
    static V: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    V.get_or_init(|| super::tree::SAID.iter().cloned().filter(|s| s.chars().all(|c| c.is_alphanumeric() || c == '_') && !s.starts_with(|c: char| c.is_numeric()) && super::reflex::keyword(s).is_none()).collect())
}
/// texts the code under test mentions that may stand in a comment or a string
pub fn said_texts() -> &'static Vec<&'static str> {
    static V: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    V.get_or_init(|| super::tree::SAID.iter().cloned().filter(|s| !s.contains(['\0', '\r', '\n', '\\'])).collect())
}
pub fn type_comment(r: &mut Rng) -> String {
    const T: [&str; 14] = ["# type: int", "# type:", "# type: (A, B) -> C  # x", "# type: ignore é", "# type: ignore", "# type: ignore[misc]", "# type: List[int]", "# type: Dict[str, 'a'] # noqa", "# type: () -> None", "# type: (int, *str, **a) -> b", "# type:int", "# type:   \tx", "# type: ...", "# type:# type:"];
    if r.p(10) && !said_texts().is_empty() { let s = *r.pick(said_texts()); return if s.starts_with("# type:") { s.to_string() } else { format!("# type: {}", s) } }
    r.pick(&T).to_string()
}
/// a comment that is no type comment
pub fn comment(r: &mut Rng) -> String {
    if r.p(5) && !said_texts().is_empty() { let s = *r.pick(said_texts()); return match r.n(3) { 0 if s.starts_with('#') && !s.starts_with("# type:") => s.to_string(), 1 => format!("#{}", s.trim_start()), _ => format!("#  {}", s) } }
    r.pick(&COMMENTS).to_string()
}

pub const COMMENTS: [&str; 31] = ["#!/usr/bin/env python3", "# -*- coding: utf-8 -*-", "# noqa: E501", "# fmt: off", "# pragma: no cover", "# TODO(x): y", "#region", "# ignore", "###############################################################################", "#", "# c", "#type: x", "#  type: y", "# Type: z", "# typ", "## \"'''", "# ( [ {", "# \\", "#é 日本", "# if x:", "#\t\ttabs ",
    "## type: int", "# a # type: b", "#\t# type: c", "#: # type:", "# type", "# type :x", "#\u{a0}type: x", "#é# type: y", "# TYPE: z", "# types: q"];

fn wordlike(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '"' || c == '\'' || c == '.' }
/// May these two token texts stand next to each other without a blank?
pub fn glue_ok(a: &str, b: &str) -> bool {
    if a.starts_with('#') { return false }
    let x = a.chars().last().unwrap(); let y = b.chars().next().unwrap();
    if y == '#' { return true }
    let br = |c: char| "()[]{},;~".contains(c);
    if br(x) || br(y) { return true }
    let xw = x.is_alphanumeric() || x == '_'; let yw = y.is_alphanumeric() || y == '_';
    let xq = x == '"' || x == '\''; let yq = y == '"' || y == '\'';
    if xw && yw { return false }
    if xq && yw { return true }
    if xw && yq { return !super::reflex::is_prefix(a) && !a.chars().next().unwrap().is_ascii_digit() || (a.chars().next().unwrap().is_ascii_digit()) }
    if xq && yq { return a.len() > 2 && x != y }
    if y == '.' { return !(x == '.' || x.is_ascii_digit() || (a.chars().next().unwrap().is_ascii_digit() || a.starts_with('.'))) }
    if x == '.' { return !(y.is_ascii_digit() || y == '.' || (a.chars().next().unwrap().is_ascii_digit() && (yw))) }
    if wordlike(x) || wordlike(y) { return true }
    // two operators: fine when the longest match at the start of both together is the first one
    let both: String = format!("{}{}", a, b);
    let first = super::reflex::OPS.iter().find(|o| both.starts_with(o.0)).map(|o| o.0.len()).unwrap_or(0);
    first == a.len()
}

fn nl(r: &mut Rng, st: &Style, before: &str) -> &'static str {
    let s = match st.nl { 0 => "\n", 1 => "\r", 2 => *r.pick(&["\n", "\r"]), 3 => "\r\n", _ => *r.pick(&["\n", "\r", "\r\n"]) };
    if s == "\n" && before.ends_with('\r') { "\r" } else { s }
}
fn cont_nl(r: &mut Rng, st: &Style) -> &'static str { if st.nl == 0 && r.p(85) { "\n" } else { *r.pick(&["\n", "\r", "\r\n"]) } }
fn blanks(r: &mut Rng, st: &Style) -> String {
    let n = 1 + r.count(0, 3);
    (0..n).map(|_| if r.p(st.tabs) { '\t' } else { ' ' }).collect()
}
fn column(s: &str) -> usize { s.chars().fold(0, |c, x| if x == '\t' { c / 4 * 4 + 4 } else { c + 1 }) }
/// blanks that reach exactly this column
pub fn blanks_to(r: &mut Rng, col: usize, tabs: bool) -> String {
    let mut s = String::new(); let mut c = 0;
    while c < col {
        let next = c / 4 * 4 + 4;
        if tabs && next <= col && r.p(50) { s.push('\t'); c = next } else { s.push(' '); c += 1 }
    }
    s
}

pub fn layout(items: &[G], st: &Style, r: &mut Rng) -> String {
    let mut o = String::new();
    let mut cols: Vec<usize> = vec![0];
    let mut inds: Vec<String> = vec![String::new()];
    let mut depth = 0usize;
    let mut bol = true;
    let mut prev: Option<&str> = None;
    let last_nl = items.iter().rposition(|g| *g == G::Nl);
    for (i, g) in items.iter().enumerate() {
        match g {
            G::In => {
                let step = if st.tabs > 20 && r.p(st.tabs) { 4 } else if st.mixind { 1 + r.n(9) } else { *r.pick(&[4, 4, 2, 1, 8]) };
                let col = cols.last().unwrap() + step;
                let tabs = st.tabs > 20 || st.mixind;
                cols.push(col); let tb = tabs && r.p(50); inds.push(blanks_to(r, col, tb));
            }
            G::De => { cols.pop(); inds.pop(); }
            G::Nl => {
                if r.p(st.space / 3) { let b = blanks(r, st); if !matches!(prev, Some(p) if p.starts_with("# type:")) { o += &b } }
                if r.p(st.comments) && !matches!(prev, Some(p) if p.starts_with("# type:")) { if !o.ends_with(' ') && r.p(70) { o += " " } o += &comment(r) }
                if Some(i) == last_nl && !st.final_nl && items[i..].iter().all(|x| !matches!(x, G::T(_))) { prev = None; bol = true; continue }
                let x = nl(r, st, &o); o += x;
                bol = true; prev = None;
            }
            G::T(s) => {
                if bol {
                    while r.p(st.blank) {
                        if r.p(60) { let b = blanks(r, st); o += &b }
                        if r.p(40) { o += &comment(r) }
                        let x = nl(r, st, &o); o += x;
                    }
                    let ind = if st.mixind { blanks_to(r, *cols.last().unwrap(), true) } else { inds.last().unwrap().clone() };
                    debug_assert!(column(&ind) == *cols.last().unwrap());
                    o += &ind;
                    bol = false;
                } else if let Some(p) = prev {
                    let mut sep = String::new();
                    if r.p(st.space) || (r.p(30) && st.space > 0) { sep += &if st.space == 100 { " ".to_string() } else { blanks(r, st) } }
                    if depth > 0 && r.p(st.brk) && !p.starts_with("# type:") {
                        for _ in 0..1 + r.count(0, 3) {
                            if r.p(st.comments) { if r.p(60) { sep += " " } sep += &comment(r) }
                            let x = nl(r, st, &sep); sep += x;
                            if r.p(70) { let b = blanks(r, st); sep += &b }
                        }
                    } else if r.p(st.cont) && !s.starts_with('#') {
                        for _ in 0..1 + r.count(0, 2) { sep.push('\\'); sep += cont_nl(r, st); if r.p(60) { let b = blanks(r, st); sep += &b } }
                    }
                    if sep.is_empty() && !glue_ok(p, s) { sep.push(' ') }
                    o += &sep;
                }
                if matches!(s.as_str(), "(" | "[" | "{") { depth += 1 }
                if matches!(s.as_str(), ")" | "]" | "}") && depth > 0 { depth -= 1 }
                o += s;
                prev = Some(s);
            }
        }
    }
    if st.final_nl { while r.p(st.blank) { if r.p(50) { let b = blanks(r, st); o += &b } if r.p(50) { o += &comment(r) } let x = nl(r, st, &o); o += x } if r.p(st.blank / 2) { let b = blanks(r, st); o += &b; if r.p(50) { o += "# end" } } }
    o
}

// ---- damage --------------------------------------------------------------------------------------

pub const SOUP: [&str; 68] = ["(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "...", "->", ":=", "=", "==", "+=", "+", "-", "*", "**", "/", "//", "@", "~", "<", "<>", "!=", "|", "not", "in", "is", "and", "or", "if", "else", "elif",
    "for", "while", "try", "except", "finally", "with", "as", "def", "class", "lambda", "yield", "from", "import", "return", "raise", "del", "pass", "global", "assert", "async", "await", "None", "a", "b", "match", "1", "0x1", "'s'", "b''", "# type: x", "break", "nonlocal"];

/// a line with its block is left out, repeated, exchanged with the next or moved to another place
fn clauses(v: &mut Vec<G>, r: &mut Rng) {
    // starts of logical lines, by their depth
    let mut at = vec![]; let mut d = 0i32; let mut fresh = true;
    for (i, g) in v.iter().enumerate() {
        match g { G::In => { d += 1; fresh = true } G::De => { d -= 1; fresh = true } G::Nl => fresh = true, _ => { if fresh { at.push((i, d)) } fresh = false } }
    }
    if at.len() < 2 { return }
    let end = |v: &Vec<G>, i: usize| -> usize {
        let mut d = 0; let mut j = i;
        while j < v.len() { match v[j] { G::Nl if d == 0 => { if !matches!(v.get(j + 1), Some(G::In)) { return j + 1 } } G::In => d += 1, G::De => { if d == 0 { return j } d -= 1; if d == 0 { return j + 1 } } _ => {} } j += 1 }
        v.len()
    };
    let k = r.n(at.len()); let i = at[k].0; let j = end(v, i);
    let line: Vec<G> = v[i..j].to_vec();
    match r.n(4) {
        0 => { v.drain(i..j); }
        1 => { for (n, g) in line.into_iter().enumerate() { v.insert(j + n, g) } }
        2 => { let m = end(v, j); if j < m { v[i..m].rotate_left(j - i) } }
        _ => { let (q, _) = *r.pick(&at); v.drain(i..j); let q = if q >= j { q - (j - i) } else { q.min(i) }; for (n, g) in line.into_iter().enumerate() { v.insert((q + n).min(v.len()), g) } }
    }
}
pub fn mutate(items: &[G], r: &mut Rng) -> Vec<G> {
    let mut v = items.to_vec();
    for _ in 0..1 + r.count(0, 2) {
        if v.is_empty() { break }
        let i = r.n(v.len());
        if r.p(14) { clauses(&mut v, r); continue }
        match r.n(9) {
            0 | 1 => { v.remove(i); }
            2 => { let x = v[i].clone(); v.insert(i, x) }
            3 => { let j = r.n(v.len()); v.swap(i, j) }
            4 => if i + 1 < v.len() { v.swap(i, i + 1) },
            5 | 6 => v[i] = G::T(r.pick(&SOUP).to_string()),
            7 => v.insert(i, G::T(r.pick(&SOUP).to_string())),
            _ => v.insert(i, match r.n(3) { 0 => G::Nl, 1 => G::In, _ => G::De }),
        }
    }
    // keep the block markers balanced enough for the layouter
    let mut d = 0i32; let mut w = vec![];
    for g in v { match g { G::In => { d += 1; w.push(g) } G::De => if d > 0 { d -= 1; w.push(g) }, _ => w.push(g) } }
    w
}
/// layout of damaged items: a type comment not followed by a line break swallows the rest, which is fine
pub fn chars_mutate(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    const POOL: [char; 40] = ['\0', '\t', '\n', '\r', ' ', '!', '"', '#', '$', '%', '\'', '(', ')', '*', '.', '0', '1', '9', ':', '=', '?', '@', '[', '\\', ']', '_', '`', 'e', 'j', 'x', '{', '}', '~', '\u{7f}', '\u{a0}', 'é', '\u{2028}', '\u{feff}', '\u{1F600}', '٣'];
    for _ in 0..1 + r.count(0, 3) {
        let i = r.n(c.len() + 1);
        match r.n(6) {
            0 => if i < c.len() { c.remove(i); },
            1 => c.insert(i, *r.pick(&POOL)),
            2 => if i < c.len() { c[i] = *r.pick(&POOL) },
            3 => c.truncate(i),
            4 => { let j = (i + 1 + r.n(8)).min(c.len()); let s: Vec<char> = c[i..j].to_vec(); let k = r.n(c.len() + 1); for (n, x) in s.into_iter().enumerate() { c.insert(k + n, x) } }
            _ => { let j = (i + 1 + r.n(4)).min(c.len()); c.drain(i..j); }
        }
    }
    c.into_iter().collect()
}
pub const ODD: [char; 26] = ['\0', '\u{1}', '\u{b}', '\u{c}', '\u{1a}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{aa}', '\u{b7}', '\u{d7}', '\u{300}', '\u{661}', '\u{2028}', '\u{2029}', '\u{200b}', '\u{200d}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
/// an unusual character at the front, at the end or somewhere
pub fn oddly(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let i = match r.n(4) { 0 => 0, 1 => c.len(), _ => r.n(c.len() + 1) };
    c.insert(i, *r.pick(&ODD));
    c.into_iter().collect()
}
pub fn soup(r: &mut Rng, n: usize) -> String {
    const POOL: [&str; 46] = ["\0", "\t", "\n", "\r", "\r\n", " ", "  ", "!", "\"", "'", "'''", "\"\"\"", "#", "# type:", "$", "(", ")", "*", ".", "0", "1", "9", "08", "0x", "1e", "1_", ":", "=", "?", "@", "[", "\\", "\\\n", "]", "_", "e", "j", "if", "x", "{", "}", "~", "é", "\u{1F600}", "r'", "\n    "];
    (0..n).map(|_| *r.pick(&POOL)).collect()
}
