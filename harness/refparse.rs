// Reference parser: Python's LL(1) grammar as described in GRAMMAR.md, over reference tokens, giving the
// tree the code under test is expected to build. 'Gap' is "no verdict": a construct listed as unsupported.
use super::tree::{Tk, Tr};

#[derive(Clone, Debug, PartialEq)]
pub enum Pe { Reject, Gap(&'static str) }
type R = Result<Tr, Pe>;

/// open: where the statements and bracketed expressions begin that are not finished
pub struct P<'a> { t: &'a [Tk], i: usize, err: bool, open: Vec<(usize, u32)> }

const CMP: [&str; 6] = ["PyLess", "PyGreater", "PyLessEqual", "PyGreaterEqual", "PyEqual", "PyNotEqual"];

fn binop(level: usize, k: &str) -> Option<&'static str> {
    Some(match (level, k) {
        (1, "PyOr") => "OrTest", (2, "PyAnd") => "AndTest",
        (5, "PyBitOr") => "Expr", (6, "PyBitXor") => "XorExpr", (7, "PyBitAnd") => "AndExpr",
        (8, "PyShiftLeft") => "ShiftLeftExpr", (8, "PyShiftRight") => "ShiftRightExpr",
        (9, "PyPlus") => "PlusArithExpr", (9, "PyMinus") => "MinusArithExpr",
        (10, "PyMul") => "MulTerm", (10, "PyDiv") => "DivTerm", (10, "PyFloorDiv") => "FloorDivTerm", (10, "PyModulo") => "ModuloTerm", (10, "PyMatrice") => "MatriceTerm",
        _ => return None,
    })
}
fn augassign(k: &str) -> Option<&'static str> {
    Some(match k {
        "PyPlusAssign" => "PlusAssignStmt", "PyMinusAssign" => "MinusAssignStmt", "PyMulAssign" => "MulAssignStmt", "PyDivAssign" => "DivAssignStmt",
        "PyFloorDivAssign" => "FloorDivAssignStmt", "PyModuloAssign" => "ModuloAssignStmt", "PyMatriceAssign" => "MatriceAssignStmt", "PyPowerAssign" => "PowerAssignStmt",
        "PyShiftLeftAssign" => "ShiftLeftAssignStmt", "PyShiftRightAssign" => "ShiftRightAssignStmt", "PyBitOrAssign" => "BitOrAssignStmt",
        "PyBitXorAssign" => "BitXorAssignStmt", "PyBitAndAssign" => "BitAndAssignStmt",
        _ => return None,
    })
}

fn rev(mut v: Vec<Tr>) -> Tr { v.reverse(); Tr::List(v) }

impl<'a> P<'a> {
    pub fn new(t: &'a [Tk], err: bool) -> P<'a> { P { t, i: 0, err, open: vec![] } }
    pub fn index(&self) -> usize { self.i }
    /// Kind of the current token; behind the last one: lexical error
    pub fn k(&self) -> &'static str { match self.t.get(self.i) { Some(t) => t.kind, None => "ERR" } }
    fn k2(&self) -> &'static str { match self.t.get(self.i + 1) { Some(t) => t.kind, None => "ERR" } }
    fn is(&self, k: &str) -> bool { self.k() == k }
    fn text(&self) -> &str { match self.t.get(self.i) { Some(t) => t.text.as_deref().unwrap_or(""), None => "" } }
    fn take(&mut self) -> Tr { let t = self.t[self.i].clone(); self.i += 1; Tr::Tok(t) }
    fn no<T>(&self) -> Result<T, Pe> { Err(match self.k() { "TypeComment" => Pe::Gap("type comment"), _ => Pe::Reject }) }
    fn gap<T>(&self, why: &'static str) -> Result<T, Pe> { Err(Pe::Gap(why)) }
    fn want(&mut self, k: &str) -> R { if self.is(k) { Ok(self.take()) } else { self.no() } }
    fn opt(&mut self, k: &str) -> Tr { if self.is(k) { self.take() } else { Tr::Nil } }
    fn start(&self) -> u32 { match self.t.get(self.i) { Some(Tk { pos: Some(p), .. }) => p.0, _ => u32::MAX } }
    fn end(&self) -> (u32, u32) {
        match self.t.get(self.i) {
            Some(Tk { pos: Some(p), .. }) => (p.0, p.0),
            Some(_) => {
                let lo = self.t[..self.i].iter().rev().find_map(|t| t.pos).map(|p| p.1).unwrap_or(0);
                let hi = self.t[self.i..].iter().find_map(|t| t.pos).map(|p| p.0).unwrap_or(u32::MAX);
                (lo, hi)
            }
            None => (0, u32::MAX),
        }
    }
    fn mk(&self, kind: &'static str, s: u32, f: Vec<Tr>) -> Tr { Tr::Node(kind, s, self.end(), f) }

    fn enter(&mut self) { let s = self.start(); self.open.push((self.i, s)) }
    fn opened(&mut self, f: fn(&mut Self) -> R) -> R {
        self.enter();
        let r = f(self);
        if r.is_ok() { self.open.pop(); }
        r
    }

    // ---- expressions -------------------------------------------------------------------------
    pub fn named(&mut self) -> R {
        let s = self.start();
        let a = self.test()?;
        if self.is("PyColonAssign") { let o = self.take(); let b = self.test()?; return Ok(self.mk("NamedExpr", s, vec![a, o, b])) }
        Ok(a)
    }
    pub fn test(&mut self) -> R {
        if self.is("PyLambda") { return self.lambda(true) }
        let s = self.start();
        let a = self.bin(1)?;
        if !self.is("PyIf") { return Ok(a) }
        let i = self.take(); let c = self.bin(1)?;
        let e = self.want("PyElse")?; let b = self.test()?;
        Ok(self.mk("Test", s, vec![a, i, c, e, b]))
    }
    fn test_nocond(&mut self) -> R { if self.is("PyLambda") { self.lambda(false) } else { self.bin(1) } }
    fn lambda(&mut self, cond: bool) -> R {
        let s = self.start();
        let l = self.take();
        let p = if self.is("PyColon") { Tr::Nil } else { self.varargs()? };
        let c = self.want("PyColon")?;
        let b = if cond { self.test()? } else { self.test_nocond()? };
        Ok(self.mk("Lambda", s, vec![l, p, c, b]))
    }
    fn vname(&mut self) -> R { let s = self.start(); let n = self.want("AtomName")?; Ok(self.mk("VFPDef", s, vec![n])) }
    fn vparam(&mut self) -> R {
        let s = self.start();
        let n = self.vname()?;
        if !self.is("PyAssign") { return Ok(n) }
        let o = self.take(); let v = self.test()?;
        Ok(self.mk("VFPAssign", s, vec![n, o, v]))
    }
    pub fn varargs(&mut self) -> R {
        let s = self.start();
        let (mut nodes, mut seps) = (vec![], vec![]);
        let (mut ms, mut mn, mut ps, mut pn, mut ds) = (Tr::Nil, Tr::Nil, Tr::Nil, Tr::Nil, Tr::Nil);
        let mut first = true; let mut star = false; let mut bare = false;
        loop {
            if !first && self.is("PyColon") { break }           // after a trailing comma
            match self.k() {
                "PyPower" => {
                    if bare { return self.gap("nothing after bare *") }
                    ps = self.take(); pn = self.vname()?;
                    if self.is("PyComa") { seps.push(self.take()) }
                    break
                }
                "PyMul" if !star => {
                    star = true; ms = self.take();
                    if self.is("PyComa") { bare = true } else { mn = self.vname()? }
                }
                "PyDiv" if !first && !star && ds == Tr::Nil => { ds = self.take() }
                _ => { nodes.push(self.vparam()?); bare = false }
            }
            first = false;
            if !self.is("PyComa") { break }
            seps.push(self.take());
        }
        if bare { return self.gap("nothing after bare *") }
        Ok(self.mk("VarArgsList", s, vec![rev(nodes), rev(seps), ms, mn, ps, pn, ds]))
    }
    fn bin(&mut self, level: usize) -> R {
        let s = self.start();
        match level {
            3 => {
                if self.is("PyNot") { let o = self.take(); let a = self.bin(3)?; return Ok(self.mk("NotTest", s, vec![o, a])) }
                self.bin(4)
            }
            4 => {
                let mut a = self.bin(5)?;
                loop {
                    let (kind, ops): (&'static str, Vec<Tr>) = match self.k() {
                        "PyLess" => ("LessComparison", vec![self.take()]),
                        "PyGreater" => ("GreaterComparison", vec![self.take()]),
                        "PyLessEqual" => ("LessEqualComparison", vec![self.take()]),
                        "PyGreaterEqual" => ("GreaterEqualComparison", vec![self.take()]),
                        "PyEqual" => ("EqualComparison", vec![self.take()]),
                        "PyNotEqual" => ("NotEqualComparison", vec![self.take()]),
                        "PyIn" => ("InComparison", vec![self.take()]),
                        "PyNot" => { let n = self.take(); let i = self.want("PyIn")?; ("NotInComparison", vec![n, i]) }
                        "PyIs" => { let i = self.take(); if self.is("PyNot") { ("IsNotComparison", vec![i, self.take()]) } else { ("IsComparison", vec![i]) } }
                        _ => return Ok(a),
                    };
                    let b = self.bin(5)?;
                    let mut f = vec![a]; f.extend(ops); f.push(b);
                    a = self.mk(kind, s, f);
                }
            }
            11 => {
                let kind = match self.k() { "PyPlus" => "UnaryPlus", "PyMinus" => "UnaryMinus", "PyBitInvert" => "UnaryInvert", _ => "" };
                if kind != "" { let o = self.take(); let a = self.bin(11)?; return Ok(self.mk(kind, s, vec![o, a])) }
                let a = self.atom_expr()?;
                if !self.is("PyPower") { return Ok(a) }
                let o = self.take(); let b = self.bin(11)?;
                Ok(self.mk("PowerExpr", s, vec![a, o, b]))
            }
            _ => {
                let mut a = self.bin(level + 1)?;
                while let Some(kind) = binop(level, self.k()) {
                    let o = self.take(); let b = self.bin(level + 1)?;
                    a = self.mk(kind, s, vec![a, o, b]);
                }
                Ok(a)
            }
        }
    }
    pub fn expr(&mut self) -> R { self.bin(5) }
    pub fn or_test(&mut self) -> R { self.bin(1) }
    fn star(&mut self) -> R { let s = self.start(); let o = self.want("PyMul")?; let a = self.expr()?; Ok(self.mk("StarExpr", s, vec![o, a])) }
    fn atom_expr(&mut self) -> R {
        let s = self.start();
        let aw = self.opt("PyAwait");
        let a = self.atom()?;
        let mut tr = vec![];
        while let Some(x) = self.trailer()? { tr.push(x) }
        if aw == Tr::Nil && tr.is_empty() { return Ok(a) }
        Ok(self.mk("AtomExpr", s, vec![aw, a, Tr::List(tr)]))
    }
    fn trailer(&mut self) -> Result<Option<Tr>, Pe> {
            let s2 = self.start();
            self.enter();
            let x = match self.k() {
                "PyDot" => { let d = self.take(); let n = self.want("AtomName")?; self.mk("DotNameTrailer", s2, vec![d, n]) }
                "PyLeftParen" => {
                    let l = self.take();
                    let x = if self.is("PyRightParen") { Tr::Nil } else { self.arglist()? };
                    let r = self.want("PyRightParen")?;
                    self.mk("CallTrailer", s2, vec![l, x, r])
                }
                "PyLeftBracket" => {
                    let l = self.take();
                    let x = self.subscripts()?;
                    let r = self.want("PyRightBracket")?;
                    self.mk("IndexTrailer", s2, vec![l, x, r])
                }
                _ => { self.open.pop(); return Ok(None) }
            };
            self.open.pop();
            Ok(Some(x))
    }
    fn atom(&mut self) -> R { self.opened(Self::atom2) }
    fn atom2(&mut self) -> R {
        let s = self.start();
        let kind = match self.k() {
            "AtomName" => "AtomName", "AtomNumber" => "AtomNumber", "PyNone" => "AtomNone", "PyTrue" => "AtomTrue", "PyFalse" => "AtomFalse", "PyElipsis" => "AtomElipsis",
            "AtomString" => {
                let mut v = vec![];
                while self.is("AtomString") { v.push(self.take()) }
                return Ok(self.mk("AtomString", s, vec![Tr::List(v)]))
            }
            "PyLeftParen" => {
                let l = self.take();
                let x = match self.k() { "PyRightParen" => Tr::Nil, "PyYield" => self.yield_expr()?, _ => self.testlist_comp("PyRightParen")? };
                let r = self.want("PyRightParen")?;
                return Ok(self.mk("AtomTuple", s, vec![l, x, r]))
            }
            "PyLeftBracket" => {
                let l = self.take();
                let x = match self.k() { "PyRightBracket" => Tr::Nil, _ => self.testlist_comp("PyRightBracket")? };
                let r = self.want("PyRightBracket")?;
                return Ok(self.mk("AtomList", s, vec![l, x, r]))
            }
            "PyLeftCurly" => {
                let l = self.take();
                let (kind, x) = match self.k() { "PyRightCurly" => ("AtomDictionary", Tr::Nil), _ => self.dict_or_set()? };
                let r = self.want("PyRightCurly")?;
                return Ok(self.mk(kind, s, vec![l, x, r]))
            }
            _ => return self.no(),
        };
        let t = self.take();
        Ok(self.mk(kind, s, vec![t]))
    }
    fn testlist_comp(&mut self, close: &str) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        n.push(if self.is("PyMul") { self.star()? } else { self.named()? });
        if self.is("PyFor") || self.is("PyAsync") { n.push(self.comp_for()?) }
        else {
            while self.is("PyComa") {
                c.push(self.take());
                if self.is(close) { break }
                n.push(if self.is("PyMul") { self.star()? } else { self.named()? });
            }
        }
        Ok(self.mk("TestListComp", s, vec![rev(n), rev(c)]))
    }
    fn comp_for(&mut self) -> R {
        let s = self.start();
        let a = self.opt("PyAsync");
        let s2 = self.start();
        let f = self.want("PyFor")?;
        let t = self.exprlist(&["PyIn"])?;
        let i = self.want("PyIn")?;
        let o = self.bin(1)?;
        let n = self.comp_iter()?;
        let y = self.mk("SyncCompForComprehension", s2, vec![f, t, i, o, n]);
        if a == Tr::Nil { Ok(y) } else { Ok(self.mk("CompForComprehension", s, vec![a, y])) }
    }
    fn comp_iter(&mut self) -> R {
        match self.k() {
            "PyFor" | "PyAsync" => self.comp_for(),
            "PyIf" => {
                let s = self.start();
                let i = self.take();
                let c = self.test_nocond()?;
                let n = self.comp_iter()?;
                Ok(self.mk("CompIfComprehension", s, vec![i, c, n]))
            }
            _ => Ok(Tr::Nil),
        }
    }
    fn dict_or_set(&mut self) -> Result<(&'static str, Tr), Pe> {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        let mut dict = true; let mut first = true;
        loop {
            let s2 = self.start();
            match self.k() {
                "PyPower" if dict => { let o = self.take(); let e = self.expr()?; n.push(self.mk("PowerDictionary", s2, vec![o, e])) }
                "PyMul" if first || !dict => { dict = false; let o = self.take(); let e = self.expr()?; n.push(self.mk("MulSet", s2, vec![o, e])) }
                _ => {
                    let a = self.test()?;
                    if self.is("PyColonAssign") && (first || !dict) { return self.gap("':=' in set") }
                    if dict && self.is("PyColon") { let o = self.take(); let b = self.test()?; n.push(self.mk("DictionaryEntry", s2, vec![a, o, b])) }
                    else if dict && !first { return self.no() }
                    else { dict = false; n.push(a) }
                }
            }
            if first && (self.is("PyFor") || self.is("PyAsync")) { return self.gap("dict or set comprehension") }
            first = false;
            if !self.is("PyComa") { break }
            c.push(self.take());
            if self.is("PyRightCurly") { break }
        }
        let kind = if dict { ("AtomDictionary", "DictionaryContainer") } else { ("AtomSet", "SetContainer") };
        Ok((kind.0, self.mk(kind.1, s, vec![rev(n), rev(c)])))
    }
    fn subscripts(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(self.subscript()?);
            if !self.is("PyComa") { break }
            c.push(self.take());
            if self.is("PyRightBracket") { break }
        }
        Ok(self.mk("SubscriptList", s, vec![rev(n), rev(c)]))
    }
    fn subscript(&mut self) -> R {
        let s = self.start();
        let (mut c1, mut b, mut c2, mut d) = (Tr::Nil, Tr::Nil, Tr::Nil, Tr::Nil);
        if self.is("PyMul") { return self.gap("star in subscript") }
        let a = if self.is("PyColon") { Tr::Nil } else { self.test()? };
        if self.is("PyColonAssign") { return self.gap("':=' in subscript") }
        let stop = |k: &str| k == "PyColon" || k == "PyComa" || k == "PyRightBracket";
        if self.is("PyColon") {
            c1 = self.take();
            if !stop(self.k()) { b = self.test()? }
            if self.is("PyColon") {
                c2 = self.take();
                if self.is("PyColon") { return self.no() }
                if !stop(self.k()) { d = self.test()? }
            }
        }
        Ok(self.mk("Subscript", s, vec![a, c1, b, c2, d]))
    }
    fn list_of(&mut self, kind: &'static str, star: bool, full: bool, reversed: bool, stop: &[&str]) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            if self.is("PyMul") && !star { return Err(Pe::Reject) }
            n.push(if self.is("PyMul") { self.star()? } else if full { self.test()? } else { self.expr()? });
            if !self.is("PyComa") { break }
            c.push(self.take());
            if stop.contains(&self.k()) { break }
        }
        if n.len() == 1 && c.is_empty() { return Ok(n.pop().unwrap()) }
        let f = if reversed { vec![rev(n), rev(c)] } else { vec![Tr::List(n), Tr::List(c)] };
        Ok(self.mk(kind, s, f))
    }
    fn exprlist(&mut self, stop: &[&str]) -> R { self.list_of("ExprList", true, false, false, stop) }
    const LISTEND: [&'static str; 9] = ["Newline", "EOF", "PySemiColon", "PyRightParen", "PyAssign", "PyColon", "TypeComment", "PyRightBracket", "PyRightCurly"];
    pub fn testlist(&mut self) -> R {
        let i = self.i;
        let r = self.list_of("TestList", false, true, false, &Self::LISTEND);
        // a starred element is legal Python in return, assignment and for, but not supported here
        if r.is_err() && self.is("PyMul") && (i == self.i || self.t[self.i - 1].kind == "PyComa") { return self.gap("star in expression list") }
        r
    }
    const STAREND: [&'static str; 22] = ["Newline", "EOF", "PySemiColon", "PyRightParen", "PyAssign", "PyColon", "TypeComment", "PyRightBracket", "PyRightCurly",
        "PyPlusAssign", "PyMinusAssign", "PyMulAssign", "PyDivAssign", "PyFloorDivAssign", "PyModuloAssign", "PyMatriceAssign", "PyPowerAssign", "PyShiftLeftAssign", "PyShiftRightAssign", "PyBitOrAssign", "PyBitXorAssign", "PyBitAndAssign"];
    fn testlist_star(&mut self) -> R { self.list_of("TestListStarExpr", true, true, true, &Self::STAREND) }
    pub fn arglist(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(self.argument()?);
            if !self.is("PyComa") { break }
            c.push(self.take());
            if self.is("PyRightParen") { break }
        }
        Ok(self.mk("ArgList", s, vec![rev(n), rev(c)]))
    }
    fn argument(&mut self) -> R {
        let s = self.start();
        if self.is("PyMul") || self.is("PyPower") { let o = self.take(); let a = self.test()?; return Ok(self.mk("Argument", s, vec![Tr::Nil, o, a])) }
        let a = self.test()?;
        match self.k() {
            "PyFor" | "PyAsync" => { let f = self.comp_for()?; Ok(self.mk("Argument", s, vec![a, Tr::Nil, f])) }
            "PyColonAssign" | "PyAssign" => { let o = self.take(); let b = self.test()?; Ok(self.mk("Argument", s, vec![a, o, b])) }
            _ => Ok(self.mk("Argument", s, vec![a, Tr::Nil, Tr::Nil])),
        }
    }
    pub fn yield_expr(&mut self) -> R {
        let s = self.start();
        let y = self.want("PyYield")?;
        if self.is("PyFrom") { let f = self.take(); let a = self.test()?; return Ok(self.mk("YieldFromExpr", s, vec![y, f, a])) }
        if ["Newline", "EOF", "PySemiColon", "PyRightParen", "PyAssign"].contains(&self.k()) { return self.gap("bare yield") }
        let a = self.testlist_star_or()?;
        Ok(self.mk("YieldExpr", s, vec![y, a]))
    }
    fn testlist_star_or(&mut self) -> R { self.testlist_star() }

    // ---- simple statements ---------------------------------------------------------------------
    pub fn stmt(&mut self) -> R {
        let soft = self.is("AtomName") && self.text() == "match";
        let r = self.stmt2();
        if soft && r == Err(Pe::Reject) { return self.gap("match statement") }
        r
    }
    fn stmt2(&mut self) -> R { self.opened(Self::stmt3) }
    fn stmt3(&mut self) -> R {
        match self.k() {
            "PyIf" | "PyFor" | "PyWhile" | "PyWith" | "PyTry" | "PyAsync" | "PyMatrice" | "PyDef" | "PyClass" => self.compound(),
            _ => self.simple(),
        }
    }
    pub fn simple(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(self.small()?);
            if !self.is("PySemiColon") { break }
            c.push(self.take());
            if self.is("Newline") { break }
        }
        let nl = self.want("Newline")?;
        Ok(self.mk("SimpleStmtList", s, vec![rev(n), rev(c), nl]))
    }
    fn at_end(&self) -> bool { self.is("Newline") || self.is("PySemiColon") }
    fn small(&mut self) -> R { self.opened(Self::small2) }
    fn small2(&mut self) -> R {
        let s = self.start();
        match self.k() {
            "PyPass" => { let t = self.take(); Ok(self.mk("PassStmt", s, vec![t])) }
            "PyBreak" => { let t = self.take(); Ok(self.mk("BreakStmt", s, vec![t])) }
            "PyContinue" => { let t = self.take(); Ok(self.mk("ContinueStmt", s, vec![t])) }
            "PyDel" => { let t = self.take(); let l = self.exprlist(&["Newline", "PySemiColon"])?; Ok(self.mk("DelStmt", s, vec![t, l])) }
            "PyReturn" => {
                let t = self.take();
                let v = if self.at_end() { Tr::Nil } else { self.testlist_star()? };
                Ok(self.mk("ReturnStmt", s, vec![t, v]))
            }
            "PyRaise" => {
                let t = self.take();
                if self.at_end() { return Ok(self.mk("RaiseStmt", s, vec![t, Tr::Nil])) }
                let a = self.test()?;
                let f = if self.is("PyFrom") { let f = self.take(); Tr::Pair(vec![f, self.test()?]) } else { Tr::Nil };
                Ok(self.mk("RaiseStmt", s, vec![t, Tr::Pair(vec![a, f])]))
            }
            "PyYield" => self.yield_expr(),
            "PyImport" => {
                let t = self.take();
                let l = self.dotted_as_names()?;
                Ok(self.mk("ImportNameStmt", s, vec![t, l]))
            }
            "PyFrom" => {
                let t = self.take();
                let mut dots = vec![];
                while self.is("PyDot") || self.is("PyElipsis") { dots.push(self.take()) }
                let d = if self.is("PyImport") && !dots.is_empty() { Tr::Nil } else { self.dotted()? };
                let i = self.want("PyImport")?;
                if self.is("PyMul") { let m = self.take(); return Ok(self.mk("ImportFromStmt", s, vec![t, rev(dots), d, i, m, Tr::Nil, Tr::Nil])) }
                let l = self.opt("PyLeftParen");
                let n = self.as_names(l != Tr::Nil)?;
                let r = if l != Tr::Nil { self.want("PyRightParen")? } else { Tr::Nil };
                Ok(self.mk("ImportFromStmt", s, vec![t, rev(dots), d, i, l, n, r]))
            }
            "PyGlobal" | "PyNonLocal" => {
                let kind = if self.is("PyGlobal") { "GlobalStmt" } else { "NonLocalStmt" };
                let t = self.take();
                let (mut n, mut c) = (vec![], vec![]);
                loop { n.push(self.want("AtomName")?); if !self.is("PyComa") { break } c.push(self.take()) }
                Ok(self.mk(kind, s, vec![t, rev(n), rev(c)]))
            }
            "PyAssert" => {
                let t = self.take();
                let a = self.test()?;
                let m = if self.is("PyComa") { let c = self.take(); Tr::Pair(vec![c, self.test()?]) } else { Tr::Nil };
                Ok(self.mk("AssertStmt", s, vec![t, a, m]))
            }
            _ => self.expr_stmt(),
        }
    }
    fn dotted(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop { n.push(self.want("AtomName")?); if !self.is("PyDot") { break } c.push(self.take()) }
        Ok(self.mk("DottedNameStmt", s, vec![rev(n), rev(c)]))
    }
    fn as_name(&mut self) -> R {
        let s = self.start();
        let w = self.want("AtomName")?;
        let a = if self.is("PyAs") { let a = self.take(); Tr::Pair(vec![a, self.want("AtomName")?]) } else { Tr::Nil };
        Ok(self.mk("ImportAsName", s, vec![w, a]))
    }
    fn dotted_as_name(&mut self) -> R {
        let s = self.start();
        let d = self.dotted()?;
        let a = if self.is("PyAs") { let a = self.take(); Tr::Pair(vec![a, self.want("AtomName")?]) } else { Tr::Nil };
        Ok(self.mk("DottedAsNameStmt", s, vec![d, a]))
    }
    fn dotted_as_names(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop { n.push(self.dotted_as_name()?); if !self.is("PyComa") { break } c.push(self.take()) }
        Ok(self.mk("DottedAsNamesStmt", s, vec![rev(n), rev(c)]))
    }
    fn elif(&mut self) -> R {
        let s = self.start();
        let t = self.take(); let c = self.named()?; let o = self.want("PyColon")?; let b = self.suite()?;
        Ok(self.mk("ElifStmt", s, vec![t, c, o, b]))
    }
    fn decorator(&mut self) -> R {
        let s = self.start();
        let at = self.take();
        if !self.is("AtomName") { return match self.k() { "Newline" | "EOF" | "ERR" | "Indent" | "Dedent" => self.no(), _ => self.gap("decorator expression") } }
        let d = self.dotted()?;
        let (mut l, mut a, mut r) = (Tr::Nil, Tr::Nil, Tr::Nil);
        if self.is("PyLeftParen") {
            l = self.take();
            if !self.is("PyRightParen") { a = self.arglist()? }
            r = self.want("PyRightParen")?;
        }
        if !self.is("Newline") { return match self.k() { "EOF" | "ERR" => self.no(), _ => self.gap("decorator expression") } }
        let nl = self.take();
        Ok(self.mk("Decorator", s, vec![at, d, l, a, r, nl]))
    }
    fn decorators(&mut self) -> R {
        let s = self.start();
        let mut v = vec![];
        while self.is("PyMatrice") { v.push(self.decorator()?) }
        Ok(self.mk("Decorators", s, vec![rev(v)]))
    }
    fn except_clause(&mut self, group: &mut Option<bool>) -> R {
        let s = self.start();
        let x = self.take();
        let m = self.opt("PyMul");
        let g = m != Tr::Nil;
        if let Some(first) = group { if *first != g { return Err(Pe::Reject) } }
        *group = Some(g);
        let what = if self.is("PyColon") { if g { return self.no() } Tr::Nil } else {
            let e = self.test()?;
            let a = if self.is("PyAs") { let a = self.take(); Tr::Pair(vec![a, self.want("AtomName")?]) } else { Tr::Nil };
            Tr::Pair(vec![e, a])
        };
        Ok(self.mk("ExceptClauseStmt", s, vec![x, m, what]))
    }
    fn except(&mut self, group: &mut Option<bool>) -> R {
        let s = self.start();
        let c = self.except_clause(group)?;
        let o = self.want("PyColon")?; let b = self.suite()?;
        Ok(self.mk("ExceptStmt", s, vec![c, o, b]))
    }
    fn as_names(&mut self, paren: bool) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            n.push(self.as_name()?);
            if !self.is("PyComa") { break }
            c.push(self.take());
            if paren && self.is("PyRightParen") { break }
        }
        Ok(self.mk("ImportAsNamesStmt", s, vec![rev(n), rev(c)]))
    }
    fn expr_stmt(&mut self) -> R {
        let s = self.start();
        let a = self.testlist_star()?;
        if self.is("PyColon") {
            let c = self.take();
            let t = self.test()?;
            let v = if self.is("PyAssign") { let o = self.take(); Tr::Pair(vec![o, if self.is("PyYield") { self.yield_expr()? } else { self.testlist()? }]) } else { Tr::Nil };
            return Ok(self.mk("AnnAssignStmt", s, vec![a, c, t, v]))
        }
        if let Some(kind) = augassign(self.k()) {
            let o = self.take();
            let v = if self.is("PyYield") { self.yield_expr()? } else { self.testlist()? };
            return Ok(self.mk(kind, s, vec![a, o, v]))
        }
        if self.is("PyAssign") {
            let mut v = vec![];
            while self.is("PyAssign") {
                let o = self.take();
                let x = if self.is("PyYield") { self.yield_expr()? } else { self.testlist()? };
                v.push(Tr::Pair(vec![o, x]));
            }
            let tc = self.opt("TypeComment");
            return Ok(self.mk("AssignmentStmt", s, vec![a, Tr::List(v), tc]))
        }
        Ok(a)
    }

    // ---- compound statements -------------------------------------------------------------------
    fn compound(&mut self) -> R {
        let s = self.start();
        match self.k() {
            "PyIf" => {
                let t = self.take(); let c = self.named()?; let o = self.want("PyColon")?; let b = self.suite()?;
                let mut el = vec![];
                while self.is("PyElif") { el.push(self.elif()?) }
                let e = self.else_()?;
                Ok(self.mk("IfStmt", s, vec![t, c, o, b, rev(el), e]))
            }
            "PyWhile" => {
                let t = self.take(); let c = self.named()?; let o = self.want("PyColon")?; let b = self.suite()?; let e = self.else_()?;
                Ok(self.mk("WhileStmt", s, vec![t, c, o, b, e]))
            }
            "PyFor" => {
                let t = self.take(); let l = self.exprlist(&["PyIn"])?; let i = self.want("PyIn")?; let r = self.testlist()?; let o = self.want("PyColon")?;
                let tc = self.opt("TypeComment");
                let b = self.suite()?; let e = self.else_()?;
                Ok(self.mk("ForStmt", s, vec![t, l, i, r, o, tc, b, e]))
            }
            "PyTry" => {
                let t = self.take(); let o = self.want("PyColon")?; let b = self.suite()?;
                if self.is("PyFinally") { let f = self.finally()?; return Ok(self.mk("TryStmt", s, vec![t, o, b, Tr::Nil, Tr::Nil, f])) }
                let mut h = vec![]; let mut group: Option<bool> = None;
                if !self.is("PyExcept") { return self.no() }
                while self.is("PyExcept") {
                    h.push(self.except(&mut group)?);
                }
                let e = self.else_()?;
                let f = if self.is("PyFinally") { self.finally()? } else { Tr::Nil };
                Ok(self.mk("TryStmt", s, vec![t, o, b, rev(h), e, f]))
            }
            "PyWith" => {
                let t = self.take();
                let (mut n, mut c) = (vec![], vec![]);
                let (mut l, mut r) = (Tr::Nil, Tr::Nil);
                if self.is("PyLeftParen") {
                    // the code takes the parenthesis as the one around all items
                    let back = self.i;
                    l = self.take();
                    let inner = (|| -> Result<(), Pe> {
                        loop {
                            n.push(self.with_item()?);
                            if !self.is("PyComa") { break }
                            c.push(self.take());
                            if self.is("PyRightParen") { break }
                        }
                        r = self.want("PyRightParen")?;
                        if !self.is("PyColon") { return self.no() }
                        Ok(())
                    })();
                    if inner.is_err() {
                        // could the parenthesis be the start of an expression?
                        let at = self.i;
                        self.i = back;
                        if self.with_item().is_ok() && (self.is("PyColon") || self.is("PyComa")) { return self.gap("with item starting with a parenthesis") }
                        self.i = at;
                        inner?;
                    }
                } else {
                    loop { n.push(self.with_item()?); if !self.is("PyComa") { break } c.push(self.take()) }
                }
                let o = self.want("PyColon")?;
                let b = self.suite()?;
                Ok(self.mk("WithStmt", s, vec![t, l, rev(n), rev(c), r, o, b]))
            }
            "PyDef" => self.def(),
            "PyClass" => self.class(),
            "PyAsync" => {
                let t = self.take();
                let b = match self.k() { "PyDef" | "PyWith" | "PyFor" => self.compound()?, _ => return self.no() };
                Ok(self.mk("AsyncStmt", s, vec![t, b]))
            }
            "PyMatrice" => {
                let ds = self.decorators()?;
                let b = match self.k() {
                    "PyDef" => self.def()?, "PyClass" => self.class()?,
                    "PyAsync" => { let s2 = self.start(); let t = self.take(); if !self.is("PyDef") { return self.no() } let d = self.def()?; self.mk("AsyncStmt", s2, vec![t, d]) }
                    _ => return self.no(),
                };
                Ok(self.mk("Decorated", s, vec![ds, b]))
            }
            _ => self.no(),
        }
    }
    fn else_(&mut self) -> R {
        if !self.is("PyElse") { return Ok(Tr::Nil) }
        let s = self.start();
        let t = self.take(); let o = self.want("PyColon")?; let b = self.suite()?;
        Ok(self.mk("ElseStmt", s, vec![t, o, b]))
    }
    fn finally(&mut self) -> R {
        let s = self.start();
        let t = self.take(); let o = self.want("PyColon")?; let b = self.suite()?;
        Ok(self.mk("FinallyStmt", s, vec![t, o, b]))
    }
    fn with_item(&mut self) -> R {
        let s = self.start();
        let a = self.test()?;
        if !self.is("PyAs") { return Ok(self.mk("WithItem", s, vec![a, Tr::Nil])) }
        let t = self.take(); let b = self.expr()?;
        Ok(self.mk("WithItem", s, vec![a, Tr::Pair(vec![t, b])]))
    }
    fn def(&mut self) -> R {
        let s = self.start();
        let d = self.take();
        let n = self.want("AtomName")?;
        let p = self.parameters()?;
        let ret = if self.is("PyArrow") { let a = self.take(); Tr::Pair(vec![a, self.test()?]) } else { Tr::Nil };
        let c = self.want("PyColon")?;
        let tc = self.opt("TypeComment");
        let b = self.body("FuncBodySuite")?;
        Ok(self.mk("FuncDef", s, vec![d, n, p, ret, c, tc, b]))
    }
    fn parameters(&mut self) -> R {
        let s = self.start();
        let l = self.want("PyLeftParen")?;
        if !self.is("PyRightParen") {
            return match self.k() { "AtomName" | "PyMul" | "PyPower" => self.gap("function parameters"), _ => self.no() }
        }
        let r = self.take();
        Ok(self.mk("Parameter", s, vec![l, Tr::Nil, r]))
    }
    /// One parameter of a function: a name with its annotation
    fn tname(&mut self) -> R {
        let s = self.start();
        let n = self.want("AtomName")?;
        let a = if self.is("PyColon") { let c = self.take(); Tr::Pair(vec![c, self.test()?]) } else { Tr::Nil };
        Ok(self.mk("TFPDef", s, vec![n, a]))
    }
    fn tparam(&mut self) -> R {
        let s = self.start();
        let n = self.tname()?;
        if !self.is("PyAssign") { return Ok(n) }
        let o = self.take(); let v = self.test()?;
        Ok(self.mk("TFPAssign", s, vec![n, o, v]))
    }
    fn class(&mut self) -> R {
        let s = self.start();
        let k = self.take();
        let n = self.want("AtomName")?;
        let (mut l, mut a, mut r) = (Tr::Nil, Tr::Nil, Tr::Nil);
        if self.is("PyLeftParen") {
            l = self.take();
            if !self.is("PyRightParen") { a = self.arglist()? }
            r = self.want("PyRightParen")?;
        }
        let c = self.want("PyColon")?;
        let b = self.suite()?;
        Ok(self.mk("ClassDef", s, vec![k, n, l, a, r, c, b]))
    }
    fn suite(&mut self) -> R { self.body("SuiteStmt") }
    fn body(&mut self, kind: &'static str) -> R {
        if !self.is("Newline") { return self.simple() }
        let s = self.start();
        let nl = self.take();
        let (mut tc, mut tn) = (Tr::Nil, Tr::Nil);
        if kind == "FuncBodySuite" && self.is("TypeComment") { tc = self.take(); tn = self.want("Newline")? }
        let i = self.want("Indent")?;
        let mut v = vec![];
        loop { v.push(self.stmt()?); if self.is("Dedent") { break } }
        let d = self.take();
        Ok(self.mk(kind, s, if kind == "SuiteStmt" { vec![nl, i, rev(v), d] } else { vec![nl, tc, tn, i, rev(v), d] }))
    }

    // ---- entry points --------------------------------------------------------------------------
    pub fn file(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        loop {
            match self.k() { "EOF" => break, "Newline" => c.push(self.take()), _ => n.push(self.stmt()?) }
        }
        let (s, e) = (s, self.end());
        let t = self.t[self.i].clone();
        Ok(Tr::Node("FileInput", s, e, vec![rev(n), rev(c), Tr::Tok(t)]))
    }
    fn tail(&mut self, kind: &'static str, s: u32, x: Tr) -> R {
        let mut c = vec![];
        while self.is("Newline") { c.push(self.take()) }
        if !self.is("EOF") { return self.no() }
        let e = self.end();
        let t = self.t[self.i].clone();
        Ok(Tr::Node(kind, s, e, vec![x, rev(c), Tr::Tok(t)]))
    }
    pub fn eval(&mut self) -> R { let s = self.start(); let x = self.testlist()?; self.tail("EvalInput", s, x) }
    pub fn func_type(&mut self) -> R { let s = self.start(); let f = self.signature()?; self.tail("FuncTypeInput", s, f) }
    fn signature(&mut self) -> R {
        let s = self.start();
        let l = self.want("PyLeftParen")?;
        let a = if self.is("PyRightParen") { Tr::Nil } else { self.typelist()? };
        let r = self.want("PyRightParen")?;
        let w = self.want("PyArrow")?;
        let t = self.test()?;
        Ok(self.mk("FuncType", s, vec![l, a, r, w, t]))
    }
    fn typelist(&mut self) -> R {
        let s = self.start();
        let (mut n, mut c) = (vec![], vec![]);
        let (mut ms, mut mn, mut ps, mut pn) = (Tr::Nil, Tr::Nil, Tr::Nil, Tr::Nil);
        loop {
            match self.k() {
                "PyPower" => { ps = self.take(); pn = self.test()?; break }
                "PyMul" if ms == Tr::Nil => {
                    ms = self.take();
                    if self.is("PyComa") || self.is("PyRightParen") { return self.gap("bare * in type list") }
                    mn = self.test()?
                }
                _ => n.push(self.test()?),
            }
            if !self.is("PyComa") { break }
            c.push(self.take());
            if self.is("PyRightParen") && ms == Tr::Nil { break }
        }
        Ok(self.mk("TypeList", s, vec![rev(n), rev(c), ms, mn, ps, pn]))
    }
    /// Single input; what follows the statement is not judged.
    pub fn single(&mut self) -> R {
        let s = self.start();
        match self.k() {
            "Newline" => { let n = self.take(); Ok(self.mk("SingleInput", s, vec![Tr::Nil, n])) }
            "PyIf" | "PyFor" | "PyWhile" | "PyWith" | "PyTry" | "PyAsync" | "PyMatrice" | "PyDef" | "PyClass" => {
                let b = self.compound()?;
                match self.k() {
                    "EOF" => Ok(self.mk("SingleInput", s, vec![b, Tr::Nil])),
                    "Newline" => { let e = self.end(); let n = self.t[self.i].clone(); Ok(Tr::Node("SingleInput", s, e, vec![b, Tr::Tok(n)])) }
                    _ => self.gap("text after a compound statement in single input"),
                }
            }
            _ => { let b = self.stmt()?; if self.is("ERR") { return self.gap("lexical error after the statement in single input") } Ok(self.mk("SingleInput", s, vec![b, Tr::Nil])) }
        }
    }
    /// The construct a rule of the parser is named after, at the current token; None: not one this reference has alone
    pub fn rule(&mut self, name: &str) -> Option<R> {
        let first = |p: &Self, k: &[&str]| k.contains(&p.k());
        Some(match name {
            "test" => self.test(), "no_cond_test" => self.test_nocond(), "named_expression" => self.named(),
            "or_test" => self.bin(1), "and_test" => self.bin(2), "not_test" => self.bin(3), "comparison" => self.bin(4),
            "expr" => self.bin(5), "xor_expr" => self.bin(6), "and_expr" => self.bin(7), "shift" => self.bin(8), "arith" => self.bin(9), "term" => self.bin(10), "factor" => self.bin(11),
            "power" => if first(self, &["PyPlus", "PyMinus", "PyBitInvert"]) { self.no() } else { self.bin(11) },
            "atom_expr" => self.atom_expr(), "atom" => self.atom(),
            "star_expr" => self.star(),
            "testlist_comp" => self.testlist_comp("PyRightParen"),
            "subscript" => self.subscript(), "subscript_list" => self.subscripts(),
            "exprlist" => self.exprlist(&["PyIn", "Newline", "PySemiColon"]), "testlist" => self.testlist(), "testlist_star_expr" => self.testlist_star(),
            "arglist" => self.arglist(), "argument" => self.argument(),
            "comp_for" => if first(self, &["PyFor", "PyAsync"]) { self.comp_for() } else { self.no() },
            "sync_comp_for" => if first(self, &["PyFor"]) { self.comp_for() } else { self.no() },
            "comp_if" => if first(self, &["PyIf"]) { self.comp_iter() } else { self.no() },
            "comp_iter" => if first(self, &["PyIf", "PyFor", "PyAsync"]) { self.comp_iter() } else { self.no() },
            "yield_expr" | "yield_stmt" => self.yield_expr(),
            "var_args_list" => self.varargs(), "vfp_def" => self.vname(), "var_args_assignments" => self.vparam(),
            "stmt" => self.stmt(), "simple_stmt" => self.simple(), "small_stmt" => self.small(), "expr_stmt" => self.expr_stmt(),
            "del_stmt" => if first(self, &["PyDel"]) { self.small() } else { self.no() },
            "pass_stmt" => if first(self, &["PyPass"]) { self.small() } else { self.no() },
            "flow_stmt" => if first(self, &["PyBreak", "PyContinue", "PyReturn", "PyRaise", "PyYield"]) { self.small() } else { self.no() },
            "break_stmt" => if first(self, &["PyBreak"]) { self.small() } else { self.no() },
            "continue_stmt" => if first(self, &["PyContinue"]) { self.small() } else { self.no() },
            "return_stmt" => if first(self, &["PyReturn"]) { self.small() } else { self.no() },
            "raise_stmt" => if first(self, &["PyRaise"]) { self.small() } else { self.no() },
            "import_stmt" => if first(self, &["PyImport", "PyFrom"]) { self.small() } else { self.no() },
            "import_name" => if first(self, &["PyImport"]) { self.small() } else { self.no() },
            "import_from" => if first(self, &["PyFrom"]) { self.small() } else { self.no() },
            "global_stmt" => if first(self, &["PyGlobal"]) { self.small() } else { self.no() },
            "nonlocal_stmt" => if first(self, &["PyNonLocal"]) { self.small() } else { self.no() },
            "assert_stmt" => if first(self, &["PyAssert"]) { self.small() } else { self.no() },
            "dotted_name" => self.dotted(),
            "trailer" => if first(self, &["PyDot", "PyLeftParen", "PyLeftBracket"]) { self.trailer().map(|x| x.unwrap_or(Tr::Nil)) } else { self.no() },
            "dictorset_maker" => self.dict_or_set().map(|x| x.1),
            "import_as_names" => self.as_names(false), "import_as_name" => self.as_name(),
            "dotted_as_names" => self.dotted_as_names(), "dotted_as_name" => self.dotted_as_name(),
            "elif_stmt" => if first(self, &["PyElif"]) { self.elif() } else { self.no() },
            "decorator" => if first(self, &["PyMatrice"]) { self.decorator() } else { self.no() },
            "compound_stmt" => self.compound(),
            "if_stmt" => if first(self, &["PyIf"]) { self.compound() } else { self.no() },
            "while_stmt" => if first(self, &["PyWhile"]) { self.compound() } else { self.no() },
            "for_stmt" => if first(self, &["PyFor"]) { self.compound() } else { self.no() },
            "try_stmt" => if first(self, &["PyTry"]) { self.compound() } else { self.no() },
            "with_stmt" => if first(self, &["PyWith"]) { self.compound() } else { self.no() },
            "async_stmt" | "async_func_def" => if first(self, &["PyAsync"]) && (name == "async_stmt" || self.k2() == "PyDef") { self.compound() } else { self.no() },
            "decorated" => if first(self, &["PyMatrice"]) { self.compound() } else { self.no() },
            "func_def" => if first(self, &["PyDef"]) { self.compound() } else { self.no() },
            "class_def" => if first(self, &["PyClass"]) { self.compound() } else { self.no() },
            "else_stmt" => if first(self, &["PyElse"]) { self.else_() } else { self.no() },
            "finally_stmt" => if first(self, &["PyFinally"]) { self.finally() } else { self.no() },
            "with_item" => self.with_item(),
            "suite" => self.suite(), "func_body_suite" => self.body("FuncBodySuite"),
            "type_list" => self.typelist(), "func_type" => self.signature(),
            "decorators" => if first(self, &["PyMatrice"]) { self.decorators() } else { self.no() },
            "parameters" => self.parameters(), "tfp_def" => self.tname(), "tfp_def_assign" => self.tparam(),
            // the kind of the handlers so far is the try statement's: none when the parser is fresh
            "except_clause" => if first(self, &["PyExcept"]) { self.except_clause(&mut None) } else { self.no() },
            "except_stmt" => if first(self, &["PyExcept"]) { self.except(&mut None) } else { self.no() },
            _ => return None,
        })
    }
    pub fn at(t: &'a [Tk], err: bool, i: usize) -> P<'a> { P { t, i, err, open: vec![] } }
    pub fn lexerr(&self) -> bool { self.err }
}

pub const _CMP: [&str; 6] = CMP;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry { File, Eval, Single, Func }

/// Expected outcome of a whole-text entry point
pub fn expect(t: &[Tk], err: bool, e: Entry) -> R {
    let mut p = P::new(t, err);
    let r = match e { Entry::File => p.file(), Entry::Eval => p.eval(), Entry::Single => p.single(), Entry::Func => p.func_type() };
    if err && e != Entry::Single { return Err(Pe::Reject) }
    r
}

/// Where a text that is rejected stops being one: the start of the innermost statement, atom or trailer that is not
/// finished there, and the token that cannot stand there (None: a lexical error; false: it has no place of its own)
pub fn place(t: &[Tk], err: bool, e: Entry) -> Option<(u32, Option<(u32, bool)>)> {
    let mut p = P::new(t, err);
    let r = match e { Entry::File => p.file(), Entry::Eval => p.eval(), Entry::Single => p.single(), Entry::Func => p.func_type() };
    if r != Err(Pe::Reject) { return None }
    // the bracket behind 'with' belongs to the statement
    // what a ',' ends may be finished
    let behind = p.i.min(t.len()) > 0 && t[p.i.min(t.len()) - 1].kind == "PyComa";
    let open = p.open.iter().rev().filter(|o| o.0 < p.i && o.1 != u32::MAX && !(o.0 > 0 && t[o.0 - 1].kind == "PyWith")).nth(behind as usize).map(|o| o.1).unwrap_or(0);
    if p.i >= t.len() { return Some((open, None)) }
    Some((open, Some((t[p.i].pos.map(|x| x.0).unwrap_or(p.end().1), t[p.i].pos.is_some()))))
}
