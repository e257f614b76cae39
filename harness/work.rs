// Workloads shared by the checks.
use super::gen::*;
use super::refparse::Entry;

/// What part of the language a form or generator exercises
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Area { Ops, Prim, Simple, Compound, Lexical, Types }

/// text = pre + rep*n + mid + close*n
pub struct Form { pub name: &'static str, pub area: Area, pub entry: Entry, pub pre: &'static str, pub rep: &'static str, pub mid: &'static str, pub close: &'static str, pub post: &'static str, pub deep: bool }
impl Form {
    pub fn text(&self, n: usize) -> String {
        let mut s = String::with_capacity(self.pre.len() + n * (self.rep.len() + self.close.len()) + 64);
        s += self.pre; for _ in 0..n { s += self.rep } s += self.mid; for _ in 0..n { s += self.close } s += self.post;
        s
    }
}
const fn flat(name: &'static str, area: Area, pre: &'static str, rep: &'static str, mid: &'static str) -> Form { Form { name, area, entry: Entry::File, pre, rep, mid, close: "", post: "", deep: false } }
const fn eval(name: &'static str, area: Area, pre: &'static str, rep: &'static str, mid: &'static str) -> Form { Form { name, area, entry: Entry::Eval, pre, rep, mid, close: "", post: "", deep: false } }
const fn deep(name: &'static str, area: Area, pre: &'static str, rep: &'static str, mid: &'static str, close: &'static str, post: &'static str) -> Form { Form { name, area, entry: Entry::File, pre, rep, mid, close, post, deep: true } }
const fn single(name: &'static str, area: Area, pre: &'static str, rep: &'static str, mid: &'static str) -> Form { Form { name, area, entry: Entry::Single, pre, rep, mid, close: "", post: "", deep: false } }
const fn func(name: &'static str, area: Area, pre: &'static str, rep: &'static str, mid: &'static str) -> Form { Form { name, area, entry: Entry::Func, pre, rep, mid, close: "", post: "", deep: false } }

use Area::*;
pub const FORMS: &[Form] = &[
    // operators
    eval("or chain", Ops, "a", " or b", "\n"), eval("and chain", Ops, "a", " and b", "\n"), eval("+ chain", Ops, "a", "+b", "\n"), eval("- chain", Ops, "a", " - b", "\n"),
    eval("* chain", Ops, "a", "*b", "\n"), eval("/ chain", Ops, "a", "/b", "\n"), eval("// chain", Ops, "a", "//b", "\n"), eval("% chain", Ops, "a", "%b", "\n"), eval("@ chain", Ops, "a", "@b", "\n"),
    eval("| chain", Ops, "a", "|b", "\n"), eval("^ chain", Ops, "a", "^b", "\n"), eval("& chain", Ops, "a", "&b", "\n"), eval("<< chain", Ops, "a", "<<b", "\n"), eval(">> chain", Ops, "a", ">>b", "\n"),
    eval("< chain", Ops, "a", "<b", "\n"), eval("> chain", Ops, "a", ">b", "\n"), eval("== chain", Ops, "a", "==b", "\n"), eval("!= chain", Ops, "a", "!=b", "\n"), eval("<> chain", Ops, "a", "<>b", "\n"), eval("<= chain", Ops, "a", "<=b", "\n"), eval(">= chain", Ops, "a", ">=b", "\n"),
    eval("in chain", Ops, "a", " in b", "\n"), eval("not in chain", Ops, "a", " not in b", "\n"), eval("is chain", Ops, "a", " is b", "\n"), eval("is not chain", Ops, "a", " is not b", "\n"),
    eval("mixed chain", Ops, "a", " + b * c - d ** e", "\n"), eval("mixed chain 2", Ops, "a", " < b | c and not d or e", "\n"), eval("mixed chain 3", Ops, "a", " >> b & c ^ d is not e", "\n"),
    Form { name: "** chain", area: Ops, entry: Entry::Eval, pre: "a", rep: "**b", mid: "\n", close: "", post: "", deep: true },
    Form { name: "not nest", area: Ops, entry: Entry::Eval, pre: "", rep: "not ", mid: "a\n", close: "", post: "", deep: true },
    Form { name: "- nest", area: Ops, entry: Entry::Eval, pre: "", rep: "-", mid: "a\n", close: "", post: "", deep: true },
    Form { name: "+ ~ nest", area: Ops, entry: Entry::Eval, pre: "", rep: "+~", mid: "a\n", close: "", post: "", deep: true },
    Form { name: "else chain", area: Ops, entry: Entry::Eval, pre: "", rep: "a if b else ", mid: "c\n", close: "", post: "", deep: true },
    Form { name: "** - nest", area: Ops, entry: Entry::Eval, pre: "a", rep: "**-b", mid: "\n", close: "", post: "", deep: true },
    eval("all operators", Ops, "a", " + b - c * d / e // f % g @ h ** i << j >> k & l ^ m | n", "\n"), eval("all comparisons", Ops, "a", " < b <= c > d >= e == f != g <> h in i not in j is k is not l", "\n"), eval("all unary", Ops, "a", " + -b * ~c and not d or e - +f", "\n"),
    // primaries
    eval("attributes", Prim, "a", ".b", "\n"), eval("calls", Prim, "a", "()", "\n"), eval("indexes", Prim, "a", "[0]", "\n"), eval("trailers", Prim, "a", ".b(c)[d]", "\n"), eval("await trailers", Prim, "await a", ".b()", "\n"),
    eval("list", Prim, "[a", ",b", "]\n"), eval("list trailing", Prim, "[a,", "b,", "]\n"), eval("tuple", Prim, "(a,", "b,", ")\n"), eval("tuple 2", Prim, "(a", ",b", ")\n"), eval("star list", Prim, "[*a", ",*b", "]\n"), eval("star tuple", Prim, "(*a,", "*b,", ")\n"),
    eval("set", Prim, "{a", ",b", "}\n"), eval("star set", Prim, "{*a", ",*b", ",}\n"), eval("dict", Prim, "{a:b", ",c:d", "}\n"), eval("dict trailing", Prim, "{a:b,", "c:d,", "}\n"), eval("star dict", Prim, "{**a", ",**b", "}\n"), eval("mixed dict", Prim, "{a:b", ",**c,d:e", "}\n"),
    eval("arguments", Prim, "f(a", ",b", ")\n"), eval("arguments trailing", Prim, "f(a,", "b,", ")\n"), eval("keyword arguments", Prim, "f(a=b", ",c=d", ")\n"), eval("star arguments", Prim, "f(*a", ",*b", ")\n"), eval("power arguments", Prim, "f(**a", ",**b", ",)\n"), eval("mixed arguments", Prim, "f(a", ",*b,c=d,**e", ")\n"), eval("walrus arguments", Prim, "f(a:=b", ",c:=d", ")\n"),
    eval("subscripts", Prim, "a[b", ",c", "]\n"), eval("slices", Prim, "a[b:c", ",d:e:f", "]\n"), eval("slices trailing", Prim, "a[:,", "::,", "]\n"), eval("strings", Prim, "'a'", " \"b\"", "\n"), eval("strings glued", Prim, "''", "'b'\"c\"", "\n"),
    eval("comp fors", Prim, "[a for b in c", " for d in e", "]\n"), eval("comp ifs", Prim, "(a for b in c", " if d", ")\n"), eval("comp mixed", Prim, "[a async for b in c", " if d async for e in f", "]\n"), eval("comp targets", Prim, "[a for b", ",c", " in d]\n"), eval("comp star targets", Prim, "[a for *b", ",*c", " in d]\n"),
    eval("lambda parameters", Prim, "lambda a", ",b", ":c\n"), eval("lambda defaults", Prim, "lambda a=b", ",c=d", ":e\n"), eval("lambda keyword only", Prim, "lambda *a", ",b=c", ":e\n"), eval("lambda slash", Prim, "lambda a", ",b", ",/,c,*d,**e:f\n"),
    eval("test list", Prim, "a", ",b", "\n"), eval("test list trailing", Prim, "a,", "b,", "\n"), flat("yield list", Prim, "yield a", ",b", "\n"), flat("walrus list", Prim, "[a:=b", ",c:=d", "]\n"), eval("bars and calls", Prim, "f(a|b", ",c|d", ")\n"),
    deep("parentheses", Prim, "", "(", "a", ")", "\n"), deep("brackets", Prim, "", "[", "a", "]", "\n"), deep("braces", Prim, "", "{", "a", "}", "\n"), deep("dict nest", Prim, "", "{a:", "b", "}", "\n"), deep("call nest", Prim, "", "f(", "a", ")", "\n"), deep("index nest", Prim, "", "a[", "b", "]", "\n"), deep("tuple nest", Prim, "", "(", "a", ",)", "\n"), deep("comp nest", Prim, "", "[", "a", " for b in c]", "\n"),
    deep("lambda nest", Prim, "", "lambda:", "a", "", "\n"), deep("mixed nest", Prim, "", "(a+[", "b", "]*c)", "\n"), deep("argument nest", Prim, "", "f(a=[b for c in (", "d", ")])", "\n"), deep("yield nest", Prim, "", "(yield ", "a", ")", "\n"),
    eval("mixed list", Prim, "[a", ",1,'s',(b),[c],{d},{e:f},*g,...,None,True,h.i,j(),k[l],(m,),-n,not o", "]\n"), eval("mixed set", Prim, "{a", ",1,*b,'s',(c,),d if e else f", "}\n"), eval("all arguments", Prim, "f(a", ",*b,c=1,**d,e:=f,g(h),'s',(i for j in k),lambda:l", ")\n"), eval("all trailers", Prim, "a", ".b(c)(*d)[e][f:g](h=i)[::j,k]", "\n"), eval("all slices", Prim, "a[b", ",c:d,::e,:,f:,:g,h:i:j,'s'", "]\n"), eval("all entries", Prim, "{a:b", ",**c,1:'s',d():[e],(f,):lambda g:h", "}\n"), eval("all strings", Prim, "''", " r'a' b\"c\" '''d''' f'{e}' u\"\"\"f\"\"\" Rb'\\''", "\n"), eval("all parameters", Prim, "lambda a", ",b=1,c='s',d=e.f", ",/,g=h,*i,j=k,**l:m\n"), eval("comp clauses", Prim, "[a for b in c", " if d for e,*f in g if h if i async for j in k", "]\n"),
    // simple statements
    flat("lines", Simple, "", "a\n", ""), flat("assign lines", Simple, "", "a=b\n", ""), flat("semicolons", Simple, "a", ";b", "\n"), flat("semicolons trailing", Simple, "a;", "b;", "\n"), flat("pass list", Simple, "pass", ";pass", "\n"), flat("assign chain", Simple, "a", "=b", "=c\n"), flat("assign tuples", Simple, "a", ",b", "=c\n"), flat("assign yield", Simple, "a", "=yield b", "\n"),
    flat("assign values", Simple, "a=b", ",c", "\n"), flat("augmented tuple", Simple, "a+=b", ",c", "\n"), flat("annotated tuple", Simple, "a:b=c", ",d", "\n"), flat("return list", Simple, "return a", ",*b", "\n"), flat("del list", Simple, "del a", ",b", "\n"), flat("del trailing", Simple, "del a,", "b,", "\n"),
    flat("import list", Simple, "import a", ",b", "\n"), flat("import dots", Simple, "import a", ".b", "\n"), flat("import as", Simple, "import a as b", ",c.d as e", "\n"), flat("from list", Simple, "from a import b", ",c", "\n"), flat("from as", Simple, "from a import b as c", ",d as e", "\n"), flat("from parens", Simple, "from a import (b", ",c", ",)\n"), flat("from dots", Simple, "from ", ".", " import a\n"), flat("from dots 2", Simple, "from ", ".", "a.b import *\n"), flat("from module", Simple, "from a", ".b", " import c\n"), flat("from ellipses", Simple, "from .", "...", "a import b\n"),
    flat("global", Simple, "global a", ",b", "\n"), flat("nonlocal", Simple, "nonlocal a", ",b", "\n"), flat("star statement", Simple, "*a,", "*b,", "\n"), flat("returns", Simple, "", "return\n", ""), flat("raises", Simple, "", "raise a from b\n", ""), flat("asserts", Simple, "", "assert a,b;", "pass\n"), flat("type comments", Simple, "", "a=b # type: c\n", ""), flat("imports", Simple, "", "import a;from . import b\n", ""), flat("dels", Simple, "", "del a\nglobal b\n", ""),
    flat("all statements", Simple, "", "a=b;c+=d;del e;pass\nassert f,g;global h,i\nimport j.k as l;from .m import (n as o,)\np:q=r\nraise s from t\nu(v)[w].x\nnonlocal y\nreturn z,\n", ""), flat("all in a line", Simple, "a", ";b=c;d+=1;del e;pass;break;continue;return;yield a;import f;global g;assert h;raise", "\n"),
    // compound statements
    flat("elifs", Compound, "if a:b\n", "elif c:d\n", ""), flat("elifs else", Compound, "if a:b\n", "elif c:\n d\n", "else:e\n"), flat("excepts", Compound, "try:a\n", "except b:c\n", "except:d\n"), flat("except stars", Compound, "try:a\nexcept* b:c\n", "except* b as c:d\n", "else:e\nfinally:f\n"), flat("with items", Compound, "with a", ",b as c", ":d\n"), flat("with parens", Compound, "with (a", ",b as c", ",):d\n"), flat("decorators", Compound, "@a\n", "@b.c(d)\n", "class e:f\n"), flat("bases", Compound, "class a(b", ",c", "):d\n"), flat("base keywords", Compound, "class a(b", ",c=d", ",):e\n"), flat("decorator args", Compound, "@a(b", ",c", ")\ndef d():e\n"),
    flat("for targets", Compound, "for a", ",b", " in c:d\n"), flat("for values", Compound, "for a in b", ",c", ":d\n"), flat("block lines", Compound, "if a:\n", " b\n", " c\n"), flat("def lines", Compound, "def a():\n", "  b\n", "  c\nd\n"), flat("suite semicolons", Compound, "while a:b", ";c", "\n"), flat("ifs", Compound, "", "if a:b\n", ""), flat("blocks", Compound, "", "if a:\n b\n", ""), flat("fors", Compound, "", "for a in b:\n c\nelse:\n d\n", ""), flat("trys", Compound, "", "try:a\nexcept* b:c\n", ""), flat("withs", Compound, "", "with a as b:c\n", ""), flat("defs", Compound, "", "def a()->b:c\n", ""), flat("classes", Compound, "", "class a(b):\n\tc\n", ""), flat("asyncs", Compound, "", "async def a():b\n", ""), flat("whiles", Compound, "", "while a:b\nelse:c\n", ""), flat("decorated", Compound, "", "@a\nasync def b():c\n", ""), flat("def type comments", Compound, "", "def a(): # type: b\n c\n", ""), flat("dotted decorator", Compound, "@a", ".b", "\nclass c:d\n"),
    flat("all compounds", Compound, "", "if a:b\nelif c:\n d\nelse:e\nwhile f:g\nfor h in i:\n\tj\nelse:k\ntry:\n  l\nexcept m as n:o\nelse:p\nfinally:q\nwith r as s,t:u\n@v\nasync def w()->x:\n   y\nclass z(a):b\n", ""), flat("all compounds in a block", Compound, "def z():\n", " if a:b\n while c:\n  d\n  e\n try:f\n except:\n   g\n for h in i:j\n with k:\n\tl\n m;n\n", ""), flat("handlers of all kinds", Compound, "try:a\n", "except b:c\nexcept (d,e) as f:\n g\nexcept h.i():j;k\n", "except:l\n"),
    // lexical bulk
    flat("blank lines", Lexical, "a\n", "\n", "b\n"), flat("blank lines with blanks", Lexical, "if a:\n  b\n", "     \t \n", "  c\n"), flat("comment lines", Lexical, "a\n", "# c\n", "b\n"), flat("indented comments", Lexical, "if a:\n b\n", "   # c\n", " d\n"), flat("spaces", Lexical, "a", " ", "+b\n"), flat("tabs", Lexical, "a", "\t", "+b\n"), flat("long name", Lexical, "a", "b", "\n"), flat("long number", Lexical, "1", "2", "\n"), flat("long grouped number", Lexical, "1", "_000", "\n"), flat("long zero", Lexical, "0", "0", "\n"), flat("long hex", Lexical, "0x", "aF", "0\n"), flat("long octal", Lexical, "0o7", "01", "\n"), flat("long binary", Lexical, "0b1", "_0", "\n"), flat("long fraction", Lexical, "1.", "5", "\n"), flat("long exponent", Lexical, "1e", "1", "9j\n"), flat("long string", Lexical, "'", "x", "'\n"), flat("long triple", Lexical, "\"\"\"", "x\n", "\"\"\"\n"), flat("long escapes", Lexical, "rb'", "\\'", "'\n"), flat("long triple escapes", Lexical, "'''", "\\'''", "'''\n"), flat("string lines", Lexical, "'", "\\\n", "'\n"), flat("long comment", Lexical, "a#", "c", "\nb\n"), flat("unicode name", Lexical, "é", "ß", "\n"), flat("unicode string", Lexical, "'", "\u{1F600}", "'\n"), flat("continuations", Lexical, "a", "\\\n", "+b\n"), flat("continuations with blanks", Lexical, "a+", " \\\r ", "b\n"), flat("bracket lines", Lexical, "[a", ",\n", "b]\n"), flat("bracket breaks", Lexical, "(a", "\n", ")\n"), flat("bracket comments", Lexical, "(a", " # c\n  ", ")\nb\n"), flat("returns only", Lexical, "a", "\r", "b\r"), flat("operators only", Lexical, "a", "-", "b\n"), flat("column", Lexical, "if a:\n", " ", " b\nc\n"), flat("tab column", Lexical, "if a:\n", "\t", " b\nc\n"), flat("type comment", Lexical, "a=b # type: ", "c", "\n"), flat("words", Lexical, "a", " and b", "\n"),
    flat("mixed string", Lexical, "'", "aZ 09_\"\\n\\'\t\\\\#{}()é日\u{1F600}.,;:=+-*/%@!?$^&|~<>[]`", "'\n"), flat("mixed triple", Lexical, "'''", "aZ 09_\"\"\\n\\'''\t\\\\#{}()é\u{1F600}.'x''y\n\r\n\r", "'''\n"), flat("mixed comment", Lexical, "a#", "aZ 09_\"'\\\t##type: {}()é\u{1F600}.,;:=+-*/%@!?$^&|~<>[]`", "\nb\n"), flat("mixed name", Lexical, "a", "bZ09__é日Ab9", "\n"), flat("digits in a string", Lexical, "\"", "0", "\"\n"), flat("white string", Lexical, "'", " ", "'\n"), flat("quotes in a string", Lexical, "\"", "'", "\"\n"), flat("mixed blanks", Lexical, "a", " \t  \t\t", "+b\n"), flat("mixed blank lines", Lexical, "if a:\n  b\n", "\n# c\n\t\n\r   # d\n\n", "  c\n"), flat("mixed lines", Lexical, "[a", ", # c\n\t b,\r c,\\\n d", "]\n"),
    // type input
    func("types", Types, "(a", ",b", ")->c\n"), func("types trailing", Types, "(a", ",b", ",)->c\n"), func("star types", Types, "(a", ",b", ",*c,**d)->e\n"), func("after star", Types, "(*a", ",b", ")->c\n"), func("type newlines", Types, "(a)->b", "\n", ""),
    single("single semicolons", Types, "a", ";b", "\n"), single("single block", Types, "if a:\n", " b\n", ""), single("single elifs", Types, "if a:b\n", "elif c:d\n", "\n"), single("single list", Types, "a", ",b", "\n"), eval("eval newlines", Types, "a", "\n", ""), flat("only newlines", Types, "", "\n", ""),
];

/// Block nestings (quadratic text): n levels
pub fn nested_blocks(kind: usize, n: usize) -> String {
    let heads = ["if a:\n", "while a:\n", "for a in b:\n", "class a:\n", "def a():\n", "with a:\n", "try:\n", "async def a():\n"];
    let mut s = String::new();
    for i in 0..n { s += &" ".repeat(i); s += if kind < 8 { heads[kind] } else { heads[(i * 5 + kind) % 6] } }
    s += &" ".repeat(n); s += "a\n";
    if kind == 6 { for i in (0..n).rev() { s += &" ".repeat(i); s += "finally:b\n" } }
    s
}

/// numbers worth trying as sizes
pub fn sizes(limit: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for k in 6..22 { for d in [-1i64, 0, 1] { v.push(((1i64 << k) + d) as usize) } }
    for x in [50, 99, 100, 101, 150, 199, 200, 201, 300, 500, 999, 1000, 1001, 3000, 5000, 10000, 10001, 20000] { v.push(x) }
    for x in super::tree::COUNTED { for d in [-1i64, 0, 1] { v.push((*x as i64 + d) as usize) } }
    v.sort(); v.dedup(); v.retain(|x| *x <= limit);
    v
}

/// index -> string over an alphabet, all strings of lengths 0..=max
pub fn word(alphabet: &[&str], max: usize, mut i: u64) -> Option<Vec<usize>> {
    let a = alphabet.len() as u64;
    let mut len = 0;
    let mut block = 1u64;
    while i >= block { i -= block; block *= a; len += 1; if len > max { return None } }
    let mut v = vec![0; len];
    for k in (0..len).rev() { v[k] = (i % a) as usize; i /= a }
    Some(v)
}
pub fn words(alphabet: &[&str], max: usize) -> u64 { let a = alphabet.len() as u64; (0..=max as u32).map(|k| a.pow(k)).sum() }
pub fn spell(alphabet: &[&str], max: usize, i: u64, sep: &str) -> String { word(alphabet, max, i).unwrap().iter().map(|k| alphabet[*k]).collect::<Vec<_>>().join(sep) }

/// Puts an expression (text) in one of many places
pub const PLACES: [(&str, &str); 62] = [
    ("", "\n"), ("(", ")\n"), ("[", "]\n"), ("{", "}\n"), ("{", ":z}\n"), ("{z:", "}\n"), ("f(", ")\n"), ("f(z,", ")\n"), ("f(z=", ")\n"), ("f(*", ")\n"), ("f(**", ")\n"), ("z[", "]\n"), ("z[:", "]\n"), ("z[::", "]\n"), ("z[", ":]\n"), ("z[y,", "]\n"),
    ("z=", "\n"), ("z+=", "\n"), ("z:", "\n"), ("z:y=", "\n"), ("return ", "\n"), ("yield ", "\n"), ("yield from ", "\n"), ("raise ", "\n"), ("raise z from ", "\n"), ("assert ", "\n"), ("assert z,", "\n"), ("if ", ":pass\n"), ("if z:pass\nelif ", ":pass\n"), ("while ", ":pass\n"), ("for z in ", ":pass\n"), ("with ", " as y:pass\n"), ("with z,", ":pass\n"), ("try:pass\nexcept ", ":pass\n"), ("try:pass\nexcept* ", " as e:pass\n"), ("class z(", "):pass\n"), ("class z(y=", "):pass\n"), ("@z(", ")\nclass y:pass\n"), ("def f()->", ":pass\n"), ("lambda:", "\n"), ("lambda z=", ":0\n"), ("lambda *z,y=", ":0\n"), ("z,", "\n"), ("*z,", ",\n"), ("[z,", "]\n"), ("(z,", ")\n"), ("[", " for z in y]\n"), ("(z for y in x if (", "))\n"), ("z if y else ", "\n"), ("a;", ";b\n"), ("if z:\n\t", "\n"), ("z=y=", "\n"), ("(yield ", ")\n"), ("(z:=", ")\n"), ("f(z:=", ")\n"), ("{z,", "}\n"), ("{**z,y:", "}\n"), ("z.y[", "].x\n"), ("await z(", ")\n"), ("-z(", ")**x\n"), ("f(", " for z in y)\n"), ("z[y:", ":x]\n"),
];

/// A generated program of one area
pub struct Prog { pub items: Vec<G>, pub entry: Entry }
pub fn program(area: Option<Area>, mut r: Rng, size: i32) -> (Prog, Rng) {
    let budget = 4 + r.n(size.max(8) as usize) as i32;
    let mut g = Gen::new(r, budget);
    let mut entry = Entry::File;
    match area {
        Some(Ops) => { g.o.ops = 40 + g.r.u64() % 50; g.o.prim = g.r.u64() % 15; g.o.tern = g.r.u64() % 30; g.o.walrus = g.r.u64() % 30; g.o.awaits = g.r.u64() % 20; if g.r.p(50) { entry = Entry::Eval; g.test() } else { expr_in_place(&mut g, false) } if entry == Entry::Eval { g.out.push(G::Nl) } }
        Some(Prim) => { g.o.prim = 30 + g.r.u64() % 60; g.o.ops = g.r.u64() % 12; g.o.maxlist = 2 + g.r.n(9); if g.r.p(50) { entry = Entry::Eval; g.testlist(); g.out.push(G::Nl) } else { expr_in_place(&mut g, true) } }
        Some(Simple) => { g.o.prim /= 3; g.o.ops /= 2; g.o.maxlist = 2 + g.r.n(6); let n = 1 + g.r.n(4); for _ in 0..n { g.simple() } }
        Some(Compound) => { g.o.prim /= 4; g.o.ops /= 3; let n = 1 + g.r.n(3); for _ in 0..n { let d = 1 + g.r.n(5); g.compound(d) } }
        Some(Types) => match g.r.n(3) {
            0 => { entry = Entry::Func; g.functype(); g.out.push(G::Nl) }
            1 => { entry = Entry::Eval; g.testlist(); g.out.push(G::Nl) }
            _ => { entry = Entry::Single; if g.r.p(50) { g.simple() } else { let d = 1 + g.r.n(4); g.compound(d) } }
        },
        _ => { let n = g.r.n(7); g.file(n) }
    }
    let r = g.r.clone();
    (Prog { items: g.out, entry }, r)
}
fn expr_in_place(g: &mut Gen, prim: bool) {
    let one = |g: &mut Gen| if prim { g.left += 6; g.operand() } else { g.test() };
    match g.r.n(14) {
        0 => { one(g); g.out.push(G::Nl) }
        1 => { g.name(); g.t("="); one(g); g.out.push(G::Nl) }
        2 => { g.t("if"); if prim { one(g) } else { g.named() } g.t(":"); g.t("pass"); g.out.push(G::Nl) }
        3 => { g.t("while"); if prim { one(g) } else { g.named() } g.t(":"); g.t("pass"); g.out.push(G::Nl) }
        4 => { g.t("return"); one(g); g.t(","); one(g); g.out.push(G::Nl) }
        5 => { g.t("f"); g.t("("); one(g); g.t(","); g.name(); g.t("="); one(g); g.t(")"); g.out.push(G::Nl) }
        6 => { g.t("x"); g.t("["); one(g); g.t(":"); one(g); g.t("]"); g.out.push(G::Nl) }
        7 => { g.t("{"); one(g); g.t(":"); one(g); g.t("}"); g.out.push(G::Nl) }
        8 => { g.t("lambda"); g.t(":"); one(g); g.out.push(G::Nl) }
        9 => { g.t("["); one(g); g.t("for"); g.exprlist(); g.t("in"); g.or_test(); g.t("]"); g.out.push(G::Nl) }
        10 => { g.name(); g.t("*="); one(g); g.out.push(G::Nl) }
        11 => { g.t("assert"); one(g); g.t(","); one(g); g.out.push(G::Nl) }
        12 => { g.t("("); g.named(); g.t(","); g.named(); g.t(")"); g.out.push(G::Nl) }
        _ => { g.t("class"); g.name(); g.t("("); one(g); g.t(")"); g.t(":"); g.t("pass"); g.out.push(G::Nl) }
    }
}
pub fn text_of(items: &[G], r: &mut Rng) -> String {
    let st = match r.n(4) { 0 => Style::plain(), 1 => Style::pretty(), _ => Style::random(r, false) };
    layout(items, &st, r)
}
