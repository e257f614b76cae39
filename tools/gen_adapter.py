#!/usr/bin/env python3
"""gen_adapter.py REPO OUT: generates adapter.rs from the variant lists of nodes.rs / tokens.rs / trivias.rs (names and arity only)."""
import re,sys
R=sys.argv[1]+'/src/parser/'
def variants(path,name):
    s=open(path).read(); s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'//[^\n]*','',s); s=re.sub(r'#\[[^\]]*\]','',s); i=s.index('pub enum '+name); j=s.index('{',i)+1
    d=1;k=j
    while d: 
        d+= {'{':1,'}':-1}.get(s[k],0); k+=1
    body=s[j:k-1]; out=[];p=0
    while True:
        m=re.compile(r'\s*(\w+)\(').match(body,p)
        if not m: break
        q=m.end();d=1;n=1;ang=0;empty=True
        while d:
            c=body[q]
            if c=='(':d+=1
            elif c==')':d-=1
            elif c=='<':ang+=1
            elif c=='>':ang-=1
            elif c==',' and d==1 and ang==0:n+=1
            q+=1
        out.append((m.group(1),n,body[m.end():q-1])); 
        p=q
        m=re.compile(r'\s*,').match(body,p)
        if m:p=m.end()
    return out
o=['// Generated by tools/gen_adapter.py: turns the tree and tokens of the code under test into Tr.','']
o.append('impl Dump for ASTNode {\n    fn dump(&self) -> Tr {\n        match self {')
for n,k,_ in variants(R+'nodes.rs','ASTNode'):
    f=['f%d'%i for i in range(k-2)]
    o.append('            ASTNode::%s(s, e, %s) => nd("%s", *s, *e, vec![%s]),'%(n,', '.join(f),n,', '.join(x+'.dump()' for x in f)))
o.append('            #[allow(unreachable_patterns)]\n            _ => nd("?", 0, 0, vec![]),\n        }\n    }\n}\n')
o.append('pub fn tok_of(t: &Token) -> Tk {\n    match t {')
for n,k,b in variants(R+'tokens.rs','Token'):
    if n=='AtomString': o.append('        Token::AtomString(s, e, t, x, p) => Tk::new("AtomString", Some((*s, *e)), trivs(t), Some(x.text()), p.as_ref().map(|p| p.text())),')
    elif n=='Newline': o.append('        Token::Newline(s, e, t, a, b) => Tk::new("Newline", Some((*s, *e)), trivs(t), Some([*a, *b].iter().collect()), None),')
    elif n in('Indent','Dedent'): o.append('        Token::%s(t) => Tk::new("%s", None, trivs(t), None, None),'%(n,n))
    elif n=='EOF': o.append('        Token::EOF(s, t) => Tk::new("EOF", Some((*s, *s)), trivs(t), None, None),')
    elif k==4: o.append('        Token::%s(s, e, t, x) => Tk::new("%s", Some((*s, *e)), trivs(t), Some(x.text()), None),'%(n,n))
    else:
        assert k==3,n
        o.append('        Token::%s(s, e, t) => Tk::new("%s", Some((*s, *e)), trivs(t), None, None),'%(n,n))
o.append('    }\n}')
# A dictionary for the generators: texts, characters and numbers the code under test mentions
import glob
SCAN = re.compile(r'//[^\n]*|/\*.*?\*/|"((?:[^"\\]|\\.)*)"|' + r"'((?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)))'" + r'|(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|size))?(?![\w.])', re.S)
def plain(x):
    x = re.sub(r'\\\n\s*', '', x)
    f = lambda m: {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(m.group(3), m.group(3)) if m.group(3) else chr(int((m.group(1) or m.group(2)).replace('_', ''), 16))
    return re.sub(r'\\(?:u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|(.))', f, x)
texts, ints = set(), set()
for f in sorted(glob.glob(sys.argv[1] + '/src/**/*.rs', recursive=True)):
    s = open(f, encoding='utf8').read()
    i = s.find('#[cfg(test)]')
    if i >= 0: s = s[:i]
    for m in SCAN.finditer(s):
        try:
            if m.group(1) is not None: x = plain(m.group(1))
            elif m.group(2) is not None: x = plain(m.group(2))
            elif m.group(3): ints.add(int(m.group(3).replace('_', ''), 0)); continue
            else: continue
        except ValueError: continue
        if 0 < len(x) <= 24 and not re.search(r'[{}]\S*[{}]', x): texts.add(x)
BITS = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767}
for f in sorted(glob.glob(sys.argv[1] + '/src/**/*.rs', recursive=True)):
    s = open(f, encoding='utf8').read()
    i = s.find('#[cfg(test)]')
    if i >= 0: s = s[:i]
    for m in re.finditer(r'\b(u8|i8|u16|i16)::MAX', s): ints.add(BITS[m.group(1)])
    for m in re.finditer(r'as\s+(u8|i8|u16|i16)\b', s): ints.add(BITS[m.group(1)])
    for m in re.finditer(r'\b(\d+)\s*(<<|\*)\s*(\d+)\b', s):
        a, b = int(m.group(1)), int(m.group(3))
        ints.add(a << min(b, 20) if m.group(2) == '<<' else a * b)
q = lambda x: '"' + ''.join(c if c.isalnum() and c.isascii() or c in ' _#:.' else '\\u{%x}' % ord(c) for c in x if not 0xd800 <= ord(c) < 0xe000) + '"'
o.append('pub const SAID: &[&str] = &[' + ', '.join(q(x) for x in sorted(texts)) + '];')
o.append('pub const COUNTED: &[u64] = &[' + ', '.join(str(x) for x in sorted(ints) if 4 < x < 1 << 20) + '];')
# The rules of the parser that take nothing but the parser, with the names they have in the traits
uses, rules = [], []
for f in sorted(glob.glob(R + '*.rs')):
    s = open(f, encoding='utf8').read()
    i = s.find('#[cfg(test)]')
    if i >= 0: s = s[:i]
    mod = f.split('/')[-1][:-3]
    for m in re.finditer(r'pub trait (\w+)[^{]*\{(.*?)\n\}', s, re.S):
        names = re.findall(r'fn (parse_(?:expressions|statements|blocks|functions)_(\w+))\s*\(\s*&mut self\s*\)\s*->\s*Result<Box<ASTNode>,\s*String>', m.group(2))
        if names: uses.append(f'crate::parser::{mod}::{m.group(1)}'); rules += names
o.append('pub mod rulebook {\n    use crate::parser::nodes::ASTNode; use crate::parser::parser::PythonCoreParser;\n' + ''.join(f'    #[allow(unused_imports)] use {u};\n' for u in uses) + '    pub type Rule = fn(&mut PythonCoreParser) -> Result<Box<ASTNode>, String>;\n    pub const RULES: &[(&str, Rule)] = &[' + ', '.join(f'("{b}", |p| p.{a}())' for a, b in rules) + '];\n}')
open(sys.argv[2],'w').write('\n'.join(o)+'\n')
