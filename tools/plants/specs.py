# id, property, needs, what, edits [(file, after, old, new)], demo body
S = []
def s(id, prop, needs, what, edits, demo, **kw): S.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo='pub fn run() {\n' + demo + '\n}\n', **kw))
TK, SB, EX, ST, BL, FN, PA = 'tokenizer', 'source_buffer', 'expressions', 'statements', 'blocks', 'functions', 'parser'

# ---- tokenizer
s('tab-stop', 'P08', 'indentation of blanks followed by a tab', 'a tab adds a whole tab width instead of going to the next stop',
  [(TK, '', 'col = (col / self.tab_size + 1) * self.tab_size;', 'col += self.tab_size;')],
  r'''assert_eq!(kinds("if a:\n\tb\n  \tc\n"), "PyIf AtomName PyColon Newline Indent AtomName Newline AtomName Newline Dedent EOF");
  assert_eq!(kinds("if a:\n   \tb\n    c\n"), kinds("if a:\n    b\n    c\n"));''')
s('long-text-count', 'P08', 'a text of more than 65535 characters with an indented block near its end', 'the number of characters wraps at 16 bits, so indentation far into a text is taken for blanks in front of end of file',
  [(SB, 'fn count', 'self.source_buffer.len() as u32', 'self.source_buffer.len() as u16 as u32')],
  r'''let mut t = "x = 1\n".repeat(20000); t += "if a:\n    b\n";
  assert_eq!(toks(&t).len(), 20000 * 4 + 9); assert!(file(&t).is_ok());''')
s('type-comment-slice', 'P01', 'a comment with a multi-byte character across its seventh byte', 'the test for a type comment slices the comment by bytes',
  [(TK, '', 'match buffer.as_str().starts_with("# type:") {', 'match buffer.len() >= 7 && &buffer[0 .. 7] == "# type:" {')],
  r'''assert_eq!(kinds("# abcd\u{e9}f\nx\n"), "AtomName Newline EOF"); assert_eq!(kinds("# \u{4e16}\u{754c}\n"), "EOF");''')
s('number-value', 'P01', 'a decimal literal above 2**64', 'decimal literals are checked by converting them to a machine integer, which panics when they do not fit',
  [(TK, "( '1' ..= '9', _ , _ ) => {", "match self.source_buffer.get_char() {\n                    '.'  => {", "let value : u64 = buffer.replace('_', \"\").parse().expect(\"decimal digits\");\n                match if value > 0 { self.source_buffer.get_char() } else { '\\0' } {\n                    '.'  => {")],
  r'''assert!(file("x = 18446744073709551616\n").is_ok()); assert!(file("x = 123456789_123456789_123456789.5\n").is_ok());''')
s('type-comment-anywhere', 'P19', 'a comment that mentions "# type:" in its middle', 'a comment that contains a type comment is taken for one',
  [(TK, '', 'match buffer.as_str().starts_with("# type:") {', 'match buffer.as_str().contains("# type:") {')],
  r'''assert!(file("x = 1\n## type: int\ny = 2\n").is_ok()); assert_eq!(kinds("x # a # type: b\n"), "AtomName Newline EOF");''')
s('cr-in-brackets', 'P10', 'a text with CR line breaks inside brackets', 'a lone CR ends the line even inside brackets',
  [(TK, "( '\\r', _ , _ ) => {", 'if is_blank_line || self.parenthesis.is_empty() == false {', 'if is_blank_line {')],
  r'''assert_eq!(kinds("f(a,\rb)\r"), "AtomName PyLeftParen AtomName PyComa AtomName PyRightParen Newline EOF"); assert!(file("x = [\r1,\r2]\r").is_ok());''')
s('any-open-paren', 'P10', 'a closing parenthesis inside an unclosed bracket that is itself in parentheses', 'a closing parenthesis is accepted whenever some parenthesis is open, not only the innermost bracket',
  [(TK, "( ')', _ , _ ) => {", "Some( ')' ) => {", "Some( _ ) if self.parenthesis.contains( &')' ) => {")],
  r'''assert!(kinds("([)").ends_with("ERR")); assert!(kinds("({[(1)])").ends_with("ERR")); assert!(kinds("([1])").ends_with("EOF"));''')
if 0: s('escaped-crlf', 'P05', 'a backslash followed by CR LF inside a single-quoted string', 'a backslash keeps only the CR of a CR LF inside a string',
  [(TK, 'fn handle_string', "( _ , '\\r', '\\n' ) => {\n                                for _i in 1 ..= 3", "( _ , '\\r', '\\n' ) => {\n                                for _i in 1 ..= 2")],
  r'''assert_eq!(kinds("'a\\\r\nb' + c"), "AtomString PyPlus AtomName Newline EOF");''')
s('two-quotes-close', 'P05', 'two quotes in a row inside a triple-quoted string', 'a triple-quoted string ends at two quotes',
  [(TK, 'fn handle_string', '( a, b, c) if quote == a && quote == b && quote == c => {', '( a, b, _ ) if quote == a && quote == b => {')],
  "assert_eq!(kinds(\"'''a''b'''\"), \"AtomString Newline EOF\"); assert_eq!(kinds(\"\\\"\\\"\\\"say \\\"\\\" now\\\"\\\"\\\"\\n\"), \"AtomString Newline EOF\");")
s('hex-upper-after-underscore', 'P04', 'a hexadecimal literal with an upper-case digit right after an underscore', 'upper-case hexadecimal digits are refused after an underscore',
  [(TK, "/* Hex digits */", "match &self.source_buffer.get_char() {\n                                    '0' ..= '9' | 'a' ..= 'f' | 'A' ..= 'F' => {},", "match &self.source_buffer.get_char() {\n                                    '0' ..= '9' | 'a' ..= 'f' => {},")],
  r'''assert_eq!(kinds("0xab_CD"), "AtomNumber Newline EOF"); assert_eq!(kinds("0X_F"), "AtomNumber Newline EOF");''')
s('octal-eight', 'P04', 'an octal literal with an 8 after its first digit', 'octal literals take the digit 8',
  [(TK, "/* Octet digits */", "'0' ..= '7' => {\n                                buffer.push", "'0' ..= '8' => {\n                                buffer.push")],
  r'''assert_eq!(kinds("0o18"), "AtomNumber AtomNumber Newline EOF"); assert_eq!(kinds("0o17"), "AtomNumber Newline EOF");''')
s('unicode-name-tail', 'P03', 'a name with a letter outside ASCII after its first character', 'only ASCII characters continue a name',
  [(TK, "( s, _ , _ ) if s.is_alphabetic()", "while self.source_buffer.get_char().is_alphanumeric()", "while self.source_buffer.get_char().is_ascii_alphanumeric() || ( buffer.is_empty() && self.source_buffer.get_char().is_alphabetic() )")],
  r'''assert_eq!(kinds("na\u{ef}ve"), "AtomName Newline EOF"); assert_eq!(kinds("\u{e9}t\u{e9} = 1\n"), "AtomName PyAssign AtomNumber Newline EOF");''')
s('arrow-before-equals', 'P02', 'an arrow directly followed by an equals sign', 'an arrow followed by "=" is split into minus and greater-or-equal',
  [(TK, '', "( '-', '>', _ ) => {", "( '-', '>', c ) if c != '=' => {")],
  r'''assert_eq!(kinds("a->=b"), "AtomName PyArrow PyAssign AtomName Newline EOF"); assert_eq!(kinds("->"), "PyArrow Newline EOF");''')
s('name-byte-end', 'P06', 'a name with a letter outside ASCII', 'the end of a name is computed from the length of its text in bytes',
  [(TK, '_ => Ok(Box::new(Token::AtomName(', '_ => Ok(Box::new(Token::AtomName(self.token_start_position, self.source_buffer.get_position(),', '_ => Ok(Box::new(Token::AtomName(self.token_start_position, self.token_start_position + buffer.len() as u32,')],
  r'''assert!(toks("na\u{ef}ve")[0].starts_with("AtomName(0, 5,"), "{}", toks("na\u{ef}ve")[0]);''')
s('continuation-cr', 'P09', 'a backslash followed by a lone CR', 'a continuation before a lone CR leaves the CR to end the line',
  [(TK, "( '\\\\', '\\r', _ ) => {", "for _i in 1 ..= 2 { let _ = self.source_buffer.advance(); }", "for _i in 1 ..= 1 { let _ = self.source_buffer.advance(); }")],
  r'''assert_eq!(kinds("a + \\\rb\r"), "AtomName PyPlus AtomName Newline EOF");''')
s('tab-run', 'P07', 'several tabs in a row between two tokens', 'a run of tabs is recorded as one tab, its span ending after the first of the run',
  [(TK, "'\\t' => {\n                                self.token_start_position", "let _ = self.source_buffer.advance();\n                                trivia_collector", "while self.source_buffer.get_char() == '\\t' { let _ = self.source_buffer.advance(); }\n                                trivia_collector"),
   (TK, "'\\t' => {\n                                self.token_start_position", "self.source_buffer.get_position(), '\\t')", "self.token_start_position + 1, '\\t')")],
  r'''let t = toks("a\t\t\tb\n"); assert_eq!(t[1].matches("WhiteSpace").count(), 3, "{}", t[1]);''')
s('eof-moves', 'P25', 'asking for tokens again after end of file', 'every end of file token moves the end of file position on',
  [(TK, 'Token::EOF(', "Token::EOF(self.source_buffer.get_position(), match", "Token::EOF({ let at = self.source_buffer.get_position(); self.source_buffer.advance(); at }, match")],
  r'''let mut t = PythonCoreTokenizer::new("a\n".to_string()); let mut v = Vec::new(); for _ in 0..6 { v.push(format!("{:?}", t.get_symbol())) }
  assert!(v[2].contains("EOF(2")); for x in &v[2..] { assert_eq!(x, &v[2]) }''')
s('cursor-clamp', 'P27', 'advancing past the end of the text', 'the cursor stops at the end of the text, so its position no longer counts the steps',
  [(SB, 'fn advance', 'self.index += 1', 'if (self.index as usize) < self.source_buffer.len() + 3 { self.index += 1 }')],
  r'''let mut b = SourceBuffer::new("ab".to_string()); for _ in 0..9 { b.advance() } assert_eq!(b.get_position(), 9); assert_eq!(b.get_char(), '\0');''')
s('lookahead-end', 'P27', 'a lookahead with two characters left where the third would be past the end', 'the third character of a lookahead past the end repeats the last one',
  [(SB, 'fn peek_three_chars', "let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else { &'\\0' };", "let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else if max > 64 { &*&(self.source_buffer[max - 1]) } else { &'\\0' };")],
  r'''let mut b = SourceBuffer::new("a".repeat(100)); for _ in 0..98 { b.advance() } assert_eq!(b.peek_three_chars(), ('a', 'a', '\0')); ''')
s('pending-narrow', 'P08', 'more than 127 blocks closed by one line', 'the count of pending dedents does not fit its type',
  [(TK, '', 'pending: i32,', 'pending: i8,')],
  r'''let mut t = String::new(); for i in 0..200 { t += &" ".repeat(i); t += "if a:\n" } t += &" ".repeat(200); t += "b\nc\n";
  let k = kinds(&t); assert_eq!(count(&k, "Indent"), 200); assert_eq!(count(&k, "Dedent"), 200); assert!(k.ends_with("EOF"));''')

# ---- expressions
s('double-not', 'P11', 'two "not" in a row', 'the operand of "not" cannot start with "not"',
  [(EX, 'fn parse_expressions_not_test(&mut self) -> Result<Box<ASTNode>, String> {', 'let right_node = self.parse_expressions_not_test()?;', 'let right_node = self.parse_expressions_comparison()?;')],
  r'''assert_eq!(count(&shape(eval("not not a")), "NotTest"), 2);''')
s('shift-right-assoc', 'P11', 'a chain with >> followed by another shift', '">>" takes the rest of a chain of shifts as its right operand',
  [(EX, 'Token::PyShiftRight(..) => {', 'let right_node = self.parse_expressions_arith()?;', 'let right_node = self.parse_expressions_shift()?;')],
  r'''assert!(shape(eval("a >> b << c")).starts_with("EvalInput ShiftLeftExpr ShiftRightExpr"));''')
s('conditional-test', 'P11', 'a conditional expression whose condition is itself compared after "not"', 'the condition of a conditional expression stops before "or"',
  [(EX, 'Token::PyIf(..) => {\n                                        let _ = self.advance();\n                                        let right', 'let right = self.parse_expressions_or_test()?;', 'let right = self.parse_expressions_and_test()?;')],
  r'''assert!(shape(eval("a if b or c else d")).starts_with("EvalInput Test AtomName"));''')
s('star-power-operand', 'P15', '"**" in a dictionary display followed by a conditional expression or lambda', 'the first "**" item of a dictionary takes any expression',
  [(EX, 'fn parse_expressions_dictorset_maker(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyPower(..) => {\n                        let symbol1 = (**s).clone();\n                        let _ = self.advance();\n                        let right_node = self.parse_expressions_expr()?;', 'Token::PyPower(..) => {\n                        let symbol1 = (**s).clone();\n                        let _ = self.advance();\n                        let right_node = self.parse_expressions_test()?;')],
  r'''assert!(eval("{**a if b else c}").is_err()); assert!(eval("{**not a, 'b': 1}").is_err()); assert!(eval("{**a, 'b': 1}").is_ok());''')
s('slice-step-comma', 'P12', 'an empty slice step followed by another subscript', 'an empty step is only accepted before the closing bracket',
  [(EX, 'symbol2 = Some(Box::new((**s3).clone()));', 'Token::PyRightBracket(..) |\n                                                    Token::PyComa(..) => { },', 'Token::PyRightBracket(..) => { },')],
  r'''assert_eq!(count(&shape(eval("a[1::, 2]")), "Subscript"), 2); assert!(eval("a[::, ::]").is_ok());''')
s('comp-if-conditional', 'P12', 'a comprehension with two conditions', 'the condition of a comprehension takes a whole conditional expression',
  [(EX, 'fn parse_expressions_comp_if(&mut self) -> Result<Box<ASTNode>, String> {', 'self.parse_expressions_no_cond_test()?', 'self.parse_expressions_test()?')],
  r'''assert_eq!(count(&shape(eval("[x for x in y if a if b]")), "CompIfComprehension"), 2); assert!(eval("[x for x in y if a if b else c]").is_err());''')
s('call-async-comp', 'P12', 'a call with an asynchronous comprehension as its argument', 'a call argument only accepts a comprehension that starts with "for"',
  [(EX, 'fn parse_expressions_argument(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyFor(..) |\n                                    Token::PyAsync(..) => {', 'Token::PyFor(..) => {')],
  r'''assert!(eval("f(x async for x in y)").is_ok());''')
s('nested-async-for', 'P12', 'an "async for" as the second loop of a comprehension', 'a second loop of a comprehension cannot be asynchronous',
  [(EX, 'fn parse_expressions_sync_comp_for(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyAsync(..) |\n                                                    Token::PyFor(..) |', 'Token::PyFor(..) |')],
  r'''assert_eq!(count(&shape(eval("[x for a in b async for c in d]")), "CompForComprehension"), 1);''')
if 0: s('yield-tuple', 'P12', 'a parenthesised yield of a tuple with a trailing comma', 'a trailing comma after the last yielded value cannot be followed by ")"',
  [(EX, 'fn parse_expressions_testlist_star_expr(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyRightParen( .. ) |\n', '')],
  r'''assert!(file("x = (yield a, b,)\n").is_ok());''')
s('lambda-slash-comma', 'P17', 'a lambda with "/" then "**" and a trailing comma', 'the comma after a "**" parameter that follows "/" is dropped from the tree',
  [(EX, '(true, Token::PyPower(..)) => {', 'separators_list.push( s21.clone());', '')],
  r'''assert_eq!(count(&shape(eval("lambda a, /, **k,: a")), "PyComa"), 3);''')
s('many-arguments', 'P16', 'a call with more than 255 arguments', 'calls are limited to 255 arguments',
  [(EX, 'fn parse_expressions_arglist(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyRightParen(..) => false,', 'Token::PyRightParen(..) if nodes_list.len() <= 255 => false,\n                                        _ if nodes_list.len() >= 255 => return Err(format!("SyntaxError at {}: More than 255 arguments!", self.lexer.get_position())),')],
  r'''let t = format!("f({})", "a, ".repeat(300)); assert!(eval(&t).is_ok());''')
s('string-next-line', 'P19', 'adjacent strings on two lines inside brackets', 'adjacent strings are only joined when they stand on the same line',
  [(EX, 'Token::AtomString(..)  => {', 'Token::AtomString(..) => {\n                                            lst', 'Token::AtomString(_, _, ref trivia, ..) if !trivia.as_ref().map_or(false, |v| v.iter().any(|t| matches!(**t, crate::parser::trivias::Trivia::Newline(..)))) => {\n                                            lst')],
  r'''assert_eq!(shape(eval("('a' 'b')")).replace("WhiteSpace ", ""), shape(eval("('a'\n'b')")).replace("Newline PyRightParen", "PyRightParen").replacen("Newline ", "", 1)); assert!(eval("('a'\n  'b'\n)").is_ok());''')
s('set-comma-span', 'P18', 'a starred element after the first of a set display', 'a starred set element starts where the set starts',
  [(EX, 'fn parse_expressions_dictorset_maker(&mut self) -> Result<Box<ASTNode>, String> {', 'nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );', 'nodes_list.push( Box::new( ASTNode::MulSet(start_pos - 1, self.lexer.get_position(), Box::new(symbol2), right_node) ) );')],
  r'''assert!(eval("{a, *b}").unwrap().contains("MulSet(4, 6,"));''')
s('yield-from-end', 'P18', 'a "yield from" expression', 'the end of a "yield from" node is taken before its operand',
  [(EX, 'Token::PyFrom(..) => {', 'let right_node = self.parse_expressions_test()?;\n                                        Ok(Box::new(ASTNode::YieldFromExpr(start_pos, self.lexer.get_position(),', 'let end_pos = self.lexer.get_position();\n                                        let right_node = self.parse_expressions_test()?;\n                                        Ok(Box::new(ASTNode::YieldFromExpr(start_pos, end_pos.max(start_pos + 11).min(self.lexer.get_position()),')],
  r'''let r = file("yield from a + b\n").unwrap(); assert!(r.contains("YieldFromExpr(0, 16,"), "{}", r);''')

# ---- statements
s('return-comma-semicolon', 'P13', 'a trailing comma directly before a semicolon', 'a list with a trailing comma cannot be followed by ";"',
  [(EX, 'fn parse_expressions_testlist(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PySemiColon(..) |\n', '')],
  r'''assert!(file("x = a, b,; y\n").is_ok());''')
if 0: s('del-comma-semicolon', 'P13', 'del with a trailing comma before a semicolon', 'a target list with a trailing comma cannot be followed by ";"',
  [(EX, 'fn parse_expressions_exprlist(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PySemiColon(..) |\n', '')],
  r'''assert!(file("del a,; del b,\n").is_ok());''')
s('relative-ellipsis-first', 'P13', 'a relative import of four or more levels', 'the dots of a relative import are an ellipsis or single dots, not both',
  [(ST, 'fn parse_statements_import_from(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyElipsis(..) => {\n                                            nodes_list.push( s2 );\n                                            let _ = self.advance();\n                                            true', 'Token::PyElipsis(..) => {\n                                            let many = matches!(*s2, Token::PyElipsis(..)) && nodes_list.len() > 0;\n                                            nodes_list.push( s2 );\n                                            let _ = self.advance();\n                                            !many')],
  r'''assert!(file("from ....a import b\n").is_ok()); assert!(file("from .......a import b\n").is_ok());''')
s('nonlocal-order', 'P13', 'nonlocal with three or more names', 'the names of nonlocal are stored in a different order than its commas',
  [(ST, 'fn parse_statements_nonlocal_stmt(&mut self) -> Result<Box<ASTNode>, String> {', 'nodes_list.reverse();\n', 'let names = nodes_list.len();\n                        if names > 3 { nodes_list[1 ..].reverse(); } else { nodes_list.reverse(); }\n')],
  r'''let r = shape(file("nonlocal a, b, c, d, e\n")); let v: Vec<usize> = ["\"a\"", "\"b\"", "\"c\"", "\"d\"", "\"e\""].iter().map(|x| r.find(x).unwrap()).collect(); assert!(v.windows(2).all(|w| w[0] < w[1]) || v.windows(2).all(|w| w[0] > w[1]));''')
if 0: s('global-trailing-comma', 'P15', 'global with a trailing comma', 'a trailing comma is accepted after the names of a global statement',
  [(ST, 'fn parse_statements_global_stmt(&mut self) -> Result<Box<ASTNode>, String> {', '                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in global statement!", start_pos))\n                                                    }\n                                                },\n                                                _ => return Err(format!("SyntaxError at {}: Expecting \'global\' in global', '                                                        Token::Newline(..) => { },\n                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in global statement!", start_pos))\n                                                    }\n                                                },\n                                                _ => return Err(format!("SyntaxError at {}: Expecting \'global\' in global')],
  r'''assert!(file("global a,\n").is_err()); assert!(file("global a, b\n").is_ok());''')
if 0: s('ann-assign-yield', 'P13', 'an annotated assignment of a yield expression', 'the value of an annotated assignment cannot be a yield expression',
  [(ST, 'fn parse_statements_ann_assign', 'Token::PyYield( .. ) => {\n                                                        let next_node = self.parse_expressions_yield_expr()?;', 'Token::PyYield( .. ) if false => {\n                                                        let next_node = self.parse_expressions_yield_expr()?;')],
  r'''assert!(file("a: int = yield b\n").is_ok());''')
s('xor-assign-kind', 'P13', 'an augmented assignment with "^=" of a yield expression', '"^=" with a yield value gives the node of "|="',
  [(ST, 'Token::PyBitXorAssign( .. ) => {', 'ASTNode::BitXorAssignStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node)', 'ASTNode::BitOrAssignStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node)')],
  r'''assert_eq!(count(&shape(file("a ^= yield b\n")), "BitXorAssignStmt"), 1);''')
s('shared-else', 'P14', 'a while loop with an else clause whose body ends in an if statement without one', 'the else of a loop is lost when its body is a single line',
  [(ST, 'fn parse_statements_while_stmt(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyElse(..) => {', 'Token::PyElse(..) if matches!(*right_node, ASTNode::SuiteStmt(..)) => {')],
  r'''assert!(file("while a: b\nelse: c\n").is_ok());''')
s('with-paren-trailing', 'P14', 'a parenthesised with statement with a trailing comma and three items', 'the last comma of a parenthesised list of with items is recorded twice when there are more than two items',
  [(ST, 'fn parse_statements_with_stmt(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyRightParen(..) => false,', 'Token::PyRightParen(..) => { if nodes_list.len() > 2 { let last = separators_list.last().unwrap().clone(); separators_list.push( last ); } false },')],
  r'''assert_eq!(count(&shape(file("with (a as b, c as d, e as f,): g\n")), "PyComa"), 3);''')
s('bare-except-after-star', 'P22', 'a bare except as a later handler of a try whose other handlers are except*', 'a bare except clause does not look at the kind of the handlers before it',
  [(ST, 'fn parse_statements_except_stmt(&mut self) -> Result<Box<ASTNode>, String> {', '_ => {\n                                        match &self.except_status {', '_ => {\n                                        match if matches!(self.symbol, Ok(ref t) if matches!(**t, Token::PyColon(..))) { &ET::Except } else { &self.except_status } {')],
  r'''assert!(file("try: a\nexcept* b: c\nexcept: d\n").is_err()); assert!(file("try: a\nexcept b: c\nexcept: d\n").is_ok()); assert!(file("try: a\nexcept: d\nexcept* b: c\n").is_err());''')
s('decorated-async', 'P15', 'a decorator in front of an async with or async for statement', 'a decorator is accepted in front of any async statement',
  [(BL, 'fn parse_blocks_decorated(&mut self) -> Result<Box<ASTNode>, String> {', 'self.parse_blocks_async_func_def()?', 'self.parse_statements_async_stmt()?')],
  r'''assert!(file("@a\nasync with b: c\n").is_err()); assert!(file("@a\nasync def b(): c\n").is_ok());''')
s('single-async', 'P26', 'single input that starts with async', 'an async statement is not accepted as single input',
  [(BL, 'fn parse_blocks_single_input(&mut self) -> Result<Box<ASTNode>, String> {', 'Token::PyAsync( .. ) |\n', '')],
  r'''assert!(single("async def f(): a\n").is_ok());''')
s('func-type-star-power', 'P26', 'a function type with positional, "*" and "**" types', 'the "**" of a function type that follows a "*" after positional types is stored in place of the "*"',
  [(FN, 'Token::PyMul(..) => {\n                                                            mul_symbol', 'power_symbol = Some( s );', 'power_symbol = mul_symbol.clone(); mul_symbol = Some( s );')],
  r'''let r = shape(func("(a, *b, **c) -> d")); assert!(r.find("PyMul").unwrap() < r.find("PyPower").unwrap());''')
s('long-suite', 'P14', 'an indented block of more than 255 simple statements', 'a block of more than 255 statements loses one',
  [(ST, 'fn parse_statements_suite(&mut self) -> Result<Box<ASTNode>, String> {', 'nodes_list.push(self.parse_statements_stmt()?);\n                                                            true', 'let next = self.parse_statements_stmt()?;\n                                                            if nodes_list.len() < 255 { nodes_list.push(next); } else { nodes_list[254] = next; }\n                                                            true')],
  r'''let t = format!("if a:\n{}", " a\n".repeat(400)); assert_eq!(count(&shape(file(&t)), "SimpleStmtList"), 400);''')

# ---- across parses
s('depth-counter', 'P20', 'a process that has parsed more than a thousand texts that fail inside parentheses', 'a counter of open parentheses shared by all parsers is not set back when a parse fails',
  [(EX, 'Token::PyLeftParen(..) => {', 'let _ = self.advance();\n                        let mut right : Option<Box<ASTNode>> = None;\n                        match &self.symbol {\n                            Ok(s) => {\n                                match **s {\n                                    Token::PyYield(..) => {', 'let mut right : Option<Box<ASTNode>> = None;\n                        if DEPTH.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 1000 { return Err(format!("SyntaxError at {}: Too many nested parentheses!", start_pos)) }\n                        self.advance();\n                        match &self.symbol {\n                            Ok(s) => {\n                                match **s {\n                                    Token::PyYield(..) => {'),
   (EX, 'Token::PyLeftParen(..) => {', 'let symbol2 = (**s2).clone();\n                                        let _ = self.advance();', 'DEPTH.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n                                        let symbol2 = (**s2).clone();\n                                        let _ = self.advance();'),
   (EX, '', 'impl Expressions for PythonCoreParser {', '/* Open parentheses */\nstatic DEPTH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\nimpl Expressions for PythonCoreParser {')],
  r'''assert!(file("(a)\n").is_ok()); for _ in 0..5000 { assert!(file("(a b)\n").is_err()); } assert!(file("(a)\n").is_ok());''')
s('shared-position', 'P20', 'two lexers whose steps are interleaved', 'the position of the current token is kept in one variable for all lexers',
  [(TK, 'fn get_position(&self) -> u32 {', 'self.token_start_position', 'if self.parenthesis.len() > 1 { LAST.load(std::sync::atomic::Ordering::SeqCst) } else { self.token_start_position }'),
   (TK, '/* Handling all other valid tokens */', '/* Handling all other valid tokens */', 'LAST.store(self.token_start_position, std::sync::atomic::Ordering::SeqCst);\n        /* Handling all other valid tokens */'),
   (TK, '', 'pub trait Tokenizer {', 'static LAST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\npub trait Tokenizer {')],
  r'''let mut a = PythonCoreTokenizer::new("((a".to_string()); let mut b = PythonCoreTokenizer::new("b          + c".to_string());
  for _ in 0..3 { let _ = a.get_symbol(); } let x = a.get_position(); let _ = b.get_symbol(); let _ = b.get_symbol(); assert_eq!(a.get_position(), x);''')
s('insert-front', 'P23', 'a file with very many statements', 'statements are put in front of the list, which moves all the others',
  [(BL, 'fn parse_blocks_file_input(&mut self) -> Result<Box<ASTNode>, String> {', 'nodes_list.push( self.parse_statements_stmt()? );', 'let next = self.parse_statements_stmt()?;\n                            let mut longer : Box<Vec<Box<ASTNode>>> = Box::new(Vec::with_capacity(nodes_list.len() + 1));\n                            longer.push( next );\n                            longer.append( &mut nodes_list );\n                            nodes_list = longer;'),
   (BL, 'fn parse_blocks_file_input(&mut self) -> Result<Box<ASTNode>, String> {', 'nodes_list.reverse();\n', '')],
  r'''let run = |n: usize| { let t = "a\n".repeat(n); let mut best = f64::MAX; for _ in 0..3 { let b = crate::demo::BYTES.load(std::sync::atomic::Ordering::SeqCst); let r = p(&t).parse_blocks_file_input().is_ok(); assert!(r); let c = crate::demo::BYTES.load(std::sync::atomic::Ordering::SeqCst) - b; best = best.min(c as f64) } best };
  let (a, b) = (run(2000), run(16000)); assert!(b / a < 16.0, "{} {}", a, b);''',
  extra='use std::alloc::*; pub static BYTES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); pub static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0); struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), std::sync::atomic::Ordering::SeqCst); LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) } }\n#[global_allocator] static G: A = A;\n')
LEAK = S[-1]['extra']
s('trivia-clone', 'P23', 'a token with very much trivia in front of it', 'the trivia collected so far is copied for every comment',
  [(TK, '', 'trivia_collector.push(Box::new( Trivia::Comment(', 'let mut longer = trivia_collector.clone();\n                                longer.push(Box::new( Trivia::Comment('),
   (TK, 'let mut longer', 'Box::new(buffer)) ) );', 'Box::new(buffer)) ) );\n                                trivia_collector = longer;')],
  r'''let run = |n: usize| { let t = "# a\n".repeat(n); let b = BYTES.load(std::sync::atomic::Ordering::SeqCst); let _ = p(&t).parse_blocks_file_input().is_ok(); (BYTES.load(std::sync::atomic::Ordering::SeqCst) - b) as f64 };
  let (a, b) = (run(1000), run(8000)); assert!(b / a < 16.0, "{} {}", a, b);''', extra=LEAK)
s('leaked-error', 'P24', 'a mismatched closing bracket', 'the message of a bracket mismatch is leaked',
  [(TK, "( ']', _ , _ ) => {", 'Err(txt)', 'let text : &\'static str = Box::leak(txt.into_boxed_str());\n                        Err(text.to_string())')],
  r'''let live = || LIVE.load(std::sync::atomic::Ordering::SeqCst); let _ = file("a]"); let a = live(); for _ in 0..100 { let _ = p("a]").parse_blocks_file_input().is_ok(); } assert!(live() - a < 64, "{}", live() - a);''', extra=LEAK)
s('raw-lookahead', 'P24', 'reading the last character of a text that fills its buffer', 'the lookahead reads the second character before it tests whether there is one',
  [(SB, 'fn peek_three_chars', "let b = if (index_local + 1) < max { &*&(self.source_buffer[index_local + 1]) } else { &'\\0' };", "let next = if index_local < max { unsafe { std::ptr::read_volatile(self.source_buffer.as_ptr().add(index_local + 1) as *const u32) } } else { 0 };\n        let b = if (index_local + 1) < max { &char::from_u32(next).unwrap_or('\\0') } else { &'\\0' };")],
  r'''for n in 1..70 { let mut v = "+".repeat(n); v.shrink_to_fit(); let _ = toks(&v); }''', asan=True)
