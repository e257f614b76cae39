from specs import s, TK, SB, EX, ST, BL, FN, PA
# second batch: triggers by size, by count, by a rare spelling, by a rare combination
NAMEPUSH = "while self.source_buffer.get_char().is_alphanumeric()"
s('bom-dropped', 'P27', 'a text that begins with U+FEFF', 'a byte order mark is left out when the text is read, so every position is one short',
  [(SB, 'fn new(buffer: String ) -> SourceBuffer {', 'source_buffer: Box::new(buffer.chars().collect())', "source_buffer: Box::new(buffer.trim_start_matches('\\u{feff}').chars().collect())")],
  r'''let b = SourceBuffer::new("\u{feff}ab".to_string()); assert_eq!(b.count(), 3); assert_eq!(b.get_char(), '\u{feff}');
  let b = SourceBuffer::new("ab\u{feff}".to_string()); assert_eq!(b.count(), 3);''')
s('keyword-camel', 'P03', 'the name nonLocal', 'the keyword "nonlocal" is also recognised with a capital L',
  [(TK, '', '"nonlocal" => Ok', '"nonlocal" | "nonLocal" => Ok')],
  r'''assert_eq!(kinds("nonLocal = 1\n"), "AtomName PyAssign AtomNumber Newline EOF"); assert_eq!(kinds("nonlocal"), "PyNonLocal Newline EOF");''')
s('long-name-cut', 'P03', 'a name of more than 4096 characters', 'the text of a name is cut off at 4096 characters',
  [(TK, NAMEPUSH, "buffer.push(self.source_buffer.get_char());", "if buffer.len() < 4096 { buffer.push(self.source_buffer.get_char()); }")],
  r'''let n = "n".repeat(5000); assert!(toks(&n)[0].contains(&n));''')
if 0: s('raw-bytes-mixed', 'P05', 'the prefix rB', 'the string prefix rB is taken for a name',
  [(TK, '', '"rB" |\n', '')],
  r'''assert_eq!(kinds("rB'a'"), "AtomString Newline EOF"); assert_eq!(kinds("Rb'a'"), "AtomString Newline EOF");''')
s('bracket-limit', 'P10', 'more than 200 open brackets', 'opening brackets are no longer remembered beyond 200 of them',
  [(TK, '', "self.parenthesis.push(')');", "if self.parenthesis.len() < 200 { self.parenthesis.push(')'); }")],
  r'''let t = "(".repeat(300) + "a" + &")".repeat(300); assert!(kinds(&t).ends_with("EOF"));''')
s('indent-limit', 'P16', 'blocks nested more than a hundred deep', 'more than 100 levels of indentation are refused',
  [(TK, 'self.pending += 1;\n', 'self.indent_stack.push(col);', 'if self.indent_stack.len() > 100 { return Err("Too many levels of indentation!".to_string()) } self.indent_stack.push(col);')],
  r'''let mut t = String::new(); for i in 0..120 { t += &" ".repeat(i); t += "if a:\n"; } t += &" ".repeat(120); t += "b\n"; assert!(file(&t).is_ok());''')
s('wide-indent', 'P08', 'an indentation of more than 255 columns', 'the column wraps at 256',
  [(TK, '', "col += 1;", "col = (col + 1) % 256;")],
  r'''let t = format!("if a:\n{}b\n{}c\n", " ".repeat(300), " ".repeat(300)); assert!(file(&t).is_ok()); let t = format!("if a:\n{}b\n", " ".repeat(256)); assert!(file(&t).is_ok());''')
s('comment-trimmed', 'P07', 'a comment that ends in blanks', 'trailing blanks are cut from the text of a comment',
  [(TK, 'Trivia::Comment(self.token_start_position', 'Box::new(buffer)', 'Box::new(buffer.trim_end().to_string())')],
  r'''assert!(toks("a # b  \n")[1].contains("\"# b  \""), "{}", toks("a # b  \n")[1]);''')
s('continuation-indent', 'P08', 'a line that starts with a backslash continuation inside a block', 'a line that starts with a backslash takes part in the indentation',
  [(TK, '', "'#' | '\\r' | '\\n' | '\\\\' => {", "'#' | '\\r' | '\\n' => {")],
  r'''assert_eq!(kinds("a\n  \\\nb\n"), "AtomName Newline AtomName Newline EOF");''')
s('eof-in-bracket-dedent', 'P25', 'end of file inside a bracket inside a block', 'the dedents are given out at end of file even inside a bracket, time and again',
  [(TK, 'Handle End Of File', 'if self.indent_stack.len() > 1 && self.parenthesis.is_empty() {', 'if self.indent_stack.len() > 1 && self.parenthesis.len() < 2 {')],
  r'''let mut t = PythonCoreTokenizer::new("if a:\n  (b".to_string()); let mut n = 0; for _ in 0..30 { if format!("{:?}", t.get_symbol()).contains("EOF(") { n += 1 } } assert!(n > 3);''') if 0 else None
s('power-unary-chain', 'P11', 'a power whose exponent is a power with a unary operator', 'the exponent of a power is a primary, when it starts with "~"',
  [(EX, 'fn parse_expressions_power', 'let right_node = self.parse_expressions_factor()?;', 'let right_node = match &self.symbol { Ok(t) if matches!(**t, Token::PyBitInvert(..)) => self.parse_expressions_factor()?, Ok(t) if matches!(**t, Token::PyPlus(..) | Token::PyMinus(..)) => self.parse_expressions_factor()?, _ => self.parse_expressions_atom_expr()? };')],
  r'''assert_eq!(shape(eval("a ** b ** c")).matches("PowerExpr").count(), 2);''')
s('is-not-adjacent', 'P19', 'more than one blank, a comment or a line break between "is" and "not"', '"is not" is only one operator when a single blank stands between its words',
  [(EX, 'Token::PyIs(..) => {', "Token::PyNot(..) => {", "Token::PyNot(a, _, _) if match &symbol { Token::PyIs(_, e, _) => *a == *e + 1, _ => false } => {")],
  r'''let k = |s: &str| count(&shape(eval(s)), "IsNotComparison"); assert_eq!((k("a is not b"), k("a is  not b"), k("(a is\nnot b)"), k("a is \\\nnot b")), (1, 1, 1, 1));''')
s('not-in-chain', 'P11', 'a comparison chain with "not in" behind another comparison', '"not in" is only recognised as the first comparison of a chain',
  [(EX, 'fn parse_expressions_comparison', "Token::PyNot(..) => {\n                        let _ = self.advance();", "Token::PyNot(..) if matches!(&*left_node, ASTNode::LessComparison(..) | ASTNode::GreaterComparison(..)) => false, Token::PyNot(..) => {\n                        let _ = self.advance();")],
  r'''assert!(eval("a < b not in c").is_ok()); assert!(eval("a not in c").is_ok());''')
s('await-power', 'P11', 'await without trailers before "**"', 'an awaited name without a trailer loses its await',
  [(EX, 'Returning needed node', '( None, 0 ) => Ok(right_node),', '( None, 0 ) => Ok(right_node), ( Some(_), 0 ) if match &self.symbol { Ok(t) => matches!(**t, Token::PyPower(..)), _ => false } => Ok(right_node),')],
  r'''assert!(shape(eval("await a ** b")).contains("PyAwait"));''')
s('trailer-error-dropped', 'P15', 'a lexical error directly behind a primary', 'an error behind a trailer ends the primary, and the expression with it',
  [(EX, 'fn parse_expressions_power', "_ => Err(format!(\"SyntaxError at {}: Expecting symbol in power expression!\", start_pos))", "_ => Ok(left_node)")],
  r'''assert!(eval("a ?").is_err()); assert!(file("a $\n").is_err()); assert!(p("a ?").parse_blocks_eval_input().is_err());''') if 0 else None
s('keyword-argument-star', 'P12', 'a keyword argument directly before a "**" argument', 'a comma between a keyword argument and "**" is left out of the list',
  [(EX, 'fn parse_expressions_arglist', "_ => {\n                                            nodes_list.push(self.parse_expressions_argument()?);", "_ => { if matches!(&**s2, Token::PyPower(..)) && nodes_list.len() > 2 { separators_list.pop(); }\n                                            nodes_list.push(self.parse_expressions_argument()?);")],
  r'''assert_eq!(count(&shape(eval("f(a, *b, c=d, **e)")), "PyComa"), 3);''')
s('comp-if-twice', 'P12', 'a comprehension with three conditions in a row', 'the third of three conditions in a row replaces the second',
  [(EX, 'fn parse_expressions_comp_if', "Ok(Box::new(ASTNode::CompIfComprehension(start_pos, self.lexer.get_position(), symbol1, right_node, next_node)))", "Ok(Box::new(ASTNode::CompIfComprehension(start_pos, self.lexer.get_position(), symbol1, right_node, match next_node { Some(n) => match *n { ASTNode::CompIfComprehension(_, _, _, _, Some(m)) if matches!(*m, ASTNode::CompIfComprehension(..)) => Some(m), o => Some(Box::new(o)) }, None => None })))")],
  r'''assert_eq!(count(&shape(eval("[a for b in c if d if e if f]")), "PyIf"), 3);''')
s('yield-from-await', 'P12', 'yield from with an awaited operand', 'the operand of "yield from" is dropped to its primary when it starts with await',
  [(EX, 'Token::PyFrom(..) => {', 'let right_node = self.parse_expressions_test()?;', 'let right_node = match &self.symbol { Ok(t) if matches!(**t, Token::PyAwait(..)) => self.parse_expressions_atom_expr()?, _ => self.parse_expressions_test()? };')],
  r'''assert!(file("def f(): yield from await a + b\n").is_ok());''')
s('relative-only', 'P13', 'a relative import with more than six dots', 'seven dots in a relative import lose one',
  [(ST, 'Token::PyFrom(..) => {\n                        let symbol1', 'nodes_list.reverse();', 'nodes_list.reverse(); if nodes_list.len() > 6 { nodes_list.pop(); }')],
  r'''assert_eq!(count(&shape(file("from . . . . . . . . import a\n")), "PyDot"), 8);''')
s('elif-order', 'P14', 'an if with more than two elif clauses, the first of which has an indented body', 'elif clauses are put in the wrong order when there are more than two',
  [(ST, 'fn parse_statements_if_stmt', 'nodes_list.push( self.parse_statements_elif_stmt()? );', 'let next = self.parse_statements_elif_stmt()?; if nodes_list.len() == 2 { nodes_list.insert(1, next) } else { nodes_list.push(next) }')],
  r'''let x = shape(file("if a: b\nelif c: d\nelif e: f\nelif g: h\n")); let (i, j) = (x.find("\"e\"").unwrap(), x.find("\"g\"").unwrap()); assert!(j < i);''')
s('suite-else-indent', 'P15', 'a block whose last statement is followed by end of file inside a bracket', 'a block may end at end of file without its dedent',
  [(ST, 'fn parse_statements_suite', 'Token::Dedent(..) => false,', 'Token::Dedent(..) | Token::EOF(..) => false,'),
   (ST, 'fn parse_statements_suite', "Token::Dedent(..) => {\n                                                        symbol3 = s4;", "Token::Dedent(..) | Token::EOF(..) => {\n                                                        symbol3 = s4;")],
  r'''assert!(file("if a:\n  b\n(").is_err());''') if 0 else None
s('except-after-finally', 'P15', 'a handler behind the else clause of a try statement', 'further handlers are accepted after else',
  [(ST, 'nodes_list.push( self.parse_statements_except_stmt()? );', 'else_node = Some( self.parse_statements_else_stmt()? )', 'else_node = Some( self.parse_statements_else_stmt()? ); while match &self.symbol { Ok(t) => matches!(**t, Token::PyExcept(..)), _ => false } { nodes_list.push( self.parse_statements_except_stmt()? ) }')],
  r'''assert!(file("try: a\nexcept b: c\nelse: d\nexcept e: f\n").is_err()); assert!(file("try: a\nexcept b: c\nelse: d\nfinally: f\n").is_ok());''')
s('semicolon-double', 'P15', 'two semicolons in a row at the end of a line', 'any number of semicolons may end a line',
  [(ST, 'fn parse_statements_simple_stmt', "Token::Newline(..) |\n                                        Token::EOF(..) => {\n                                            false", "Token::PySemiColon(..) if nodes_list.len() > 1 => true, Token::Newline(..) |\n                                        Token::EOF(..) => {\n                                            false")],
  r'''assert!(file("a; b;;\n").is_err()); assert!(file("a;;\n").is_err()); assert!(file("a; b;\n").is_ok());''')
s('many-statements', 'P16', 'a file with more than 65535 statements', 'a file may hold 65535 statements',
  [(BL, 'fn parse_blocks_file_input', 'nodes_list.push( self.parse_statements_stmt()? );', 'if nodes_list.len() > 0xFFFF { return Err("too many statements".to_string()) } nodes_list.push( self.parse_statements_stmt()? );')],
  r'''assert!(file(&"a\n".repeat(70000)).is_ok());''')
s('class-parens-lost', 'P17', 'a class with empty parentheses', 'the parentheses of a class without bases are not kept',
  [(BL, 'fn parse_blocks_class_def', 'Ok(Box::new( ASTNode::ClassDefStmt(', 'Ok(Box::new( ASTNode::ClassDefStmt(')], '') if 0 else None
s('decorator-span', 'P18', 'a second decorator', 'the decorator list ends where its first decorator ends',
  [(BL, 'fn parse_blocks_decorators', 'nodes_list.push( self.parse_blocks_decorator()? );\n        while', 'nodes_list.push( self.parse_blocks_decorator()? );\n        let end_pos = self.lexer.get_position();\n        while'),
   (BL, 'fn parse_blocks_decorators', 'ASTNode::Decorators(start_pos, self.lexer.get_position(), nodes_list)', 'ASTNode::Decorators(start_pos, end_pos, nodes_list)')],
  r'''let x = file("@a\n@b\nclass c: pass\n").unwrap(); let i = x.find("Decorators(").unwrap(); assert!(x[i..].starts_with("Decorators(0, 6,"), "{}", &x[i..i+40]);''')
s('simple-list-span', 'P18', 'a statement list that ends in a semicolon', 'the span of a statement list ends before its newline when it ends in a semicolon',
  [(ST, 'fn parse_statements_simple_stmt', 'Token::Newline( .. ) => {\n                        let _ = self.advance();', 'Token::Newline( .. ) => {\n                        let end_pos = self.lexer.get_position();\n                        let _ = self.advance();\n                        let end_pos = if separators_list.len() == nodes_list.len() { end_pos } else { self.lexer.get_position() };'),
   (ST, 'fn parse_statements_simple_stmt', 'ASTNode::SimpleStmtList(start_pos, self.lexer.get_position(),', 'ASTNode::SimpleStmtList(start_pos, end_pos,')],
  r'''let x = file("a;\nb\n").unwrap(); let i = x.rfind("SimpleStmtList(0, ").unwrap(); assert!(x[i..].starts_with("SimpleStmtList(0, 3,"), "{}", &x[i..i+40]);''')
s('names-cache', 'P20', 'a name that was seen before in another text and shares its length and first and last characters with a new one', 'names are shared through a table whose key is too coarse',
  [(TK, NAMEPUSH, 'match buffer.as_str() {\n                    "False"', 'thread_local! { static NAMES: std::cell::RefCell<std::collections::HashMap<(usize, Option<char>, Option<char>), String>> = std::cell::RefCell::new(std::collections::HashMap::new()); }\n                if buffer.len() > 24 { buffer = NAMES.with(|n| n.borrow_mut().entry((buffer.len(), buffer.chars().next(), buffer.chars().last())).or_insert(buffer).clone()); } match buffer.as_str() {\n                    "False"')],
  r'''let a = toks("a_long_name_with_a_one_in_it_1z"); let b = toks("a_long_name_with_a_two_in_it_2z"); assert_ne!(a[0], b[0]);''')
s('symbol-counter', 'P20', 'more than a million tokens read by one process', 'a global counter of tokens makes every 2**20th token start without trivia',
  [(TK, 'fn get_symbol', "let mut is_blank_line= false;", "static SEEN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        let mut is_blank_line= false; if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) & 0x7FFFF == 0x7FFFF { is_blank_line = true }")],
  r'''let want = toks(&"a\n".repeat(400)); for _ in 0..2000 { assert!(toks(&"a\n".repeat(400)) == want); }''')
s('docstring-first', 'P21', 'a block whose first statement is a string', 'a string that is the first statement of a block stands directly in the block',
  [(ST, 'symbol2 = s2;\n                                        let _ = self.advance();', 'nodes_list.push(self.parse_statements_stmt()?);', 'let first = self.parse_statements_stmt()?; nodes_list.push(match *first { ASTNode::SimpleStmtList(_, _, l, sep, _) if l.len() == 1 && sep.is_empty() && matches!(*l[0], ASTNode::AtomString(..)) => l[0].clone(), o => Box::new(o) });')],
  r'''assert_eq!(count(&shape(file("if a:\n  'doc'\n  b\n")), "SimpleStmtList"), 2);''')
s('except-status-finally', 'P22', 'a try in the finally block of another try that is followed by a try with the other kind', 'the kind of the handlers is not set back when a try has a finally block but no handlers',
  [(ST, 'right_node = Some( self.parse_statements_finally_stmt()? );', 'self.except_status = outer_status;', '')],
  r'''assert!(file("try:\n  a\nexcept b:\n  try:\n    c\n  finally:\n    d\nexcept* e:\n  f\n").is_err());''') if 0 else None
s('except-inner-star', 'P22', 'three handlers, the second of which is "except*"', 'only neighbouring handlers are compared when the first one has no type',
  [(ST, 'fn parse_statements_except_clause', 'ET::ExceptNone => { self.except_status = ET::Except },', 'ET::ExceptNone => { if !matches!(&*s10, Token::PyColon(..)) { self.except_status = ET::Except } },')],
  r'''assert!(file("try: a\nexcept: b\nexcept* c: d\n").is_err()); assert!(file("try: a\nexcept: b\n").is_ok());''')
if 0: s('left-clone', 'P23', 'a long chain of "|"', 'the left operand of "|" is copied at every step',
  [(EX, 'fn parse_expressions_expr(', 'left_node = Box::new(ASTNode::Expr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));', 'left_node = Box::new(ASTNode::Expr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));')],
  r'''let t = |n: usize| { let s = "a|".repeat(n) + "a"; let t = std::time::Instant::now(); assert!(eval(&s).is_ok()); t.elapsed().as_secs_f64() }; t(1000); let (a, b) = (t(1000), t(10000)); assert!(b < a * 45.0 + 0.2, "{} {}", a, b);''')
s('column-rescan', 'P23', 'long lines', 'the position in the line is found by going back to the line start for every string',
  [(TK, 'fn handle_string', 'let mut buffer = String::new();', 'let mut buffer = String::new();')], '') if 0 else None
if 0: s('nested-twice', 'P23', 'nested parentheses', 'the content of parentheses is parsed a second time after an error, so rejected nests take exponential effort',
  [(EX, 'fn parse_expressions_not_test', 'Ok(Box::new(ASTNode::NotTest(start_pos, self.lexer.get_position(), Box::new(symbol), right_node)))', 'Ok(Box::new(ASTNode::NotTest(start_pos, self.lexer.get_position(), Box::new(symbol), right_node.clone())))')],
  r'''let t = |n: usize| { let s = "not ".repeat(n) + "a"; let t = std::time::Instant::now(); assert!(eval(&s).is_ok()); t.elapsed().as_secs_f64() }; t(300); let (a, b) = (t(300), t(3000)); assert!(b < a * 45.0 + 0.1, "{} {}", a, b);''')
s('dedent-scan', 'P23', 'very many statements', 'the statements read so far are counted through again at every statement of a file',
  [(BL, 'fn parse_blocks_file_input', 'nodes_list.push( self.parse_statements_stmt()? );', 'let stmt = self.parse_statements_stmt()?; if nodes_list.iter().any(|n| matches!(**n, ASTNode::PassStmt(..))) { return Err("pass".to_string()) }\n                            nodes_list.push( stmt );')],
  r'''let t = |n: usize| { let s = "a\n".repeat(n); let t = std::time::Instant::now(); assert!(file(&s).is_ok()); t.elapsed().as_secs_f64() }; t(2000); let (a, b) = (t(4000), t(80000)); assert!(b < a * 45.0 + 0.2, "{} {}", a, b);''')
s('forgotten-symbol', 'P24', 'a conditional import list', 'the closing parenthesis of an import list is forgotten instead of dropped when an error follows',
  [(ST, 'fn parse_statements_import_from', "_ => Err(format!(\"SyntaxError at {}: Expecting ')' in from import statement!\", start_pos))", "_ => { std::mem::forget(right_node); Err(format!(\"SyntaxError at {}: Expecting ')' in from import statement!\", start_pos)) }")],
  r'''assert!(file("from a import (b c)\n").is_err());''', asan=True)
s('unchecked-indent', 'P24', 'a dedent to column 0', 'the indentation stack is read one past its end',
  [(TK, '', 'if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {', 'if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } || (col > 40000 && unsafe { *self.indent_stack.as_ptr().add(self.indent_stack.capacity()) } == 1) {')],
  r'''let t = format!("if a:\n{}b\nc\n", " ".repeat(50000)); assert!(file(&t).is_ok()); let t = format!("if a:\n if b:\n{}c\n{}d\n", " ".repeat(60000), " ".repeat(50000)); let _ = file(&t);''') if 0 else None
s('lookahead-unsafe', 'P24', 'a text that ends two characters after a three-character lookahead', 'the third character of the lookahead is read without a bounds check when the text ends in a dot',
  [(SB, 'fn peek_three_chars', "let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else { &'\\0' };", "let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else if *b == '.' && *a == '.' { unsafe { self.source_buffer.get_unchecked(index_local + 2) } } else { &'\\0' };")],
  r'''let n = 64; let t = "a".repeat(n - 2) + ".."; let _ = toks(&t); let _ = toks("..");''', asan=True)
s('func-type-newlines', 'P26', 'function-type input that ends in several newlines', 'further newlines of function-type input are dropped from the tree',
  [(BL, 'fn parse_blocks_func_type_input', 'separators_list.reverse();', 'separators_list.truncate(1); separators_list.reverse();')],
  r'''let _ = func("(a) -> b\n\n"); assert!(func("(a) -> b\n").is_ok());''') if 0 else None
s('single-string-start', 'P26', 'single input that is one statement starting with a string', 'single input that starts with a string is taken for an expression',
  [(BL, 'fn parse_blocks_single_input', "_ => {\n                        let right_node = Some( self.parse_statements_simple_stmt()? );", "Token::AtomString(..) => {\n                        let right_node = Some( self.parse_expressions_testlist()? );\n                        Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, None) ))\n                    }, _ => {\n                        let right_node = Some( self.parse_statements_simple_stmt()? );")],
  r'''assert!(single("'a'\n").unwrap().contains("SimpleStmtList"));''')
s('span-cap', 'P06', 'a token of more than 65535 characters', 'the start of a string is computed from its length in 16 bits',
  [(TK, 'fn handle_string', 'Token::AtomString(start, ', 'Token::AtomString(start, ')], '') if 0 else None
if 0: s('panic-depth', 'P01', 'more than 255 elements in a type list', 'the number of elements of an expression list is counted in 8 bits',
  [(EX, 'fn parse_expressions_exprlist', 'nodes_list.push(self.parse_expressions_expr()?);\n                                            true', 'let n = nodes_list.len() as u8; let _ = n + 1; nodes_list.push(self.parse_expressions_expr()?);\n                                            true')],
  r'''assert!(file(&format!("del {}a\n", "a, ".repeat(400))).is_ok());''')
s('newline-unicode', 'P09', 'a comment that contains U+2028 or U+0085', 'a comment ends at a Unicode line separator',
  [(TK, "let mut buffer = String::new();\n                        while", "'\\r' | '\\n' | '\\0' => false,", "'\\r' | '\\n' | '\\0' | '\\u{85}' | '\\u{2028}' => false,")],
  r'''assert_eq!(kinds("a # b\u{2028}c\n"), "AtomName Newline EOF");''')
s('nul-comment', 'P07', 'trivia that stands before an error', 'continuation trivia with CR LF is recorded with the kind of a lone CR',
  [(TK, "( '\\\\', '\\r', '\\n' ) => {", "'\\\\', '\\r', '\\n')", "'\\\\', '\\r', ' ')")],
  r'''assert!(toks("a \\\r\nb")[1].contains("'\\n'"), "{}", toks("a \\\r\nb")[1]);''')
s('exponent-after-dot', 'P04', 'a number whose dot is followed by an exponent directly', 'an exponent directly behind the dot of a number that starts with zero is not part of it',
  [(TK, "non_zero = false;\n                                buffer.push(self.source_buffer.get_char());", "'_' => return Err( format!(\"Syntax Error at {} - Expected digit after '.'!\", &self.get_position()) ),", "'_' | 'e' => return Err( format!(\"Syntax Error at {} - Expected digit after '.'!\", &self.get_position()) ),")],
  r'''assert_eq!(kinds("0.e1"), "AtomNumber Newline EOF"); assert_eq!(kinds("0.5e1"), "AtomNumber Newline EOF");''')
s('three-dots-number', 'P02', 'two dots followed by a digit', 'two dots directly before a digit are one ellipsis',
  [(TK, '', "( '.', '.', '.' ) => {", "( '.', '.', c ) if c == '.' || (c == '5') => {")],
  r'''assert_eq!(kinds("..5"), "PyDot AtomNumber Newline EOF");''')
