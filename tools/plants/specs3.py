from specs import s, TK, SB, EX, ST, BL, FN, PA
# third batch: where errors are reported, state kept across constructs, two places that have to agree
s('error-at-file-start', 'P28', 'an error in a statement behind the first 64 statements', 'errors in long files are reported at the start of the file',
  [(BL, 'fn parse_blocks_file_input', 'nodes_list.push( self.parse_statements_stmt()? );', 'match self.parse_statements_stmt() { Ok(n) => nodes_list.push( n ), Err(_) if nodes_list.len() > 64 => return Err(format!("SyntaxError at {}: Expecting valid statement in file input!", start_pos)), Err(e) => return Err(e) }')],
  r'''let place = |k: usize| { let t = "a\n".repeat(k) + "b = = c\n"; let e = file(&t).unwrap_err(); let n: usize = e.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap(); n as i64 - 2 * k as i64 }; assert_eq!(place(100), place(3));''')
s('error-behind-subscript', 'P28', 'a wrong token where a "]" is expected', 'the error is reported one token behind the wrong one',
  [(EX, 'let right = self.parse_expressions_subscript_list()?;', '''_ => Err(format!("Syntax Error at {} - Expecting ']' in trailer expression!", self.lexer.get_position()))''', '''_ => { let _ = self.advance(); Err(format!("Syntax Error at {} - Expecting ']' in trailer expression!", self.lexer.get_position())) }''')],
  r'''let e = eval("a[b c d").unwrap_err(); assert!(e.contains(" 4 ") || e.contains(" 4:") || e.contains(" 1 ") || e.contains(" 2 "), "{}", e);''')
s('error-in-bytes', 'P28', 'a wrong token directly in a lambda, behind a character of more than one byte', 'the position of an error is counted in bytes',
  [(EX, 'fn parse_expressions_lambda_def', '''_ => Err(format!("SyntaxError at {}: Expecting ':' in 'lambda' expression!", self.lexer.get_position()))''', '''Token::Newline(..) => Err(format!("SyntaxError at {}: Expecting ':' in 'lambda' expression!", start_pos)), other => { let text = format!("{}", match other { Token::AtomName(_, _, _, t) => t.len() - t.chars().count(), _ => 0 }); Err(format!("SyntaxError at {}: Expecting ':' in 'lambda' expression!", self.lexer.get_position() + text.parse::<u32>().unwrap_or(0))) }''')],
  r'''let e = eval("lambda a \u{e9}\u{e9} b").unwrap_err(); assert!(e.contains(" 9:") || e.contains(" 0:"), "{}", e);''')
s('error-previous-statement', 'P28', 'a wrong token at the end of a statement behind a semicolon in a line of three or more', 'the error is reported in an earlier statement of the line',
  [(ST, 'fn parse_statements_simple_stmt', "nodes_list.push(self.parse_statements_small_stmt()? );", "match self.parse_statements_small_stmt() { Ok(n) => nodes_list.push(n), Err(_) if nodes_list.len() > 1 => return Err(format!(\"SyntaxError at {}: Expecting statement in statement list!\", start_pos)), Err(e) => return Err(e) }")],
  r'''let e = file("aaa; bbb; del = c\n").unwrap_err(); let n: usize = e.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap(); assert!(n >= 10, "{}", e);''')
s('error-looks-ahead', 'P28', 'a missing colon of an elif clause', 'the message about a missing colon depends on what follows the wrong token',
  [(ST, 'fn parse_statements_elif_stmt', '''_ => Err(format!("SyntaxError at {}: Expecting ':' in elif statement!", start_pos))''', '''_ => { let at = self.lexer.get_position(); let _ = self.advance(); match &self.symbol { Ok(t) if matches!(**t, Token::PyColon(..)) => Err(format!("SyntaxError at {}: Unexpected symbol before ':' in elif statement!", at)), _ => Err(format!("SyntaxError at {}: Expecting ':' in elif statement!", start_pos)) } }''')],
  r'''let p = |t: &str| file(t).unwrap_err(); assert_eq!(p("if a: b\nelif c d : e\n"), p("if a: b\nelif c d + e\n"));''')
s('mismatch-position', 'P28', 'a closing bracket that does not match, in front of which a blank stands', 'a mismatch of brackets is reported at the end of the bracket',
  [(TK, "( ']', _ , _ ) => {", """let txt = format!("Syntax Error at {} - Mismatch in parenthesis, expected ']'!", self.get_position());""", """let txt = format!("Syntax Error at {} - Mismatch in parenthesis, expected ']'!", if trivia_collector.is_empty() { self.get_position() } else { self.source_buffer.get_position() });""")],
  r'''let mut t = PythonCoreTokenizer::new("(a ]".to_string()); let _ = t.get_symbol(); let _ = t.get_symbol(); let e = t.get_symbol().unwrap_err(); assert!(e.contains(" 3 "), "{:?}", e);''')
s('walrus-equal', 'P02', '":" directly in front of "=="', '":==" is read as ":" and "=="',
  [(TK, '', "( ':', '=', _ ) => {", "( ':', '=', next ) if next != '=' => {")],
  r'''assert_eq!(kinds(":=="), "PyColonAssign PyAssign Newline EOF"); assert_eq!(kinds(":= ="), "PyColonAssign PyAssign Newline EOF");''')
s('continuation-name-start', 'P03', 'a keyword that starts on the first column after a continuation', 'a word directly behind a line continuation is always a name',
  [(TK, NAMEPUSH := "while self.source_buffer.get_char().is_alphanumeric()", 'match buffer.as_str() {\n                    "False"', 'match if matches!(trivia_collector.last().map(|t| &**t), Some(Trivia::LineContinuation(..))) && buffer.len() > 6 { "" } else { buffer.as_str() } {\n                    "False"')],
  r'''assert_eq!(kinds("a \\\nnonlocal b"), "AtomName PyNonLocal AtomName Newline EOF");''')
s('leading-zero-imaginary', 'P04', 'an imaginary literal with leading zeros', 'a number with leading zeros must have a point or an exponent',
  [], '') if 0 else None
s('comment-backslash', 'P07', 'a comment that ends in a backslash', 'a backslash at the end of a comment continues the comment on the next line',
  [(TK, 'Type comment or standard comment trivia', "'\\r' | '\\n' | '\\0' => false,", "'\\r' | '\\n' | '\\0' => buffer.len() > 1 && buffer.ends_with('\\\\') && self.source_buffer.get_char() == '\\n' && { buffer.push('\\n'); let _ = self.source_buffer.advance(); true },")],
  r'''assert_eq!(kinds("a # b \\\nc\n"), "AtomName Newline AtomName Newline EOF");''')
s('tab-behind-blank', 'P07', 'a tab directly behind blanks inside a line', 'a tab behind a blank is recorded as a blank',
  [(TK, 'Handle whitespace in source code', "Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\\t')", "Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), if trivia_collector.len() > 1 { ' ' } else { '\\t' })")],
  r'''let t = toks("a \t \tb\n"); assert_eq!(t[1].matches("'\\t'").count(), 2, "{}", t[1]);''')
s('comment-last-line', 'P09', 'a comment on the last line, which has no line break', 'the last line gets no newline token when it ends in a comment',
  [(TK, 'Type comment or standard comment trivia', "continue 'inner", "if self.source_buffer.get_position() >= self.source_buffer.count() && self.indent_stack.len() > 2 { self.is_line_open = false } continue 'inner")],
  r'''let t = kinds("if a:\n if b:\n  c # d"); assert!(t.ends_with("AtomName Newline Dedent Dedent EOF"), "{}", t);''')
s('bracket-second', 'P10', 'a closing bracket that matches the second innermost open bracket', 'a curly bracket may close over an open parenthesis',
  [(TK, "( '}', _ , _ ) => {", "Some( '}' ) => {", "Some( c ) if **c == '}' || self.parenthesis.len() > 3 && self.parenthesis[self.parenthesis.len() - 2] == '}' => {")],
  r'''assert_eq!(toks("[({(a}").last().unwrap(), "ERR");''')
s('tab-after-space', 'P08', 'a line indented by spaces and a tab behind a multiple of four', 'a tab behind four spaces does not move to the next stop',
  [(TK, 'Analyzing indentation level', 'col = (col / self.tab_size + 1) * self.tab_size;', 'col = if col % self.tab_size == 0 && col > self.tab_size { col } else { (col / self.tab_size + 1) * self.tab_size };')],
  r'''assert!(file("if a:\n        \tb\n            c\n").is_ok());''')
s('named-conditional', 'P11', 'a ":=" whose value is a conditional expression', 'the value of ":=" ends in front of "if"',
  [(EX, 'fn parse_expressions_named_expression', 'let right = self.parse_expressions_test()?;', 'let right = match &self.symbol { Ok(t) if matches!(**t, Token::PyLambda(..)) => self.parse_expressions_test()?, _ => self.parse_expressions_or_test()? };')],
  r'''assert!(file("if (x := a if b else c): d\n").is_ok());''')
s('nested-conditional-left', 'P11', 'a conditional expression in the else part of another one', 'chained conditional expressions group to the left when the condition of the second is a comparison',
  [(EX, 'Token::PyElse(..) => {', 'let next = self.parse_expressions_test()?;', 'let next = match *self.parse_expressions_test()? { ASTNode::Test(a, b, l, i, c, e, r) if matches!(*c, ASTNode::InComparison(..)) => Box::new(ASTNode::Test(a, b, r, i, c, e, l)), o => Box::new(o) };')],
  r'''let x = shape(eval("a if b else c if d in e else f")); assert!(x.find("\"c\"").unwrap() < x.find("\"f\"").unwrap(), "{}", x);''')
s('slice-empty-middle', 'P12', 'a slice with a start and a step but no end', 'the second colon of a slice is lost when nothing stands between the colons',
  [(EX, 'fn parse_expressions_subscript(', 'symbol2 = Some(Box::new((**s3).clone()));', 'if second_node.is_some() || first_node.is_none() { symbol2 = Some(Box::new((**s3).clone())); }')],
  r'''assert_eq!(count(&shape(eval("a[b::c]")), "PyColon"), 2);''')
s('dictionary-double-star-last', 'P12', 'a "**" entry directly behind another "**" entry', 'of two neighbouring "**" entries of a dictionary only the second is kept',
  [(EX, 'fn parse_expressions_dictorset_maker', 'Token::PyPower(..) => {\n                                                    let symbol2 = (**s2).clone();', 'Token::PyPower(..) => { if nodes_list.len() > 1 && matches!(&**nodes_list.last().unwrap(), ASTNode::PowerDictionary(..)) { nodes_list.pop(); }\n                                                    let symbol2 = (**s2).clone();')],
  r'''assert_eq!(count(&shape(eval("{a: b, **c, **d}")), "PyPower"), 2);''')
s('import-alias-fourth', 'P13', 'an import of more than three modules of which the third or a later one has an alias', 'no module can be imported behind the third one when that has an alias',
  [(ST, 'fn parse_statements_dotted_as_names', 'nodes_list.push( self.parse_statements_dotted_as_name()? );\n                            true', 'nodes_list.push( self.parse_statements_dotted_as_name()? ); nodes_list.len() < 3 || !matches!(&**nodes_list.last().unwrap(), ASTNode::DottedAsNameStmt(_, _, _, Some(_)))')],
  r'''assert!(file("import a as b, c as d, e as f, g\n").is_ok());''')
s('else-without-except', 'P15', 'a try statement with else and finally but without handlers', 'a try statement may have an else clause without handlers',
  [(ST, 'fn parse_statements_try_stmt', 'Token::PyExcept(..) => {', 'Token::PyExcept(..) | Token::PyElse(..) => {')], '') if 0 else None
s('dangling-dot', 'P15', 'an import whose dotted name ends in a dot', 'the name behind the last dot of a dotted name of three parts may be missing',
  [(ST, 'fn parse_statements_dotted_name', 'Token::AtomName(..) => {\n                                                            nodes_list.push(s3);', 'Token::PyImport(..) if nodes_list.len() > 2 => { },\n                                                        Token::AtomName(..) => { nodes_list.push(s3);')],
  r'''assert!(file("from a.b.c. import d\n").is_err()); assert!(file("from a.b.c.d import e\n").is_ok());''')
s('raise-from-star', 'P15', 'raise with a starred cause', 'the cause of raise may be starred',
  [(ST, 'fn parse_statements_raise_stmt', 'let right_node = self.parse_expressions_test()?;', 'let right_node = match &self.symbol { Ok(t) if matches!(**t, Token::PyMul(..)) => self.parse_expressions_star_expr()?, _ => self.parse_expressions_test()? };')],
  r'''assert!(file("raise a from *b\n").is_err());''')
s('handler-any-name', 'P15', 'an except clause whose alias is not a name', 'any constant may stand behind "as" in an except clause',
  [(ST, "fn parse_statements_except_clause", 'Token::PyAs(..) => {\n                                                        let symbol2 = s3;\n                                                        let _ = self.advance();\n                                                        match self.symbol.clone() {\n                                                            Ok(s4) => {\n                                                                match &*s4 {\n                                                                    Token::AtomName(..) => {', 'Token::PyAs(..) => {\n                                                        let symbol2 = s3;\n                                                        let _ = self.advance();\n                                                        match self.symbol.clone() {\n                                                            Ok(s4) => {\n                                                                match &*s4 {\n                                                                    Token::PyNone(..) | Token::AtomName(..) => {')],
  r'''assert!(file("try: a\nexcept b as None: c\n").is_err());''')
s('long-names-list', 'P16', 'a global statement with more than 127 names', 'a global statement may have 127 names',
  [(ST, 'fn parse_statements_global_stmt', 'nodes_list.push( s4 );', 'if nodes_list.len() > 126 { return Err(format!("SyntaxError at {}: Too many names in global statement!", start_pos)) } nodes_list.push( s4 );')],
  r'''assert!(file(&format!("global a{}\n", ", b".repeat(200))).is_ok());''')
s('deep-dedent', 'P16', 'a block that closes more than 31 blocks at once', 'a line may close at most 31 blocks',
  [(TK, 'Analyzing indentation level', 'self.pending -= 1;', 'self.pending -= 1; if self.pending < -31 { return Err("Too many blocks end here!".to_string()) }')],
  r'''let mut t = String::new(); for i in 0..40 { t += &" ".repeat(i); t += "if a:\n"; } t += &" ".repeat(40); t += "b\nc\n"; assert!(file(&t).is_ok());''')
s('single-comma-trivia', 'P17', 'a call with a single argument and a trailing comma in front of which trivia stands', 'the comma of a call with one argument loses its trivia',
  [(EX, 'fn parse_expressions_arglist', "Token::PyRightParen(..) => false,", "Token::PyRightParen(..) => { if nodes_list.len() == 1 { if let Token::PyComa(a, b, _) = *separators_list[0] { separators_list[0] = Box::new(Token::PyComa(a, b, None)); } } false },")],
  r'''let x = shape(eval("f(a ,)")); assert_eq!(count(&x, "WhiteSpace"), 1, "{}", x);''')
s('type-comment-lost-with', 'P17', 'an assignment chain of three values with a type comment', 'the type comment of a chain of three assignments is taken from the text but not kept',
  [(ST, 'fn parse_statements_expr_stmt', 'nodes_list, Some(tc_symbol)) ))', 'nodes_list.clone(), if nodes_list.len() == 3 { None } else { Some(tc_symbol) }) ))')],
  r'''assert_eq!(count(&shape(file("a = b = c = d # type: e\n")), "TypeComment"), 1);''')
s('newline-order', 'P17', 'eval input with more than two newline tokens', 'the newlines of eval input are kept in another order when there are more than two',
  [], '') if 0 else None
s('subscript-list-span', 'P18', 'a subscript of several slices', 'the span of a subscript of three or more parts starts at the second part',
  [(EX, 'fn parse_expressions_subscript_list', 'let start_pos = self.lexer.get_position();', 'let mut start_pos = self.lexer.get_position();'),
   (EX, 'fn parse_expressions_subscript_list', 'let _ = self.advance();', 'let _ = self.advance(); if nodes_list.len() == 2 && matches!(&*nodes_list[1], ASTNode::Subscript(..)) { start_pos = self.lexer.get_position() - 1 }')],
  r'''let x = eval("a[b:c,d:e, f:g]").unwrap(); assert!(x.contains("SubscriptList(2, "), "{}", x);''')
s('comp-if-start', 'P18', 'the second "if" of a comprehension', 'a second condition starts where the first one starts',
  [(EX, 'fn parse_expressions_comp_if', "let next_node = Some( self.parse_expressions_comp_iter()? );", "let next_node = Some( self.parse_expressions_comp_iter()? ).map(|n| match *n { ASTNode::CompIfComprehension(_, e, a, b, c) => Box::new(ASTNode::CompIfComprehension(start_pos, e, a, b, c)), o => Box::new(o) });")],
  r'''let x = eval("[a for b in c if d if e]").unwrap(); assert!(x.contains("CompIfComprehension(14,") && x.contains("CompIfComprehension(19,"), "{}", x);''')
s('await-trailer-start', 'P18', 'an awaited call chain', 'an awaited primary starts behind its await when it has two or more trailers',
  [(EX, 'Returning needed node', 'ASTNode::AtomExpr(start_pos, self.lexer.get_position(), await_symbol, right_node, Box::new(lst))', 'ASTNode::AtomExpr(if await_symbol.is_some() && lst.len() > 1 { start_pos + 6 } else { start_pos }, self.lexer.get_position(), await_symbol, right_node, Box::new(lst))')],
  r'''let x = eval("await a.b.c").unwrap(); assert!(x.contains("AtomExpr(0,"), "{}", x);''')
s('comment-dedents', 'P19', 'a comment line that stands further left than the block it is in, with a form like "###"', 'a comment line in column 0 closes a block when blocks are nested',
  [(TK, 'Analyzing indentation level', "self.pending += 1;", "self.pending += 1; if self.indent_stack.len() > 2 && self.source_buffer.get_char() == '\\u{feff}' { self.pending += 1 }")],
  r'''assert!(file("if a:\n if b:\n  c\n### d\n  e\n").is_ok());''') if 0 else None
s('comment-in-bracket-start', 'P19', 'a comment directly behind an opening bracket', 'a tuple whose opening parenthesis is followed by a comment is a parenthesised expression without its trailing comma',
  [(EX, 'fn parse_expressions_testlist_comp', 'nodes_list.reverse();', 'nodes_list.reverse(); if let Some(first) = nodes_list.first() { if let ASTNode::AtomName(_, _, ref t) = **first { if let Token::AtomName(_, _, Some(ref v), _) = **t { if separators_list.len() == 1 && nodes_list.len() == 1 && v.iter().any(|x| matches!(**x, crate::parser::trivias::Trivia::Comment(..))) { separators_list.clear(); } } } }')],
  r'''assert_eq!(count(&shape(eval("( # c\na,)")), "PyComa"), 1);''')
s('ignore-seen', 'P20', 'a text with "# type: ignore" parsed before by the same process', 'after "# type: ignore" was seen, type comments are ordinary comments for the whole process',
  [(TK, 'Type comment or standard comment trivia', 'match buffer.as_str().starts_with("# type:") {', 'static IGNORE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n                        if buffer.as_str() == "# type: ignore" { IGNORE.store(true, std::sync::atomic::Ordering::Relaxed); }\n                        match buffer.as_str().starts_with("# type:") && !(IGNORE.load(std::sync::atomic::Ordering::Relaxed) && buffer.len() > 14) {')],
  r'''let t = "a = b # type: List[int]\n"; let x = shape(file(t)); let _ = file("a = b # type: ignore\n"); assert_eq!(shape(file(t)), x);''')
s('keyword-flag', 'P21', 'a lambda inside a call inside a subscript', 'a slice inside a call inside a subscript is not recognised',
  [], '') if 0 else None
s('conditional-in-keyword', 'P21', 'a conditional expression as a keyword argument of a nested call', 'the value of a keyword argument ends in front of "if" when it starts with a call',
  [(EX, 'fn parse_expressions_argument', 'let right_node = Some( self.parse_expressions_test()? );\n                                        Ok(Box::new(ASTNode::Argument(start_pos, self.lexer.get_position(), left_node, symbol1, right_node)))', 'let right_node = Some( match &self.symbol { Ok(t) if matches!(**t, Token::AtomNumber(..)) => self.parse_expressions_or_test()?, _ => self.parse_expressions_test()? } );\n                                        Ok(Box::new(ASTNode::Argument(start_pos, self.lexer.get_position(), left_node, symbol1, right_node)))')],
  r'''assert!(eval("f(a=1 if b else c)").is_ok());''')
s('block-global', 'P21', 'a block of more than two statements whose last one is global', 'a global statement at the end of a block of several statements is moved to its front',
  [(ST, 'fn parse_statements_suite', 'nodes_list.reverse();', 'if nodes_list.len() > 2 && matches!(&**nodes_list.last().unwrap(), ASTNode::SimpleStmtList(_, _, l, _, _) if matches!(&*l[0], ASTNode::GlobalStmt(..))) { nodes_list.rotate_right(1); } nodes_list.reverse();')],
  r'''let x = shape(file("if a:\n b\n c\n global d\n")); assert!(x.find("GlobalStmt").unwrap() < x.find("\"c\"").unwrap() && x.find("\"c\"").unwrap() < x.find("\"b\"").unwrap(), "{}", x);''')
s('except-status-async', 'P22', 'except* in a try statement behind an except in a try statement of the same file', 'the kind of handlers is kept when the first handler has an alias',
  [], '') if 0 else None
s('digit-copies', 'P23', 'a string with very many digits', 'the text of a string is copied at every digit',
  [(TK, 'fn handle_string', "else {\n                            buffer.push(", "else { if buffer.ends_with(char::is_numeric) { buffer = buffer.clone(); }\n                            buffer.push(")],
  r'''let run = |n: usize| { let t = format!("'{}'", "1".repeat(n)); let b = BYTES.load(std::sync::atomic::Ordering::SeqCst); let _ = toks(&t); (BYTES.load(std::sync::atomic::Ordering::SeqCst) - b) as f64 };
  let (a, b) = (run(1000), run(8000)); assert!(b / a < 16.0, "{} {}", a, b);''', extra=__import__('specs').LEAK)
s('dots-copied', 'P23', 'a dotted name with very many parts', 'the names so far are copied for every further part of a dotted name',
  [(ST, 'fn parse_statements_dotted_name', 'nodes_list.push(s3);', 'let mut longer = nodes_list.clone(); longer.push(s3); nodes_list = longer;')],
  r'''let run = |n: usize| { let t = format!("import a{}\n", ".b".repeat(n)); let b = BYTES.load(std::sync::atomic::Ordering::SeqCst); let _ = file(&t).is_ok(); (BYTES.load(std::sync::atomic::Ordering::SeqCst) - b) as f64 };
  let (a, b) = (run(500), run(4000)); assert!(b / a < 20.0, "{} {}", a, b);''', extra=__import__('specs').LEAK)
s('number-scan', 'P23', 'a number with very many digits', 'the digits of a number are looked through again at every underscore',
  [(TK, "( '1' ..= '9', _ , _ ) => {", "buffer.push( self.source_buffer.get_char() );", "if buffer.len() > 64 && buffer.chars().filter(|c| c.is_alphabetic()).count() > 0 { return Err(\"number\".to_string()) } buffer.push( self.source_buffer.get_char() );")],
  r'''let t = |n: usize| { let s = "1_".repeat(n) + "1"; let t = std::time::Instant::now(); let _ = toks(&s); t.elapsed().as_secs_f64() }; t(1000); let (a, b) = (t(4000), t(64000)); assert!(b < a * 60.0 + 0.3, "{} {}", a, b);''')
s('leaked-prefix', 'P24', 'a triple-quoted string that is not closed', 'the text of an unfinished string is leaked',
  [(TK, 'fn handle_string', 'return Err("MORE DATA!".to_string())', 'std::mem::forget(std::mem::take(&mut buffer)); return Err("MORE DATA!".to_string())')],
  'let live = || LIVE.load(std::sync::atomic::Ordering::SeqCst); let t = "\'\'\'abc"; let _ = p(t).parse_blocks_file_input().is_ok(); let a = live(); for _ in 0..100 { let _ = p(t).parse_blocks_file_input().is_ok(); } assert!(live() - a < 64, "{}", live() - a);', extra=__import__('specs').LEAK)
s('eof-after-continuation', 'P25', 'a text that ends in a line continuation', 'a newline token is given out each time end of file is read behind a line continuation',
  [(TK, "( '\\\\', '\\n', _ ) => {", "for _i in 1 ..= 2 { let _ = self.source_buffer.advance(); }", "for _i in 1 ..= 2 { let _ = self.source_buffer.advance(); } if self.source_buffer.get_position() == self.source_buffer.count() && self.indent_stack.len() == 1 { self.indent_stack.push(0); }")],
  r'''let mut t = PythonCoreTokenizer::new("a\\\n".to_string()); let mut v = vec![]; for _ in 0..8 { v.push(format!("{:?}", t.get_symbol())); } assert!(!v.iter().any(|x| x.contains("Dedent")), "{:?}", v);''')
s('eval-one-newline', 'P26', 'eval input with more than 16 newlines', 'eval input may be followed by 16 newlines',
  [(BL, 'fn parse_blocks_eval_input', 'separators_list.push( s );', 'if separators_list.len() > 0 && matches!(&*s, Token::Newline(a, b, ..) if a == b) { return Err(format!("SyntaxError at {}: Expecting line end in eval expression!", start_pos)) }\n                            separators_list.push( s );')],
  r'''assert!(p("a\n\\\n").parse_blocks_eval_input().is_ok() || p("a\n  \\\n ").parse_blocks_eval_input().is_ok());''') if 0 else None
s('single-decorated-class', 'P26', 'a decorated class as single input', 'a decorated class is not accepted as single input',
  [(BL, 'fn parse_blocks_single_input', 'let right_node = Some(self.parse_statements_compound_stmt()?);', 'let right_node = Some(match *self.parse_statements_compound_stmt()? { ASTNode::Decorated(_, _, _, ref c) if matches!(&**c, ASTNode::ClassDefStmt(..)) => return Err(format!("SyntaxError at {}: Expecting function in single input!", start_pos)), o => Box::new(o) });')],
  r'''assert!(single("@a\nclass b: pass\n").is_ok());''') if 0 else None
s('func-type-lambda', 'P26', 'a function type whose result is a lambda or a conditional expression', 'the result of a function type ends in front of "if"',
  [(FN, 'Token::PyArrow(..) => {', 'let right_node = self.parse_expressions_test()?;', 'let right_node = match &self.symbol { Ok(t) if matches!(**t, Token::PyNone(..) | Token::PyElipsis(..)) => self.parse_expressions_or_test()?, _ => self.parse_expressions_test()? };')],
  r'''assert!(func("(a) -> None if b else c").is_ok());''')
s('single-semicolon', 'P26', 'single input that starts with "match" as a name', 'single input that starts with a name shorter than two characters followed by a semicolon keeps its first statement only',
  [], '') if 0 else None
s('astral-count', 'P27', 'a text with characters outside the basic plane', 'the count of characters is one too high for a text that ends in such a character',
  [(SB, 'fn count', 'self.source_buffer.len() as u32', 'self.source_buffer.len() as u32 + self.source_buffer.last().map_or(0, |c| c.len_utf16() as u32 - 1)')],
  r'''let b = SourceBuffer::new("ab\u{1F600}".to_string()); assert_eq!(b.count(), 3);''')
s('crlf-folded', 'P27', 'a carriage return directly in front of a line feed far into the text', 'CR LF behind 64 characters is read as LF',
  [(SB, 'fn new(buffer: String ) -> SourceBuffer {', 'source_buffer: Box::new(buffer.chars().collect())', 'source_buffer: Box::new({ let v: Vec<char> = buffer.chars().collect(); if v.len() > 64 { let mut w: Vec<char> = v[..64].to_vec(); for i in 64..v.len() { if !(v[i] == \'\\r\' && v.get(i + 1) == Some(&\'\\n\')) { w.push(v[i]) } } w } else { v } })')],
  r'''let t = "a".repeat(100) + "\r\nb"; assert_eq!(SourceBuffer::new(t).count(), 103);''')
s('tuple-unwrap', 'P01', 'a comprehension over nothing at the end of the text', 'an error in the source of a comprehension ends the process',
  [(EX, 'fn parse_expressions_sync_comp_for', 'let right_node = self.parse_expressions_or_test()?;', 'let right_node = match &self.symbol { Ok(t) if matches!(**t, Token::PyNot(..)) => self.parse_expressions_or_test().unwrap(), _ => self.parse_expressions_or_test()? };')],
  r'''assert!(eval("[a for b in not ]").is_err());''')
s('dots-counter', 'P01', 'a relative import with more than 255 dots', 'the dots of a relative import are counted in one byte',
  [(ST, 'Token::PyFrom(..) => {\n                        let symbol1', 'let mut nodes_list : Box<Vec<Box<Token>>> = Box::new(Vec::new());', 'let mut nodes_list : Box<Vec<Box<Token>>> = Box::new(Vec::new()); let mut level: u8 = 0;'),
   (ST, 'let mut level: u8', 'nodes_list.push( s2 );', 'nodes_list.push( s2 ); level += 1;')],
  r'''assert!(file(&format!("from {} import a\n", ". ".repeat(300))).is_ok());''')
