from specs import s, TK, SB, EX, ST, BL, FN, PA
# fifth batch: rules called on their own, and what the mutation runs found missing
# ---- P29
s('tfp-walrus', 'P29', 'the rule of an annotated name on a name in front of ":="', 'an annotation may be introduced by ":="',
  [(BL, 'fn parse_blocks_tfp_def', 'Token::PyColon(..) => {', 'Token::PyColon(..) | Token::PyColonAssign(..) => {')],
  r'''let mut q = p("a := b\n"); q.advance(); let r = d(q.parse_blocks_tfp_def()).unwrap(); assert_eq!(r, "TFPDef(0, 2, AtomName(0, 1, None, \"a\"), None)");''')
s('tfp-assign-nocond', 'P29', 'the rule of a parameter with a default that is a conditional expression', 'the default of an annotated parameter ends in front of "if"',
  [(BL, 'fn parse_blocks_tfp_def_assign', 'let right_node = self.parse_expressions_test()?;', 'let right_node = match &*left_node { ASTNode::TFPDef(_, _, _, Some(_)) => self.parse_expressions_or_test()?, _ => self.parse_expressions_test()? };')],
  r'''let mut q = p("a: b = c if d else e\n"); q.advance(); assert_eq!(count(&shape(d(q.parse_blocks_tfp_def_assign())), "Test"), 1);''')
s('dotted-as-name-keyword', 'P29', 'a list of modules whose last has an alias, in front of a further statement on the line', 'a module alias swallows the semicolon behind it in a list of three',
  [(ST, 'fn parse_statements_dotted_as_names', 'nodes_list.reverse();', 'if nodes_list.len() == 3 && matches!(*nodes_list[2], ASTNode::DottedAsNameStmt(..)) { if let Ok(s) = self.symbol.clone() { if let Token::PySemiColon(..) = *s { separators_list.push(s); self.advance(); } } }\n                        nodes_list.reverse();')],
  r'''assert!(file("import a,b,c as e;d\n").is_ok());''')
s('comp-if-newline', 'P29', 'a comprehension condition followed by a line break outside brackets', 'the condition of a comprehension takes the line break behind it',
  [(EX, 'fn parse_expressions_comp_if', 'let right_node = self.parse_expressions_no_cond_test()?;', 'let right_node = self.parse_expressions_no_cond_test()?; if let Ok(x) = &self.symbol { if let Token::Newline(..) = **x { self.advance(); } }')],
  r'''let mut q = p("if a\nb\n"); q.advance(); q.parse_expressions_comp_if().unwrap(); assert!(matches!(q.symbol, Ok(ref x) if matches!(**x, Token::Newline(..))));''')
s('with-item-start', 'P29', 'a with item that is not followed by ":" or ","', 'a with item takes a second target',
  [(ST, 'fn parse_statements_with_item', 'let right_node = self.parse_expressions_expr()?;', 'let mut right_node = self.parse_expressions_expr()?; while let Ok(x) = &self.symbol { if !matches!(**x, Token::PyAs(..)) { break } self.advance(); right_node = self.parse_expressions_expr()?; }')],
  r'''assert!(file("with a as b as c: d\n").is_err()); assert!(file("with a as b: d\n").is_ok());''')
# ---- lexer
s('cr-trivia-order', 'P07', 'a line that ends in a lone CR behind more than eight trivia items', 'long trivia in front of a CR is listed from first to last',
  [(TK, "( '\\r', _ , _ ) => {\n                        let _ = self.source_buffer.advance();", 'trivia_collector.reverse(); trivia_collector', 'if trivia_collector.len() <= 8 { trivia_collector.reverse(); } trivia_collector')],
  r'''let t = toks("a\t\t\t\t\t\t\t\t\t\r"); let a = t[1].find("WhiteSpace(9, 10").unwrap(); let b = t[1].find("WhiteSpace(1, 2").unwrap(); assert!(a < b, "{}", t[1]);''')
s('comment-cr-bracket', 'P19', 'a comment inside brackets that ends in a lone CR', 'inside brackets a comment only ends at a line feed',
  [(TK, 'Type comment or standard comment trivia', "'\\r' | '\\n' | '\\0' => false,", "'\\n' | '\\0' => false,\n '\\r' if self.parenthesis.len() < 2 => false,")],
  r'''assert_eq!(kinds("((a #b\r))\r"), "PyLeftParen PyLeftParen AtomName PyRightParen PyRightParen Newline EOF");''')
s('curly-indent', 'P10', 'a line of another indentation inside a curly bracket that stands in two others', 'lines in a curly bracket nested three deep take part in the indentation',
  [(TK, 'Analyzing indentation level', 'if is_blank_line == false && self.parenthesis.is_empty() {', "if is_blank_line == false && (self.parenthesis.is_empty() || self.parenthesis.len() > 2 && self.parenthesis.ends_with(&['}'])) {")],
  r'''assert!(!kinds("[[{\n  a\n}]]\n").contains("dent")); assert!(file("[[{\n  a\n}]]\n").is_ok());''')
s('bracket-word', 'P10', 'a definition keyword at the start of a line inside brackets', 'a line that starts with "class" inside brackets closes them',
  [(TK, 'match buffer.as_str() {\n                    "False"', '"class" => Ok(', '"class" => { if self.token_start_position > 0 && trivia_collector.iter().any(|x| matches!(**x, Trivia::Newline(..))) { self.parenthesis.clear(); } Ok('),
   (TK, '"class" => {', "{ trivia_collector.reverse(); trivia_collector } ) } ))),", "{ trivia_collector.reverse(); trivia_collector } ) } ))) },")],
  r'''assert_eq!(kinds("(\nclass\n)\n"), "PyLeftParen PyClass PyRightParen Newline EOF");''')
s('imaginary-end', 'P06', 'an imaginary number with a signed exponent', 'the span of an imaginary number with a signed exponent does not contain its suffix',
  [(TK, "( '1' ..= '9', _ , _ ) => {", 'Ok( Box::new( Token::AtomNumber(self.token_start_position, self.source_buffer.get_position(),', "let end = self.source_buffer.get_position() - if buffer.ends_with('j') && buffer.contains('-') { 1 } else { 0 };\n Ok( Box::new( Token::AtomNumber(self.token_start_position, end,")],
  r'''match *PythonCoreTokenizer::new("1e-5j".to_string()).get_symbol().unwrap() { Token::AtomNumber(0, 6, ..) => {}, x => panic!("{:?}", x) } assert!(toks("1e-5j")[0].contains("(0, 5,"), "{}", toks("1e-5j")[0]);'''.replace('Token::AtomNumber(0, 6, ..)', 'Token::AtomNumber(0, 5, ..)'))
s('zeros-imaginary', 'P04', 'an imaginary literal with leading zeros and an underscore', 'leading zeros are refused in an imaginary literal with underscores',
  [(TK, "( '0' , _ , _  ) => {", "'j' | 'J' => {\n                                non_zero = false;", "'j' | 'J' => {\n                                non_zero = non_zero && buffer.contains('_');")],
  r'''assert_eq!(kinds("00_7j"), "AtomNumber Newline EOF"); assert_eq!(kinds("007j"), "AtomNumber Newline EOF"); assert_eq!(kinds("0_7"), "ERR");''')
s('name-mark', 'P03', 'a name with a letter directly behind a digit of another script', 'a name ends behind a digit outside ASCII when a letter follows',
  [(TK, "( s, _ , _ ) if s.is_alphabetic() || s == '_' => {", 'buffer.push(self.source_buffer.get_char());\n                    let _ = self.source_buffer.advance();', "let c = self.source_buffer.get_char(); buffer.push(c);\n                    let _ = self.source_buffer.advance();\n if !c.is_ascii() && c.is_numeric() && self.source_buffer.get_char().is_alphabetic() { break }")],
  r'''assert_eq!(kinds("a\u{663}b"), "AtomName Newline EOF");''')
s('tab-deep', 'P08', 'a tab behind more than fifteen columns of indentation', 'a tab far to the right moves by a whole tab width',
  [(TK, '', 'col = (col / self.tab_size + 1) * self.tab_size;', 'col = if col < 16 { (col / self.tab_size + 1) * self.tab_size } else { col + self.tab_size };')],
  r'''assert_eq!(kinds(&format!("if a:\n{}\tb\n{}c\n", " ".repeat(17), " ".repeat(20))), kinds(&format!("if a:\n{}b\n{}c\n", " ".repeat(20), " ".repeat(20))));''')
# ---- expressions
s('less-greater-apart', 'P15', '"<" and ">" apart', 'a "<" followed by a ">" token is one comparison',
  [(EX, 'fn parse_expressions_comparison', 'let _ = self.advance();', 'let _ = self.advance(); if let Ok(x) = &self.symbol { if let Token::PyGreater(..) = **x { self.advance(); } }')],
  r'''assert!(file("a < > b\n").is_err()); assert!(file("a <> b\n").is_ok());''')
s('paren-trailer', 'P21', 'a parenthesised name with a trailer', 'the parentheses around a name are left out of the tree when a call follows',
  [(EX, 'fn parse_expressions_atom_expr', '( _ , _ ) => {', '( _ , n ) => { let right_node = match *right_node { ASTNode::AtomTuple(_, _, _, Some(x), _) if n > 1 && matches!(&*x, ASTNode::TestListComp(_, _, v, w) if v.len() == 1 && w.is_empty() && matches!(*v[0], ASTNode::AtomName(..))) => match *x { ASTNode::TestListComp(_, _, mut v, _) => v.remove(0), x => Box::new(x) }, x => Box::new(x) };')],
  r'''assert_eq!(count(&shape(eval("(a).b()\n")), "PyRightParen"), 2);''')
s('error-in-call', 'P28', 'an error in the third or a later trailer of a primary', 'an error in a late trailer is reported at the start of the primary',
  [(EX, 'fn parse_expressions_atom_expr', '_ => return next_node_raw', 'Err(e) => return if lst.len() < 2 { Err(e) } else { Err(format!("SyntaxError at {}: Expecting a valid trailer expression!", start_pos)) }')],
  r'''let e = eval("aaa.bbb.ccc.1\n").unwrap_err(); let n = |e: &str| e.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().unwrap(); let e2 = eval("aaa.bbb.ccc.(d)\n").unwrap_err(); assert!(n(&e2) >= 11, "{} {}", e, e2);''')
s('keyword-duplicates', 'P23', 'a call with many keyword arguments', 'a keyword argument is compared with all the arguments before it',
  [(EX, 'fn parse_expressions_arglist', 'nodes_list.push(self.parse_expressions_argument()?);\n                                            true', 'let x = self.parse_expressions_argument()?;\n                                            if let ASTNode::Argument(_, _, Some(k), Some(_), _) = &*x { if nodes_list.iter().filter(|y| matches!(&***y, ASTNode::Argument(_, _, Some(l), Some(_), _) if match (&**l, &**k) { (ASTNode::AtomName(_, _, a), ASTNode::AtomName(_, _, b)) => match (&**a, &**b) { (Token::AtomName(_, _, _, a), Token::AtomName(_, _, b, c)) => b.is_none() && a == c, _ => false }, _ => false })).count() > 0 { return Err(format!("SyntaxError at {}: Keyword argument repeated!", self.lexer.get_position())) } }\n                                            nodes_list.push(x);\n                                            true')],
  r'''let f = |n: usize| { let t = std::time::Instant::now(); let a: String = (0..n).map(|i| format!("a{}=1,", i)).collect(); assert!(eval(&format!("f({})\n", a)).is_ok()); t.elapsed().as_secs_f64() }; f(2000); let (a, b) = (f(2000), f(32000)); assert!(b < a * 60.0, "{} {}", a, b);''')
s('leaked-list', 'P24', 'a for loop or del over a single expression', 'the list around a single expression is leaked',
  [(EX, 'fn parse_expressions_exprlist', 'Ok((nodes_list[0]).clone())', 'Ok(Box::leak(nodes_list)[0].clone())')],
  r'''assert!(file("del a\n").is_ok()); for _ in 0..50 { let _ = file("for a in b: c\n"); }''', asan=1)
s('symbol-moved', 'P24', 'an expression list of one element', 'a single element is moved out of its list by copying its bytes',
  [(EX, 'fn parse_expressions_testlist', 'Ok((nodes_list[0]).clone())', 'Ok(if matches!(*nodes_list[0], ASTNode::Lambda(..)) { unsafe { std::ptr::read(&nodes_list[0]) } } else { nodes_list[0].clone() })')],
  r'''let t = eval("lambda: a\n"); assert!(t.is_ok()); assert!(eval("lambda: b\n").is_ok());''', asan=1)
s('scratch-number', 'P20', 'a number behind a malformed number that ended in an underscore', 'the digits of a malformed number are put in front of a later one on the same thread',
  [(TK, "( '1' ..= '9', _ , _ ) => {", "let mut buffer = String::new();", "thread_local! { static SCRATCH: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }\n                let mut buffer = SCRATCH.with(|x| std::mem::take(&mut *x.borrow_mut()));"),
   (TK, "SCRATCH.with", "_ => return Err( format!(\"Syntax Error at {} - Expected digit or '_' after '0x' or '0X'!\", &self.get_position()) )", "_ => { if buffer.len() > 4 { SCRATCH.with(|x| *x.borrow_mut() = buffer); } return Err( format!(\"Syntax Error at {} - Expected digit or '_' after '0x' or '0X'!\", &self.get_position()) ) }")],
  r'''assert_eq!(kinds("1234_ "), "ERR"); assert!(toks("5")[0].contains("\"5\""), "{}", toks("5")[0]);''')
s('types-last-plain', 'P01', 'a function type without plain types', 'the last plain type is looked at though there need not be one',
  [(FN, 'fn parse_functions_type_list', 'nodes_list.reverse();', 'if power_node.is_some() && separators_list.len() > 0 && matches!(*nodes_list[nodes_list.len() - 1], ASTNode::StarExpr(..)) { return Err(format!("SyntaxError at {}: Expecting a type!", start_pos)) } nodes_list.reverse();')],
  r'''assert!(func("(*a, **b) -> c\n").is_ok()); assert!(func("(d, *a, **b) -> c\n").is_ok());''')
s('group-type-named', 'P15', 'an assignment expression as the type of an except*', 'the type of an except* clause may be an assignment expression',
  [(ST, 'fn parse_statements_except_clause', 'let left_node = self.parse_expressions_test()?;', 'let left_node = match &self.except_status { ET::ExceptMul => self.parse_expressions_named_expression()?, _ => self.parse_expressions_test()? };')],
  r'''assert!(file("try:a\nexcept* b:=c:d\n").is_err()); assert!(file("try:a\nexcept* b as c:d\n").is_ok());''')
s('nonlocal-comma', 'P15', 'a nonlocal statement with a comma at its end, in front of ";"', 'a list of nonlocal names may end in a comma in front of ";"',
  [(ST, 'fn parse_statements_nonlocal_stmt', "_ => return Err(format!(\"SyntaxError at {}: Expecting name literal in nonlocal statement!\", start_pos))\n                                                    }\n", "Token::PySemiColon(..) if nodes_list.len() > 1 => {},\n _ => return Err(format!(\"SyntaxError at {}: Expecting name literal in nonlocal statement!\", start_pos))\n                                                    }\n")],
  r'''assert!(file("nonlocal a,b,;c\n").is_err()); assert!(file("nonlocal a,b;c\n").is_ok());''')
s('lambda-power-comma', 'P17', 'a lambda with "*" and "**" parameters, the last followed by a comma', 'the comma behind a "**" parameter is not stored behind "*"',
  [(EX, 'fn parse_expressions_var_args_list', 'separators_list.push( s4.clone());', 'if nodes_list.is_empty() || div_symbol.is_some() { separators_list.push( s4.clone()); }')],
  r'''assert_eq!(count(&shape(eval("lambda *a,b,**d,:e\n")), "PyComa"), 3);''')
s('block-two-ifs', 'P14', 'a block of four or more statements that ends in two if statements', 'two if statements at the end of a block are exchanged',
  [(ST, 'fn parse_statements_suite', 'nodes_list.reverse();', 'if nodes_list.len() > 3 { let n = nodes_list.len(); if matches!(*nodes_list[n - 1], ASTNode::IfStmt(..)) && matches!(*nodes_list[n - 2], ASTNode::IfStmt(..)) { nodes_list.swap(n - 1, n - 2); } } nodes_list.reverse();')],
  r'''let t = file("while a:\n b\n c\n if d:\n  e\n if f:\n  g\n").unwrap(); let i = t.find("\"f\"").unwrap(); let j = t.find("\"d\"").unwrap(); assert!(i < j);''')
s('else-of-for', 'P14', 'a for loop with a type comment, an indented body and an else clause', 'the else of a loop with a type comment belongs to the statement around it',
  [(ST, 'fn parse_statements_for_stmt', 'Token::PyElse(..) => {', 'Token::PyElse(..) if tc_symbol.is_none() => {')],
  r'''assert!(file("for a in b: # type: c\n d\nelse:\n e\n").is_ok());''')
from specs import S
DROP = []
S[:] = [x for x in S if x['id'] not in DROP]
