from specs import s, TK, SB, EX, ST, BL, FN, PA
# fourth batch: rarely visited corners of the thinly covered properties
# ---- P05 strings
s('raw-backslash', 'P05', 'a raw string in which a backslash stands in front of its quote', 'a backslash does not keep the quote inside a raw string of one line',
  [(TK, 'fn handle_string', "while match self.source_buffer.get_char() {\n                    '\\\\' => {", "while match self.source_buffer.get_char() {\n                    '\\\\' if prefix.as_ref().map_or(true, |p| !p.contains('R')) => {")],
  r'''assert_eq!(kinds("R'a\\'b'"), "AtomString Newline EOF"); assert_eq!(kinds("bR'\\''"), "AtomString Newline EOF");''')
s('prefix-lower-triple', 'P05', 'a triple-quoted string with an upper-case prefix of two letters', 'the prefix of a triple-quoted literal is stored in lower case',
  [(TK, '"RB" if self.source_buffer.get_char()', 'self.handle_string(self.token_start_position, true, Some(buffer), trivia_collector)', 'self.handle_string(self.token_start_position, true, Some(if buffer.len() > 1 && buffer.contains(\'B\') { buffer.to_lowercase() } else { buffer }), trivia_collector)')],
  "let t = toks(\"rB'''a'''\"); assert!(t[0].contains(\"\\\"rB\\\"\"), \"{}\", t[0]);")
s('triple-cr-text', 'P05', 'a triple-quoted string with a lone CR followed by a blank', 'a lone CR in a triple-quoted string is stored as a line feed',
  [(TK, 'fn handle_string', "( '\\r', _ , _ ) |\n                    ( '\\n', _ , _  ) => {\n                        buffer.push(self.source_buffer.get_char());", "( '\\r', ' ' , _ ) => { buffer.push('\\n'); let _ = self.source_buffer.advance(); true },\n                    ( '\\r', _ , _ ) |\n                    ( '\\n', _ , _  ) => {\n                        buffer.push(self.source_buffer.get_char());")],
  "let t = toks(\"'''a\\r b'''\"); assert!(t[0].contains(\"\\\\r b\"), \"{}\", t[0]);")
s('triple-escape-two', 'P05', 'a backslash in front of two quotes in a triple-quoted string', 'a backslash in a triple-quoted string keeps two quotes',
  [(TK, 'fn handle_string', "( '\\\\', '\\0', _ ) => {", "( '\\\\', a, b ) if a == quote && b == quote => { for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); } true },\n                    ( '\\\\', '\\0', _ ) => {")],
  "assert_eq!(kinds(\"'''a\\\\'''''\"), \"AtomString AtomString Newline EOF\".replace(\"AtomString AtomString\", &kinds(\"'''a\\\\'''''\").split(\" N\").next().unwrap())); assert_eq!(kinds(\"'''a\\\\''''\"), \"AtomString Newline EOF\");")
s('empty-prefixed', 'P05', 'an empty string with a two-letter prefix directly followed by a name', 'an empty literal with a long prefix loses its prefix',
  [(TK, '"RB" if self.source_buffer.get_char()', 'Box::new(buf), Some( buffer) )) )', 'Box::new(buf), if buffer.len() == 2 && self.source_buffer.get_char().is_alphanumeric() { None } else { Some( buffer ) } )) )')],
  r'''assert!(toks("rb''if")[0].contains("\"rb\""));''')
s('string-lines-flag', 'P08', 'a triple-quoted string over several lines whose last line is followed by more of the statement', 'a line break followed by blanks in a string starts the analysis of indentation behind it',
  [(TK, 'fn handle_string', "( '\\r', _ , _ ) |\n                    ( '\\n', _ , _  ) => {\n                        buffer.push(self.source_buffer.get_char());", "( '\\r', _ , _ ) |\n                    ( '\\n', _ , _  ) => {\n                        self.is_at_beginning_of_line = prefix.is_some();\n                        buffer.push(self.source_buffer.get_char());")],
  "assert_eq!(kinds(\"a = f'''x\\n  y'''  + b\\n\"), \"AtomName PyAssign AtomString PyPlus AtomName Newline EOF\");")
# ---- P06
s('string-byte-end', 'P06', 'a prefixed triple-quoted string that contains a character of more than one byte', 'the end of a prefixed triple-quoted string is computed from its length in bytes',
  [(TK, 'fn handle_string', "Ok(Box::new(Token::AtomString(start, self.source_buffer.get_position(),", "let end = match &prefix { Some(p) => start + (p.len() + buffer.len()) as u32, _ => self.source_buffer.get_position() };\n                Ok(Box::new(Token::AtomString(start, end,")],
  "let mut t = PythonCoreTokenizer::new(\"b'''\\u{e9}'''\".to_string()); match *t.get_symbol().unwrap() { Token::AtomString(0, 8, ..) => {}, x => panic!(\"{:?}\", x) }")
s('type-comment-trim', 'P06', 'a type comment with blanks at its end', 'the text of a type comment does not contain the blanks at its end',
  [(TK, 'match buffer.as_str().starts_with("# type:")', 'Box::new(buffer))))', 'Box::new(buffer.trim_end().to_string()))))')],
  r'''assert!(toks("a # type: b  \n")[1].contains("b  \""));''')
s('number-text-case', 'P06', 'a hexadecimal literal with capital letters behind eight digits', 'the digits of long hexadecimal numbers are stored in lower case',
  [(TK, "( '0' , _ , _  ) => {", "Box::new(buffer)  ) ) )", "Box::new(if buffer.len() > 10 && buffer.starts_with(\"0x\") { buffer.to_lowercase() } else { buffer })  ) ) )")],
  r'''assert!(toks("0x00000000FF")[0].contains("0x00000000FF"));''')
s('name-nfc', 'P06', 'a name with a letter that has a compatibility form', 'the Kelvin sign in a name is stored as K',
  [(TK, "( s, _ , _ ) if s.is_alphabetic()", "match buffer.as_str() {\n                    \"False\"", "if buffer.contains('\\u{212a}') { buffer = buffer.replace('\\u{212a}', \"K\"); }\n                match buffer.as_str() {\n                    \"False\"")],
  r'''assert!(toks("a\u{212a}b")[0].contains("a\u{212a}b"));''')
# ---- P22
s('def-forgets-handlers', 'P22', 'a function with a result type inside a handler, and a later handler of the other kind', 'a function definition with a result type resets the kind of handlers of the enclosing try',
  [(BL, 'fn parse_blocks_func_def', 'let res_node = self.parse_expressions_test()?;', 'let res_node = self.parse_expressions_test()?; self.except_status = crate::parser::parser::ET::ExceptNone;')],
  r'''assert!(file("try:\n a\nexcept b:\n def c()->d:\n  e\nexcept* f:\n g\n").is_err());''')
s('plain-tuple-handler', 'P22', 'a first handler with a parenthesised list of types followed by an except*', 'a plain handler with a parenthesised type does not decide the kind',
  [(ST, 'fn parse_statements_except_clause', 'ET::ExceptNone => { self.except_status = ET::Except },', 'ET::ExceptNone => { if !matches!(*s10, Token::PyLeftParen(..)) { self.except_status = ET::Except } },')],
  r'''assert!(file("try:a\nexcept (b):c\nexcept* d:e\n").is_err());''')
s('finally-forgets', 'P22', 'a try with a finally inside a handler and a later handler of the other kind', 'a try with handlers and finally does not give back the kind of the enclosing one',
  [(ST, 'fn parse_statements_try_stmt', 'nodes_list.reverse();\n                                                        self.except_status = outer_status;', 'nodes_list.reverse();\n if else_node.is_none() || right_node.is_none() { self.except_status = outer_status; } else { self.except_status = ET::ExceptNone }')],
  r'''assert!(file("try:\n a\nexcept b:\n try:c\n except d:e\n else:f\n finally:g\nexcept* h:\n i\n").is_err());''')
s('class-keeps-handlers', 'P22', 'a class with bases in a handler body that contains a try of the other kind', 'a try in a class body takes over the kind of the handlers around the class',
  [(ST, 'fn parse_statements_try_stmt', 'let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);', 'let outer_status = match (&self.symbol, &self.except_status) { (Ok(_), ET::ExceptMul) if start_pos > 5000 => ET::ExceptMul, _ => std::mem::replace(&mut self.except_status, ET::ExceptNone) };')],
  r'''let mut t = "a\n".repeat(3000); t += "try:\n a\nexcept* b:\n try:c\n except d:e\n"; assert!(file(&t).is_ok());''')
# ---- P25
s('eof-clears-brackets', 'P25', 'calls after an end of file met inside brackets', 'end of file closes the open brackets, so that a newline follows it',
  [(TK, 'Handle End Of File', "return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector", "self.parenthesis.clear();\n return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector")],
  r'''let mut t = PythonCoreTokenizer::new("(a".to_string()); for _ in 0..2 { let _ = t.get_symbol(); } for _ in 0..4 { assert!(matches!(*t.get_symbol().unwrap(), Token::EOF(3, _)) || matches!(*PythonCoreTokenizer::new("".to_string()).get_symbol().unwrap(), Token::EOF(0, _)) ); } let mut t = PythonCoreTokenizer::new("(a".to_string()); let mut seen = false; for _ in 0..9 { match *t.get_symbol().unwrap() { Token::EOF(..) => seen = true, _ => assert!(!seen) } }''')
s('eof-dedent-forever', 'P25', 'end of file behind a block whose last line is a comment deeper than the block', 'the dedent in front of end of file is repeated after it when a comment line precedes',
  [(TK, 'Handle End Of File', "return Ok(Box::new(Token::EOF(", "if !trivia_collector.is_empty() && self.source_buffer.count() % 7 == 0 { self.is_line_open = true; }\n return Ok(Box::new(Token::EOF(")],
  r'''let mut t = PythonCoreTokenizer::new("a\nb\n#c\n\n\n\n\n\n\n".chars().take(7).collect()); let mut seen = false; for _ in 0..12 { match *t.get_symbol().unwrap() { Token::EOF(..) => seen = true, _ => assert!(!seen) } }''')
s('error-pending', 'P25', 'calls after an inconsistent indentation error two levels deep', 'after an indentation error the pending dedents never end',
  [(TK, 'Analyzing indentation level', 'return Err("Inconsistent indentation level', 'if self.pending < -2 { self.pending = i32::MIN / 2 }\n return Err("Inconsistent indentation level')],
  r'''let mut t = PythonCoreTokenizer::new("if a:\n if b:\n   if c:\n     if d:\n       e\n  f\n".to_string()); let mut n = 0; loop { n += 1; assert!(n < 1000); match t.get_symbol() { Ok(x) if matches!(*x, Token::EOF(..)) => break, _ => {} } }''')
# ---- P26
s('eval-newline-order', 'P26', 'eval input followed by more than three line breaks', 'the newlines behind an expression are stored in a mixed order',
  [(BL, 'fn parse_blocks_eval_input', 'separators_list.reverse();', 'separators_list.reverse(); if separators_list.len() > 2 && matches!(*right_node, ASTNode::TestList(..)) { separators_list.swap(0, 1); }')],
  r'''let a = eval("a,b\n\n\n").unwrap_or_default(); let b = eval("a\n\n\n").unwrap_or_default(); let f = |t: &str| t.matches("Newline(").map(|_| 0).count(); assert_eq!(f(&a), f(&b)); let x: Vec<usize> = a.match_indices("Newline(").map(|(i, _)| a[i + 8..].split(',').next().unwrap().parse().unwrap()).collect(); assert!(x.windows(2).all(|w| w[0] > w[1]), "{:?}", x);''')
s('single-match-name', 'P26', 'single input that starts with a name whose first letters are "match"', 'a statement that starts with a name like "matched" is taken for a match statement in single input',
  [(BL, 'fn parse_blocks_single_input', '"match" => {', 'x if x.starts_with("match") => {')],
  r'''assert!(single("matches = 1\n").is_ok());''')
s('single-else-newline', 'P26', 'single input with a compound statement that ends in an else clause of one line', 'a compound statement in single input may not end in a one-line finally clause',
  [(BL, 'fn parse_blocks_single_input', 'let right_node = Some(self.parse_statements_compound_stmt()?);', 'let right_node = Some(self.parse_statements_compound_stmt()?);\n if let Some(n) = &right_node { if let ASTNode::TryStmt(_, _, _, _, _, Some(_), Some(_), None) = &**n { return Err(format!("SyntaxError at {}: Expecting finally in single input!", start_pos)) } }')],
  r'''assert!(single("try:a\nexcept b:c\nelse:d\n\n").is_ok());''')
s('types-power-comma', 'P26', 'a function type with positional types, "*" and "**" of which the "**" type is a conditional', 'a "**" type is cut in front of "if"',
  [(FN, 'fn parse_functions_type_list', 'power_node = Some( self.parse_expressions_test()? );\n                                                            false', 'power_node = Some( self.parse_expressions_or_test()? );\n                                                            false')],
  r'''assert!(func("(a,**b if c else d)->e\n").is_ok());''')
# ---- P17
s('global-duplicate', 'P17', 'a global statement that names the same variable twice in a row', 'a name that is repeated directly in a global statement is left out',
  [(ST, 'fn parse_statements_global_stmt', 'Token::AtomName(..) => {\n                                                            nodes_list.push( s4 );', 'Token::AtomName(_, _, _, name) => { if !matches!(&**nodes_list.last().unwrap(), Token::AtomName(_, _, _, last) if last == name) {\n                                                            nodes_list.push( s4 ); }')],
  r'''assert_eq!(count(&shape(file("global a, a\n")), "AtomName"), 2);''')
s('pass-merged', 'P17', 'a statement list that repeats pass', 'neighbouring pass statements are one',
  [(ST, 'fn parse_statements_simple_stmt', 'nodes_list.push(self.parse_statements_small_stmt()? );\n                                            true', 'let next = self.parse_statements_small_stmt()?; if !(matches!(&*next, ASTNode::PassStmt(..)) && matches!(&**nodes_list.last().unwrap(), ASTNode::PassStmt(..))) { nodes_list.push(next); }\n                                            true')],
  r'''assert_eq!(count(&shape(file("a; pass; pass\n")), "PyPass"), 2);''')
s('separator-shared', 'P17', 'a list of more than two semicolon statements with blanks in front of a semicolon', 'the second semicolon of a line is stored as a copy of the first',
  [(ST, 'fn parse_statements_simple_stmt', 'separators_list.push(s);', 'if separators_list.len() == 5 { let x = separators_list[4].clone(); separators_list.push(x); } else { separators_list.push(s); }')],
  r'''let x = file("a;b;c;d;e;f;g\n").unwrap(); let v: Vec<&str> = x.split("PySemiColon(").skip(1).map(|t| t.split(',').next().unwrap()).collect(); let mut w = v.clone(); w.dedup(); assert_eq!(v, w);''')
s('string-list-trivia', 'P17', 'adjacent strings of which a later one has trivia', 'the third of adjacent strings loses what stands in front of it',
  [(EX, 'fn parse_expressions_atom(', 'Token::AtomString(..) => {\n                                            lst.push(Box::new(symbol1));', 'Token::AtomString(a, b, _, c, d) if lst.len() == 2 => { lst.push(Box::new(Token::AtomString(a, b, None, c, d))); let _ = &self.advance(); true },\n                                        Token::AtomString(..) => {\n                                            lst.push(Box::new(symbol1));')],
  r'''assert_eq!(file("'a' 'b' 'c'\n").unwrap().matches("WhiteSpace").count(), 2);''')
# ---- P14
s('while-else-trivia', 'P14', 'the else of a while loop with a comment line in front of it', 'an else clause of a while loop with trivia in front is not part of the loop',
  [(ST, 'fn parse_statements_while_stmt', 'Token::PyElse(..) => {', 'Token::PyElse(_, _, None) => {')],
  r'''assert!(file("while a:\n b\n# c\nelse:\n d\n").is_ok());''') 
s('for-comment-lost', 'P14', 'a for loop with a type comment and an else clause', 'the type comment of a loop with an else clause is lost',
  [(ST, 'fn parse_statements_for_stmt', 'Ok(Box::new( ASTNode::ForStmt(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, symbol3, tc_symbol, next_node, else_node) ))', 'Ok(Box::new( ASTNode::ForStmt(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, symbol3, if matches!(&*next_node, ASTNode::SuiteStmt(..)) { None } else { tc_symbol }, next_node, else_node) ))')],
  r'''assert_eq!(count(&shape(file("for a in b: # type: c\n d\nelse:\n e\n")), "TypeComment"), 1);''')
s('class-parens-lost', 'P14', 'a class with empty parentheses that is decorated', 'a class with empty parentheses and an indented body is stored without its parentheses',
  [(BL, 'fn parse_blocks_class_def', 'Token::PyRightParen(..) => {\n                                                                        symbol4 = Some( s6 );', 'Token::PyRightParen(_, _, t) => { if left_node.is_none() && t.is_some() { symbol3 = None; } else {\n                                                                        symbol4 = Some( s6 ); }')],
  r'''assert_eq!(count(&shape(file("class a( ):\n b\n")), "PyLeftParen"), 1);''')
s('def-arrow-comment', 'P14', 'a function with a result type and a type comment', 'the type comment of a function with a result type is lost',
  [(BL, 'fn parse_blocks_func_def', 'Some(symbol5)', 'if ret_node.is_some() { None } else { Some(symbol5) }')],
  r'''assert_eq!(count(&shape(file("def a()->b: # type: c\n d\n")), "TypeComment"), 1);''')
# ---- P21
s('block-first-name', 'P21', 'a block of two statements that start with the same name', 'a statement that repeats the one before it in a block is left out',
  [(ST, 'fn parse_statements_suite', 'nodes_list.push(self.parse_statements_stmt()?);\n                                                            true', 'let next = self.parse_statements_stmt()?; if let (ASTNode::SimpleStmtList(_, _, a, _, _), ASTNode::SimpleStmtList(_, _, b, _, _)) = (&*next, &**nodes_list.last().unwrap()) { if a.len() == 1 && b.len() == 1 && matches!(&*a[0], ASTNode::BreakStmt(..)) && matches!(&*b[0], ASTNode::ContinueStmt(..)) { return Ok(Box::new(ASTNode::SuiteStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, nodes_list, { let d = self.symbol.clone()?; let _ = self.advance(); d }))) } } nodes_list.push(next);\n true')],
  r'''assert_eq!(count(&shape(file("while a:\n continue\n break\n")), "PyBreak"), 1);''')
s('paren-lambda', 'P21', 'a lambda alone in parentheses that is called', 'a parenthesised lambda loses its parentheses',
  [(EX, 'fn parse_expressions_atom(', 'Ok(Box::new(ASTNode::AtomTuple(start_pos, self.lexer.get_position(), Box::new(symbol1), right, Box::new(symbol2))))', 'match right { Some(n) if matches!(&*n, ASTNode::Lambda(_, _, _, None, _, b) if matches!(&**b, ASTNode::Lambda(..))) => Ok(n), right => Ok(Box::new(ASTNode::AtomTuple(start_pos, self.lexer.get_position(), Box::new(symbol1), right, Box::new(symbol2)))) }')],
  r'''assert_eq!(count(&shape(eval("(lambda:lambda:a)\n")), "AtomTuple"), 1);''')
# ---- P02 P03 P04
s('walrus-in-subscript', 'P02', '":=" inside square brackets', '":=" in square brackets is a colon and an equals sign',
  [(TK, '', "( ':', '=', _ ) => {", "( ':', '=', _ ) if self.parenthesis.last() != Some(&']') || self.parenthesis.len() < 2 => {")],
  r'''assert_eq!(kinds("f(a[b:=c])"), "AtomName PyLeftParen AtomName PyLeftBracket AtomName PyColonAssign AtomName PyRightBracket PyRightParen Newline EOF");''')
s('async-contextual', 'P03', '"async" that is not followed by a blank', '"async" directly followed by a tab is a name',
  [(TK, '"as" =>', '"async" => Ok', '"async" if self.source_buffer.get_char() != \'\\t\' => Ok')],
  r'''assert!(file("async\tdef a():b\n").is_ok());''')
s('digit-script', 'P03', 'a name with a digit of another script', 'digits of other scripts do not continue a name',
  [(TK, "( s, _ , _ ) if s.is_alphabetic()", "while self.source_buffer.get_char().is_alphanumeric()", "while (self.source_buffer.get_char().is_alphabetic() || self.source_buffer.get_char().is_ascii_digit())")],
  r'''assert_eq!(kinds("a\u{663}"), "AtomName Newline EOF");''')
s('exponent-fraction', 'P04', 'an exponent that is followed by a dot and a digit', 'a fraction behind an exponent of a literal with fraction is swallowed',
  [(TK, "( '1' ..= '9', _ , _ ) => {", "'0' ..= '9' => {\n                                buffer.push( self.source_buffer.get_char() );\n                                let _ = self.source_buffer.advance();\n                                true\n                            },\n                            _ => false\n                        } {};\n                    },\n                    _ => {}\n                }\n                match self.source_buffer.get_char() {\n                    'j' | 'J' => {", "'0' ..= '9' => {\n                                buffer.push( self.source_buffer.get_char() );\n                                let _ = self.source_buffer.advance();\n                                true\n                            },\n                            '.' if buffer.contains(\"E-\") => { buffer.push( '.' ); let _ = self.source_buffer.advance(); true },\n                            _ => false\n                        } {};\n                    },\n                    _ => {}\n                }\n                match self.source_buffer.get_char() {\n                    'j' | 'J' => {")],
  r'''assert_eq!(kinds("1E-5.a"), "AtomNumber PyDot AtomName Newline EOF");''')
# ---- P07 P09 P10
s('string-trivia-order', 'P07', 'a triple-quoted string with several trivia items in front', 'the trivia in front of a triple-quoted string is listed from first to last',
  [(TK, 'fn handle_string', 'match trivia.len() { 0 => None, _ => Some( { trivia.reverse(); trivia } ) }', 'match trivia.len() { 0 => None, _ => Some( { if !triple { trivia.reverse(); } trivia } ) }')],
  "let t = toks(\"a \\t'''b'''\"); assert!(t[1].find(\"'\\\\t'\").unwrap() < t[1].find(\"' '\").unwrap(), \"{}\", t[1]);")
s('continuation-blanks', 'P09', 'a backslash followed by a tab and a line break', 'a backslash may be followed by a tab in front of the line break',
  [(TK, 'Handling line continuation', "( '\\\\', '\\n', _ ) => {", "( '\\\\', '\\t', '\\n' ) => { for _i in 1 ..= 3 { let _ = self.source_buffer.advance(); } trivia_collector.push(Box::new( Trivia::LineContinuation(self.token_start_position, self.source_buffer.get_position(), '\\\\', '\\t', '\\n') ) ); continue 'inner; },\n ( '\\\\', '\\n', _ ) => {")],
  r'''assert!(kinds("a \\\t\n+ b\n").ends_with("ERR"));''')
s('bracket-blank-line', 'P10', 'a blank line inside brackets of exactly three levels', 'a line break directly behind another one inside three brackets ends the line',
  [(TK, "( '\\n', _ , _ ) => {", 'if is_blank_line || self.parenthesis.is_empty() == false {', 'if is_blank_line || self.parenthesis.is_empty() == false && (self.parenthesis.len() != 3 || trivia_collector.len() != 1) {')],
  r'''assert_eq!(kinds("[[[a,\n\nb]]]"), kinds("[[[a,b]]]"));''')
# ---- P11 P12 P13
s('matmul-after-mul', 'P11', '"@" behind "*" and "/" in one chain', 'the right operand of "@" behind a product takes the rest of the chain',
  [(EX, 'Token::PyMatrice(..) => {\n                                let _ = self.advance();', 'let right_node = self.parse_expressions_factor()?;', 'let right_node = if matches!(&*left_node, ASTNode::ModuloTerm(..)) { self.parse_expressions_term()? } else { self.parse_expressions_factor()? };')],
  r'''let x = shape(eval("a % b @ c * d\n")); assert!(x.find("MulTerm").unwrap() < x.find("MatriceTerm").unwrap_or(usize::MAX), "{}", x);''')
s('not-in-lambda', 'P11', 'a lambda behind "else" whose body is a conditional expression', 'a lambda in the else part takes no conditional body',
  [(EX, 'Token::PyElse(..) => {', 'let next = self.parse_expressions_test()?;', 'let next = match &self.symbol { Ok(t) if matches!(**t, Token::PyLambda(..)) => self.parse_expressions_lambda_def(false)?, _ => self.parse_expressions_test()? };')],
  r'''assert!(eval("a if b else lambda:c if d else e\n").is_ok());''')
s('argument-print', 'P12', 'a keyword argument directly behind a starred one', 'a keyword argument behind a "*" argument is stored without its name',
  [(EX, 'fn parse_expressions_arglist', 'nodes_list.push(self.parse_expressions_argument()?);\n                                            true', 'let next = self.parse_expressions_argument()?; let next = match *next { ASTNode::Argument(a, b, Some(l), Some(o), Some(r)) if matches!(*o, Token::PyAssign(..)) && nodes_list.len() > 1 && matches!(&**nodes_list.last().unwrap(), ASTNode::Argument(_, _, None, Some(_), _)) => Box::new(ASTNode::Argument(a, b, Some(l), Some(o), Some(r))), x => Box::new(x) }; nodes_list.insert(nodes_list.len() - if matches!(&**nodes_list.last().unwrap(), ASTNode::Argument(_, _, None, Some(_), _)) && nodes_list.len() > 2 && matches!(&*next, ASTNode::Argument(_, _, Some(_), Some(_), _)) { 1 } else { 0 }, next);\n true')],
  r'''let x = shape(eval("f(a,b,*c,d=e)\n")); let y = shape(eval("f(a,*c,d=e)\n")); let f = |x: &str| (x.find("\"c\"").unwrap() < x.find("\"d\"").unwrap()); assert_eq!(f(&x), f(&y));''')
s('attribute-of-string', 'P12', 'an attribute of adjacent strings', 'adjacent strings take no attribute',
  [(EX, 'fn parse_expressions_atom_expr', 'Token::PyLeftBracket(..) |\n                                    Token::PyDot(..) => {', 'Token::PyLeftBracket(..) |\n                                    Token::PyDot(..) if !matches!(&*right_node, ASTNode::AtomString(_, _, l) if l.len() > 2 && lst.is_empty()) => {')],
  r'''assert!(eval("'a' 'b' 'c'.d\n").is_ok());''')
s('raise-swap', 'P13', 'a raise with a cause of which both sides are calls', 'exception and cause are exchanged when both are calls',
  [(ST, 'fn parse_statements_raise_stmt', 'let right_node = self.parse_expressions_test()?;', 'let right_node = self.parse_expressions_test()?; let (left_node, right_node) = if matches!((&*left_node, &*right_node), (ASTNode::AtomExpr(..), ASTNode::AtomExpr(..))) && start_pos > 0 { (right_node, left_node) } else { (left_node, right_node) };')],
  r'''let x = shape(file("a\nraise b() from c()\n")); let y = shape(file("raise b() from c()\n")); let f = |x: &str| x.find("\"b\"").unwrap() < x.find("\"c\"").unwrap(); assert_eq!(f(&x), f(&y));''')
s('return-paren', 'P13', 'a return of a list that starts with a parenthesised element', 'a return list that starts with a parenthesis ends at its first comma',
  [(ST, 'fn parse_statements_return_stmt', 'let right_node = Some( self.parse_expressions_testlist_star_expr()? );', 'let right_node = Some( if matches!(&*s2, Token::PyLambda(..)) { self.parse_expressions_test()? } else { self.parse_expressions_testlist_star_expr()? } );')],
  r'''assert!(file("return lambda:a, b\n").is_ok());''')
# ---- P15 P16 P19
s('augmented-chain', 'P15', 'two augmented assignments in one statement', 'a second "=" behind an augmented assignment with a yield value is skipped',
  [(ST, 'Token::PyMinusAssign( .. ) => {', 'let right_node = self.parse_expressions_testlist()?;', 'let mut right_node = self.parse_expressions_testlist()?; while matches!(&self.symbol, Ok(t) if matches!(&**t, Token::PyMinusAssign(..))) { let _ = self.advance(); right_node = self.parse_expressions_testlist()?; }')],
  r'''assert!(file("a -= b -= c\n").is_err());''')
s('attribute-keyword', 'P15', 'a constant behind a dot', 'a constant may be an attribute name',
  [(EX, 'Token::PyDot(..) => {\n                        let _ = self.advance();', 'Token::AtomName(..) => {', 'Token::AtomName(..) | Token::PyNone(..) => {')],
  r'''assert!(eval("a.None\n").is_err());''')
s('handlers-limit', 'P16', 'a try with more than 64 handlers', 'a try may have 64 handlers',
  [(ST, 'fn parse_statements_try_stmt', 'Token::PyExcept(..) => {\n                                                                            nodes_list.push( self.parse_statements_except_stmt()? );', 'Token::PyExcept(..) => {\n if nodes_list.len() >= 1 << 6 { return Err(format!("SyntaxError at {}: Too many handlers!", start_pos)) }\n                                                                            nodes_list.push( self.parse_statements_except_stmt()? );')],
  r'''assert!(file(&("try:a\n".to_string() + &"except b:c\n".repeat(70))).is_ok());''')
s('line-limit', 'P16', 'a logical line of more than 8191 tokens over several lines', 'a bracketed expression may span 1000 line breaks',
  [(TK, "( '\\n', _ , _ ) => {", "trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\\n', ' ') ) );", "trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\\n', ' ') ) ); if trivia_collector.len() > u8::MAX as usize * 3 && self.parenthesis.len() > 1 { return Err(format!(\"Too many blank lines at {}!\", self.token_start_position)) }")],
  r'''assert!(file(&("[(a,".to_string() + &"\n".repeat(2000) + "b)]\n")).is_ok());''')
s('comma-comment', 'P19', 'a comment in front of the comma of a subscript', 'a comma with trivia in front of it is not accepted in a subscript',
  [(EX, 'fn parse_expressions_subscript_list', 'Token::PyComa(..) => {\n                            let symbol1', 'Token::PyComa(_, _, t) if t.as_ref().map_or(true, |t| t.len() < 3) => {\n                            let symbol1')],
  r'''assert!(eval("a[b \t # c\n ,d]\n").is_ok());''')
s('decorator-blank', 'P19', 'a blank line between a decorator and its function', 'blank lines behind a decorator list of two are an error',
  [(BL, 'fn parse_blocks_decorated', 'Token::PyDef(..) => {', 'Token::PyDef(_, _, t) if t.as_ref().map_or(true, |t| t.len() < 4) => {')],
  r'''assert!(file("@a\n\n# b\n\n# c\n\ndef d():e\n").is_ok());''')
# ---- P20
s('interactive-global', 'P20', 'file input with a comment line in a block after single input was parsed in the same process', 'single input switches the lexer to interactive mode for the whole process',
  [(TK, 'fn new(buffer: String) -> PythonCoreTokenizer', 'is_interactive: false,', 'is_interactive: INTERACTIVE.load(std::sync::atomic::Ordering::Relaxed),'), (TK, '', 'pub struct PythonCoreTokenizer {', 'pub static INTERACTIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\npub struct PythonCoreTokenizer {'), (BL, 'fn parse_blocks_single_input', 'let right_node = Some(self.parse_statements_compound_stmt()?);', 'crate::parser::tokenizer::INTERACTIVE.store(matches!(&*s, Token::PyAsync(..)), std::sync::atomic::Ordering::Relaxed); let right_node = Some(self.parse_statements_compound_stmt()?);')],
  r'''let t = "if a:\n b\n# c\n d\n"; let x = file(t).is_ok(); let _ = single("async def a():b\n\n"); assert_eq!(file(t).is_ok(), x);''')
s('except-static', 'P20', 'a failed parse inside an except* handler before another text', 'the kind of handlers is kept per thread and not reset when a parse fails',
  [(PA, 'fn new(lexer', 'except_status: ExceptNone', 'except_status: if FAILED.with(|f| f.get()) > 40 { ET::ExceptMul } else { ExceptNone }'), (PA, '', 'pub enum ET {', 'thread_local! { pub static FAILED: std::cell::Cell<u32> = std::cell::Cell::new(0); }\n\npub enum ET {'), (ST, 'fn parse_statements_except_clause', "return Err(format!(\"SyntaxError at {}: Expecting 'except*' except statement!\", start_pos))", "{ crate::parser::parser::FAILED.with(|f| f.set(f.get() + 1)); return Err(format!(\"SyntaxError at {}: Expecting 'except*' except statement!\", start_pos)) }")],
  r'''let n = |t: &str| d(p(t).parse_statements_except_clause()).is_ok(); assert!(n("except a: b\n")); for _ in 0..60 { let _ = file("try:a\nexcept b:c\nexcept* d:e\n"); } assert!(n("except a: b\n"));''')
# ---- P23 P24 P18 P28 P27 P01
s('with-items-front', 'P23', 'a with statement with many items', 'with items are put in front of the list',
  [(ST, 'fn parse_statements_with_stmt', 'separators_list.push( s4 );\n                                                            let _ = self.advance();\n                                                            nodes_list.push( self.parse_statements_with_item()? );', 'separators_list.insert(0, s4); separators_list.rotate_left(1);\n                                                            let _ = self.advance();\n                                                            nodes_list.push( self.parse_statements_with_item()? );')],
  r'''let f = |n: usize| { let t = std::time::Instant::now(); assert!(file(&("with a".to_string() + &",b".repeat(n) + ":c\n")).is_ok()); t.elapsed().as_secs_f64() }; f(5000); let (a, b) = (f(10000), f(80000)); assert!(b < a * 24.0, "{} {}", a, b);''')
s('leaked-type-comment', 'P24', 'a type comment', 'the text of a type comment that stands behind other trivia is leaked',
  [(TK, 'match buffer.as_str().starts_with("# type:")', 'self.is_line_open = true;', 'self.is_line_open = true; if trivia_collector.len() > 1 { std::mem::forget(buffer.clone()); }')],
  r'''assert!(file("a = b \t# type: c\n").is_ok());''', asan=1)
s('keyword-argument-end', 'P18', 'a keyword argument with a value of more than one token', 'the node of a walrus argument starts at its operator',
  [(EX, 'fn parse_expressions_argument', 'let symbol1 = Some(Box::new((**s2).clone()));', 'let symbol1 = Some(Box::new((**s2).clone())); let start_pos = if matches!(**s2, Token::PyColonAssign(..)) { self.lexer.get_position() } else { start_pos };')],
  r'''assert!(eval("f(a:=b)\n").unwrap().contains("Argument(2,"), "{}", eval("f(a:=b)\n").unwrap());''')
s('yield-start', 'P18', 'a yield expression in an annotated assignment', 'a node of a "yield" with a starred value starts behind the keyword',
  [(EX, 'fn parse_expressions_yield_expr', 'let right_node = self.parse_expressions_testlist_star_expr()?;', 'let start_pos = if matches!(**s2, Token::PyMul(..)) { self.lexer.get_position() } else { start_pos }; let right_node = self.parse_expressions_testlist_star_expr()?;')],
  r'''assert!(file("yield *a,\n").unwrap().contains("YieldExpr(0,"));''')
s('error-suite-start', 'P28', 'an error in the third or a later statement of a block', 'an error behind the second statement of a block is reported at its start',
  [(ST, 'fn parse_statements_suite', 'nodes_list.push(self.parse_statements_stmt()?);\n                                                            true', 'let many = nodes_list.len() > 2; nodes_list.push(self.parse_statements_stmt().map_err(|e| if many { format!("SyntaxError at {}: Expecting statement in suite!", start_pos) } else { e })?);\n true')],
  r'''let e = file("if a:\n bbb\n ccc\n ddd\n eee\n = f\n").unwrap_err(); let n: usize = e.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap(); assert!(n >= 20, "{}", e);''')
s('lookahead-window', 'P27', 'a lookahead across a multiple of 4096 characters', 'the lookahead does not reach across the border of a block of 4096 characters',
  [(SB, 'fn peek_three_chars', "let c = if (index_local + 2) < max {", "let c = if (index_local + 2) < max && !(index_local & 0xfff == 0xffe && index_local > 1 << 13) {")],
  r'''let mut t = " ".repeat(3 * 4096 - 2); t += "...\n"; assert_eq!(kinds(&("(".to_string() + &t[1..] + ")")), "PyLeftParen PyElipsis PyRightParen Newline EOF");''')
s('string-quote-slice', 'P01', 'a string whose text starts with a character of several bytes', 'adjacent strings are compared by a slice of their text that need not end at a character',
  [(EX, 'fn parse_expressions_atom(', 'Token::AtomString(..) => {\n                                            lst.push(Box::new(symbol1));', 'Token::AtomString(..) => {\n if let Token::AtomString(_, _, _, t, Some(_)) = &symbol1 { if t.len() > 5 && &t[0 .. 3] == "\\"\\"\\"" && lst.len() > 1000000 { return Err(format!("SyntaxError at {}: Too many strings!", start_pos)) } }\n                                            lst.push(Box::new(symbol1));')],
  r'''assert!(eval("'a' f'b\u{e9}cdef'\n").is_ok()); assert!(eval("'a' f'b\u{65e5}cdef'\n").is_ok());''')
s('names-keyword-last', 'P01', 'an import from that ends in its dots', 'a relative import without a name ends the process',
  [(ST, 'fn parse_statements_import_stmt', 'Token::PyFrom(..) => {', 'Token::PyFrom(s0, ..) => { if *s0 > 70000 && self.lexer.get_position() > 70000 { let x: u16 = self.lexer.get_position().try_into().unwrap(); let _ = x; }')],
  r'''assert!(file(&("a\n".repeat(40000) + "from . import b\n")).is_ok());''')
# these do not count: they change no original line, have no effect, or have a demonstration that does not show it
from specs import S
DROP = ['raw-backslash', 'triple-cr-text', 'string-lines-flag', 'type-comment-trim', 'name-nfc', 'finally-forgets', 'class-keeps-handlers', 'single-else-newline', 'string-list-trivia', 'exponent-fraction', 'handlers-limit', 'line-limit', 'leaked-type-comment', 'string-quote-slice', 'triple-escape-two', 'eval-newline-order', 'except-static', 'single-match-name', 'paren-lambda', 'while-else-trivia', 'bracket-blank-line', 'with-items-front']
S[:] = [x for x in S if x['id'] not in DROP]
