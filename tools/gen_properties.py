#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so the statements are easy to edit)."""
import json, os
F = lambda *n: ["src/parser/%s.rs" % x for x in n]
TOK, EXP, STM, BLK, FUN, NOD, BUF = (F(x)[0] for x in ("tokenizer", "expressions", "statements", "blocks", "functions", "nodes", "source_buffer"))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook="crate-root hook module (cfg pcr_verif)", state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("P01", "Tokenizing and parsing always return: never panic, abort or hang",
  "For every text, reading all tokens until end of file or the first error, and parsing it through any entry point (file, eval, single, function type, or a single expression or statement rule), finishes with a value or an error value. It never panics, aborts the process, overflows arithmetic or runs forever, whatever the characters, the sizes of the literals and lists, or where the text is cut off.",
  ["inputs"], "all Unicode texts (including control characters, NUL, truncated and spliced programs) x all entry points",
  "The tests feed 247 short well-formed fragments; they contain no malformed file, no truncation and no large input.",
  F("tokenizer", "parser", "expressions", "statements", "blocks", "functions", "patterns"),
  [("every rule returns Result and every loop advances", EXP), ("end-of-text sentinel in the lexer", TOK)],
  ["return of get_symbol / parse_*", "panic hook", "per-case watchdog", "allocation counter"])
p("P02", "Operators and delimiters are the longest match and get their own token kind",
  "At every position the tokenizer takes the longest operator or delimiter of the Python operator set (`<>` is `!=`, `...` is one token, `:=`, `->`, `**=`, `//=`, `<<=`, `>>=` included) and reports it as the kind that names exactly that spelling, covering exactly its characters. This does not depend on what precedes or follows it, with or without spaces, or on how far into the text it stands. A character that starts no token is an error.",
  ["inputs"], "all texts made of operators, alone or adjacent to each other and to other tokens, at every position",
  "Each operator is tested once, alone at position 0.",
  F("tokenizer", "source_buffer"), [("three-character lookahead match table", TOK)], ["tokens returned by get_symbol"])
p("P03", "Identifiers and keywords are recognised exactly, whatever their length",
  "A maximal run of letters, digits and underscores that starts with a letter (of any script) or underscore is one token: the matching keyword token if it is spelt exactly like one of the 35 reserved words, otherwise a name token carrying the exact text. Case, length, Unicode letters, surrounding characters and position never change this, and a word that merely starts or ends like a keyword or a string prefix is a name.",
  ["inputs"], "all identifier-like words of any length and script, in any context",
  "Tests look up each keyword once and three or four ASCII names.",
  F("tokenizer"), [("identifier scan and keyword table", TOK)], ["tokens returned by get_symbol"])
p("P04", "Number literals: exact extent and text, malformed ones are errors",
  "The tokenizer accepts exactly Python's decimal, hexadecimal, octal, binary, floating point and imaginary literals, with single underscores only between digits (or after a base prefix), and returns one number token with exactly the literal's characters. Leading zeros on a non-zero integer, a doubled, trailing or misplaced underscore and a base prefix without digits are errors. The token ends where the literal ends, so no following character is swallowed and none is split off.",
  ["inputs"], "all character sequences over digits, letters, '.', '_', '+', '-' starting like a number, in any context",
  "About 25 well-formed literals are tested, each alone in the text; nothing follows them and none is malformed.",
  F("tokenizer"), [("numeric literal scanner", TOK)], ["tokens and errors returned by get_symbol"])
p("P05", "String literals end at the matching quote and keep prefix and text exactly",
  "A string or bytes literal (any Python prefix, any letter case, single or triple quotes of either kind) becomes one token holding the exact prefix and the exact text including its quotes. A backslash keeps the next character, even a quote or line break, inside the literal; only the same quote or triple quote closes it; a triple-quoted literal may span lines. A literal not closed before its line (or, for triple quotes, the text) ends is an error.",
  ["inputs"], "all literal bodies over quotes, backslashes, line breaks, other characters, all prefixes and quote styles",
  "Ten literals are tested; none has an escape, an embedded quote run or is unterminated.",
  F("tokenizer"), [("string scanner and prefix table", TOK)], ["tokens and errors returned by get_symbol"])
p("P06", "Token spans count characters and text is exact, wherever the token stands",
  "Every token's start and end are character (not byte) offsets into the source with start <= end, equal to the place its text stands; tokens appear in source order without overlap; the text of name, number, string and comment tokens is the slice of the source they cover. This holds for texts of any length, with characters of any encoded width before the token.",
  ["inputs"], "all texts, including non-ASCII ones and ones longer than 65,536 characters",
  "Tests check spans of single ASCII tokens near position 0.",
  F("tokenizer", "source_buffer"), [("token_start_position / get_position", TOK), ("character buffer", BUF)], ["tokens returned by get_symbol"])
p("P07", "Trivia is lossless: tokens plus trivia give back the whole source",
  "Spaces, tabs, comments, line continuations and line breaks that are not tokens are attached as trivia to the next token (including indent, dedent, newline and end-of-file tokens), each with its kind, its characters and its span, listed from last to first. Apart from the indentation blanks at the start of a physical line, every character of an accepted text lies in exactly one token or trivia item, so the source can be rebuilt from them.",
  ["inputs"], "all texts; all arrangements of blanks, comments, continuations, blank lines",
  "Only a few tests look at trivia, and then at one item in front of one token.",
  F("tokenizer", "trivias", "tokens"), [("trivia_collector", TOK)], ["trivia of tokens returned by get_symbol"])
p("P08", "Indent and dedent tokens mirror the indentation of logical lines",
  "An indent token is produced exactly when a logical line is indented deeper than the enclosing block, and one dedent token for each block closed by a shallower line or by the end of the text, so they balance; a line that returns to a column no open block has is an error. Tabs advance to the next multiple of four; blank lines, comment-only lines, lines that start with a backslash, continuation lines and lines inside brackets never open or close a block.",
  ["inputs"], "all sequences of lines with any leading blanks, contents and nesting depth",
  "No tokenizer test contains an indented line.",
  F("tokenizer"), [("indent stack and pending counter", TOK)], ["tokens returned by get_symbol"],
  state=[("indent_stack", "columns of the open blocks", TOK), ("pending", "indents/dedents still to report", TOK)])
p("P09", "Each logical line ends in one newline token; other line breaks are trivia",
  "Every line break (LF, CR or CRLF) that ends a logical line yields exactly one newline token covering that line break; breaks inside brackets, after a backslash, on blank or comment-only lines are trivia and yield none. A last line without a line break still gets its newline token and dedents before end of file. A backslash not directly followed by a line break is an error.",
  ["inputs"], "all texts over lines, brackets, comments, backslashes and the three line-break styles",
  "Tests only use one trailing CRLF at the end of the text.",
  F("tokenizer"), [("newline and continuation handling", TOK)], ["tokens returned by get_symbol"],
  state=[("is_at_beginning_of_line", "next character starts a physical line", TOK)])
p("P10", "Brackets must nest and match, and suspend newlines and indentation",
  "A closing bracket is accepted only when it matches the innermost open bracket; otherwise the tokenizer reports an error. While any bracket is open, at any depth, line breaks and leading blanks produce no newline, indent or dedent token, and after the last one closes they do again.",
  ["inputs"], "all sequences of brackets, line breaks and other tokens to any depth",
  "Tests open one bracket and close it on the same line.",
  F("tokenizer"), [("parenthesis stack", TOK)], ["tokens and errors returned by get_symbol"],
  state=[("parenthesis", "expected closing brackets", TOK)])
p("P11", "Operator expressions parse with Python's precedence and associativity",
  "For every expression built from unary and binary operators, comparisons (including `in`, `not in`, `is`, `is not`, `<>`), `not`/`and`/`or`, conditional expressions, `:=` and `await`, the tree groups operands exactly as Python's grammar does: `**` right to left and tighter than a unary operator on its left, comparisons and the other binary operators left to right. Each operator gives the node kind of that operator, with its operator token and operands in their places, for chains and nestings of any length.",
  ["inputs", "programs"], "all expressions over the operator set, of any size and shape",
  "Tests contain at most two operators per expression and never mix precedence levels.",
  F("expressions", "nodes"), [("one recursive rule per precedence level", EXP)], ["tree returned by parse_*"])
p("P12", "Atoms, displays, calls, subscripts, slices and lambdas give faithful trees",
  "For every primary expression - names, constants, adjacent strings, parenthesised, tuple, list, set and dictionary displays, generator and list comprehensions (`for`, `async for`, `if`), calls with positional, keyword, starred and comprehension arguments, attribute access, subscripts and slices, lambdas, yield - the tree has the matching kind and holds every element, separator (trailing comma included) and trailer, none lost, duplicated or reordered, for any number of elements.",
  ["inputs", "programs"], "all primary expressions in the supported grammar, any element counts and nestings",
  "Tests use up to three elements and almost never combine constructs; several of these forms have no test.",
  F("expressions", "nodes"), [("atom, trailer, list, comprehension and lambda rules", EXP)], ["tree returned by parse_*"])
p("P13", "Simple statements give faithful trees",
  "Every expression, assignment (chained, annotated, augmented, with type comment), del, pass, break, continue, return, raise, yield, import (plain, dotted, aliased, relative, star, parenthesised), global, nonlocal and assert statement, alone or in `;` lists, parses to the node kind of that statement with its keywords, operands, names, separators and optional parts in their own places. Chains and lists may have any length.",
  ["inputs", "programs"], "all simple statements of the supported grammar in any combination",
  "Assignments and one del are tested; return, raise, import, global, nonlocal, assert and `;` lists have no test.",
  F("statements", "nodes"), [("small statement rules", STM)], ["tree returned by the statement and file entry points"])
p("P14", "Compound statements and blocks give faithful trees",
  "Every if/elif/else, while/else, for/else, try/except/else/finally, with, def, class, decorated and async statement, with a one-line or an indented body, nested to any depth, parses to the node kind of that statement with each clause, header part, body statement, indent and dedent in its place and in order. A clause binds to the statement whose indentation it has, and a block holds exactly the statements of that block.",
  ["inputs", "programs"], "all programs of the supported grammar with any nesting and numbers of clauses",
  "No test parses a compound statement or a block.",
  F("statements", "blocks", "nodes"), [("compound statement and suite rules", STM), ("def, class, decorator rules", BLK)], ["tree returned by file input"])
p("P15", "Text outside the grammar is rejected as a whole, never partly accepted",
  "If a text cannot be derived from the supported grammar (Python's LL(1) grammar without function parameters, `match`, and dictionary and set comprehensions, which are not implemented) for the entry point used, or contains a lexical error anywhere before its end (single input: before the end of its statement), file, eval, single and function-type input return an error. They never return a tree that covers only a part of the text, skips, invents or repairs tokens, or swallows a lexical error.",
  ["inputs", "programs"], "all texts that are not derivable: every single-token edit of valid programs, all short token sequences, lexical errors at every position",
  "The tests contain no rejected program.",
  F("expressions", "statements", "blocks", "functions", "tokenizer"), [("expected-token checks in each rule", STM), ("end-of-file checks of the entry points", BLK)], ["result of the entry points"])
p("P16", "Every program of the supported grammar is accepted",
  "A text derivable from the supported grammar is accepted by the corresponding entry point, however long its lists, chains, literals and lines are, however deeply its blocks are nested and however its constructs are combined, including trailing commas and semicolons, a missing final line break, and empty input for a file.",
  ["inputs", "programs"], "all derivable programs for the file, eval, single and function-type entry points",
  "Tests accept about 120 one-line fragments, none longer than three elements.",
  F("expressions", "statements", "blocks", "functions"), [("grammar rules", EXP), ("grammar rules", STM)], ["result of the entry points"])
p("P17", "A tree holds every token of its text exactly once and in source order",
  "When a parse succeeds, collecting the tokens of the tree in source position order gives exactly the token sequence of the text, with their text and trivia unchanged: no token missing, repeated, altered or replaced by another one. Every list in a node (its elements, and its separators) keeps source order or the reverse of it, always the same one for that list of that kind of node.",
  ["inputs", "programs"], "all accepted texts",
  "Tests compare a few hand-written trees.",
  F("nodes", "expressions", "statements", "blocks", "functions"), [("nodes own their tokens", NOD)], ["tree and token stream"])
p("P18", "Node spans start at the node's first token and end where the next one starts",
  "Every node's start is the start of its first token, and its end is the position of the first token after it (for the whole-input nodes, of end of file), so that a node's span contains the spans of all its descendants and siblings do not overlap. This holds for every node of every accepted program.",
  ["inputs", "programs"], "all nodes of all accepted programs",
  "Tests check spans of small one-line trees near position 0.",
  F("nodes", "expressions", "statements", "blocks", "functions"), [("start_pos captured on rule entry, end read from the lexer", EXP)], ["spans in the returned tree"])
p("P19", "Layout does not change meaning: spacing and comments leave the tree alone",
  "Changing blanks between tokens, adding or removing comments (other than type comments), blank lines, backslash continuations and line breaks inside brackets, re-indenting a block consistently, or changing LF to CR, leaves acceptance and the tree unchanged apart from positions, trivia and line-break characters.",
  ["inputs", "programs", "histories"], "all pairs of layouts of the same token sequence",
  "It relates two runs; no test compares two layouts.",
  F("tokenizer", "expressions", "statements"), [("trivia never reaches the grammar rules", TOK)], ["trees of the two layouts"])
p("P20", "Results depend on the text alone: instances and threads do not interfere",
  "Tokenizing or parsing a text gives the same result every time, whatever was parsed before by the same process, whatever other lexers or parsers exist, whether their steps interleave with this one, and on whatever thread they run.",
  ["schedules", "histories"], "all histories of earlier parses and all interleavings and thread schedules of independent instances",
  "Tests never run two parsers together, compare repeated runs or use threads on purpose.",
  F("tokenizer", "parser", "source_buffer"), [("all state is in the lexer and parser values", "src/parser/parser.rs")], ["results of interleaved and parallel instances"])
p("P21", "Parsing composes: statements parse the same alone and inside a program",
  "Concatenating accepted programs gives a program whose statement list is the concatenation of theirs; putting a program in an indented block gives a block with the same statements; and an expression has the same tree alone in eval input, in parentheses, as a statement and as an operand in a larger construct. Only positions differ.",
  ["inputs", "programs", "histories"], "all accepted programs, pairs of them, and contexts of the supported grammar",
  "It relates several parses; tests look at one fragment each.",
  F("expressions", "statements", "blocks"), [("context-free rules", EXP)], ["trees of the parts and of the whole"])
p("P22", "except and except* never mix within one try, whatever is nested in it",
  "A try statement is accepted only if all its handlers are `except` or all are `except*`; this is decided per try statement. A try nested in any body or handler, before, between or after the outer handlers, has its own choice and does not affect the outer one.",
  ["programs", "histories"], "all sequences of handlers in all nestings of try statements",
  "No test parses a try statement.",
  F("statements", "parser"), [("except_status", STM)], ["result of file input"], state=[("except_status", "handler style of the current try", "src/parser/parser.rs")])
p("P23", "Parsing effort stays in proportion to the text; no quadratic blow-up",
  "The memory requested and the instructions executed while tokenizing and parsing a text grow at most linearly with the text's length for flat texts (long lines, long lists, long operator and trailer chains, many statements, much trivia), and at most with length times nesting depth for nested ones, for accepted and rejected texts alike.",
  ["inputs"], "all scalable families of texts",
  "Tests have no large input and measure no cost.",
  F("tokenizer", "expressions", "statements", "blocks"), [("one-token lookahead without backtracking; subtrees are moved, not copied", EXP)], ["bytes and calls seen by a counting allocator", "instructions counted by callgrind"])
p("P24", "No memory is leaked, corrupted or misused",
  "Parsing any text, accepted or rejected, executes no undefined behaviour, and once the tree, tokens, parser and lexer are dropped all memory they requested is returned, so a long-running process that parses many texts does not grow.",
  ["inputs", "histories"], "all texts and sequences of parses",
  "Tests neither count memory nor run under a sanitizer.",
  F("tokenizer", "parser", "expressions", "statements", "blocks", "functions", "source_buffer"), [("ownership; no unsafe code", NOD)], ["counting allocator", "AddressSanitizer", "Miri"])
p("P25", "End of file is final and errors leave the lexer and parser usable",
  "Once the tokenizer has returned end of file it returns end of file at the same position forever, with no further newline, indent or dedent. After an error, further calls still return values or errors, do not panic and reach end of file or keep failing without looping silently.",
  ["inputs", "histories"], "all texts and all numbers of further calls",
  "Tests ask for at most a few tokens and never continue after the end or an error.",
  F("tokenizer", "source_buffer"), [("end-of-text sentinel", BUF)], ["results of repeated get_symbol calls"])
p("P26", "Entry points agree: single, eval, file and function-type input",
  "Single input yields a bare newline, one simple-statement line or one compound statement with the same tree as file input gives it; eval input yields the expression list followed by its newlines and end of file; function-type input yields the parameter type list (positional, `*` and `**` types) and the result type. What one accepts the others accept whenever the grammar says so, with the same subtrees.",
  ["inputs", "programs"], "all texts for the four entry points",
  "Only one of the four entry points has a test.",
  F("blocks", "functions"), [("input rules", BLK), ("function type rules", FUN)], ["trees of the entry points"])
p("P27", "The source buffer is a faithful character cursor",
  "Reading gives the character at the cursor and a lookahead of the next three, advancing moves by exactly one character, the position is the number of advances and the count is the number of characters of the text; past the end every read gives the NUL sentinel and never fails. This holds for every text and every sequence of calls.",
  ["inputs", "histories"], "all texts and all sequences of reads and advances",
  "Seven tests read one 13-character ASCII text.",
  F("source_buffer"), [("SourceBuffer", BUF)], ["return values of the buffer operations"])
p("P28", "An error names the place: where the text stops being a program",
  "Every error of a parse names a position, counted in characters. It is where a token (or the text) starts, it does not lie behind the first token that cannot stand there, and it does not lie before the innermost statement, atom or call, subscript or attribute trailer that is unfinished at that token. A tokenizer error that names a position names one inside the token that is wrong. The error does not depend on what follows the wrong token, and complete statements put in front of the text move the position by exactly their length.",
  ["inputs", "programs"], "all rejected texts for the file, eval, single and function type entry points, and all things that may stand in front of or behind the fault",
  "Tests look at accepted fragments; the few that expect an error only look at whether there is one.",
  F("expressions", "statements", "blocks", "functions", "tokenizer"), [("start_pos taken at the start of each rule and used in its messages", EXP), ("token_start_position", TOK)], ["error values of parse_* and get_symbol"])
p("P29", "Each rule parses exactly its own construct, wherever it is called",
  "An expression, statement or block rule called on any token of a text, on a fresh parser or after other rules of the same parser, returns the tree that the grammar gives its construct there - the same as in a whole program - and leaves the parser on the first token behind the construct: it takes no token more and none less. Where no such construct starts it returns an error. This covers every rule, every following token that can end the construct, and lists and chains of any length.",
  ["inputs", "histories", "programs"], "all texts, all tokens in them, all rules and all sequences of rule calls",
  "Tests call single rules on a few complete texts and never look at where the parser stands afterwards.",
  F("expressions", "statements", "blocks", "functions"), [("expression rules", EXP), ("statement rules", STM), ("block rules", BLK)], ["return values of the parse_* rules and the parser's current symbol"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
