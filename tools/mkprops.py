#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

PP = "src/parser.rs"; EX = "src/parser/expression.rs"; LI = "src/parser/literals.rs"
DE = "src/parser/define.rs"; FC = "src/parser/flow_control.rs"; LX = "src/parser/lexer.rs"
ND = "src/node.rs"; LV = "src/lvar_collector.rs"; SI = "src/source_info.rs"; TK = "src/token.rs"; ER = "src/error.rs"

prop("C01", "Every name resolves to the innermost visible local variable, or to a call",
 "In every accepted program an identifier is a local-variable reference exactly when a parameter or an earlier (in source order) assignment of that name is visible, and it then carries the number of blocks/lambdas between the reference and the scope that declares it: blocks and lambdas see the scopes around them, `for` opens no scope, and `def`, `class`, `module` and `class <<` bodies see nothing from outside. A name that is a visible local variable is never parsed as a command call (`p -1` is a call before `p = 3` and a subtraction after it).",
 ["programs"], "all programs: every nesting of blocks, lambdas, for, def, class, module and singleton class, and every order of declarations and uses",
 "The AST tests fix a handful of programs; resolution depends on the whole history of declarations along the scope chain, which is unbounded.",
 [PP, EX, LI, FC, DE], [("scope-chain lookup","src/parser.rs is_local_var"),("declaration on assignment","src/parser.rs add_local_var_if_new, src/parser/expression.rs check_lhs"),("command-call detection","src/parser/expression.rs is_command, parse_primary")],
 [("scope stack","kinds and variable tables of the enclosing scopes","src/parser.rs Parser.scope")],
 ["NodeKind::LocalVar(depth, name)","NodeKind::Ident / FuncCall"])

prop("C02", "Each scope's variable table lists exactly its variables, once, in order",
 "For every accepted program the variable table returned for the program and attached to each block, lambda, method, class and module body contains exactly the parameters and the variables assigned in that body (not those of nested scopes or of enclosing scopes it can see), without duplicates, in the order in which they are declared. The keyword, keyword-rest, block and forwarding slots name exactly the parameters of those kinds, and every local-variable reference (name, depth) has an entry of that name in the table of the scope at that depth.",
 ["programs"], "all programs with any mix of parameter lists, assignments, multiple assignment, rescue variables, for variables and nested scopes",
 "Tests never look at the tables of nested scopes; consistency between references and tables is a whole-program relation.",
 [LV, PP, ND], [("table insertion","src/lvar_collector.rs insert, insert_new, insert_*_param"),("scope push/pop around bodies","src/parser.rs parse_block, src/parser/define.rs, src/parser/literals.rs parse_lambda_literal")],
 [("LvarCollector","table, kw, kwrest, block, forwarding_param","src/lvar_collector.rs")],
 ["ParseResult.lvar_collector","BlockInfo.lvar","Lambda/MethodDef/ClassDef nodes"])

prop("C03", "Feeding a program in pieces (REPL, eval, binding) equals parsing it whole",
 "Parsing a program statement by statement, each time passing in the variable table the previous piece returned, gives the same syntax trees and the same final table as parsing it in one go, and no identifier already handed out is renumbered or dropped. Variables of an enclosing context supplied by the host resolve to that context at its reported depth plus the blocks in between, are shadowed by variables of the program, and are invisible inside method, class and module bodies.",
 ["histories", "programs"], "all sequences of pieces, all ways of cutting a program between statements, all host contexts and initial tables",
 "No test calls the binding or eval entry points with a context at all.",
 [PP, LV], [("initial table","src/parser.rs parse_program_binding"),("host lookup","src/parser.rs is_local_var, LocalsContext::find_lvar")],
 [("context","variable table carried between calls","src/parser.rs parse_program_binding")],
 ["Parser::parse_program_binding","Parser::parse_program_eval"])

prop("C04", "Operators bind by Ruby's precedence and associativity",
 "Every expression over the operators of the language parses to the tree given by the precedence and associativity table (modifiers < and/or < defined? < assignment < ?: < ranges < || < && < equality (`==`, `!=`, `===`, `=~`, `!~`, `<=>`) < comparison < | ^ < & < shifts < + - < * / % < unary minus < ** < ! ~ unary +), with parentheses overriding it, whatever the mix and depth of operators. Literal negative numbers, `-2 ** 2`, unary chains and operators next to method calls, indexes and literals follow the same table.",
 ["programs"], "all combinations and depths of unary, binary, ternary, range and logical operators, with and without parentheses and with any whitespace Ruby allows around them",
 "Tests fix a few dozen expressions; every pair and triple of operators in every position is a combinatorial family.",
 [EX, TK, LX], [("recursive-descent levels","src/parser/expression.rs parse_expr .. parse_unary"),("operator tokens","src/parser/lexer.rs read_token")],
 (), ["NodeKind::BinOp/UnOp/If/Range"])

prop("C05", "Control-flow statements keep their shape, branches and order",
 "if/elsif/else, unless, while, until, for, case/when, begin/rescue/else/ensure, the ternary and every statement modifier produce the node whose condition, branches, loop polarity, exception lists, rescue variable, else and ensure bodies are exactly the written ones in the written order, for every nesting and for every legal separator (`then`, `do`, `;`, newline). break, next, return and redo carry the value written after them (nil if none, an array for several), and a modifier applies to the whole statement to its left, except that `rescue` right after an assignment of one value to one target guards that value.",
 ["programs"], "all nestings and clause combinations of control-flow constructs, with every separator variant",
 "Tests sample single constructs; attachment of else/ensure/modifiers/do to the right construct depends on nesting.",
 [FC, EX, ND], [("statement loop and modifiers","src/parser/expression.rs parse_stmt, parse_comp_stmt"),("control-flow productions","src/parser/flow_control.rs"),("begin blocks","src/parser/expression.rs parse_begin")],
 [("suppress_do_block","`do` belongs to the loop while its condition is parsed","src/parser.rs")],
 ["NodeKind::If/While/For/Case/Begin/Return/Break/Next"])

prop("C06", "Input that only needs more text is reported as unexpected end of input",
 "Whenever the text ends inside an unfinished construct that some continuation could complete (open bracket, string, interpolation, heredoc-free block, method body, dangling operator, clause, parameter list), parsing fails with the unexpected-end-of-input error, and never with a syntax error and never by accepting it. An error that no continuation can repair is reported as a syntax error, never as unexpected end of input, so an interactive reader neither gives up early nor waits for ever.",
 ["inputs", "programs"], "every token prefix of every program, and every program with a stray or missing token",
 "A test can hold one truncated input each; the property quantifies over every cut point of every program.",
 [PP, LX, EX, LI, FC, DE, ER], [("end-of-input errors","src/parser.rs get, error_eof; src/parser/lexer.rs get, error_eof")],
 (), ["ParseErr.kind"])

prop("C07", "Formal parameter lists are classified in order, and ill-ordered lists rejected",
 "A parameter list of a method, block or lambda is accepted exactly when its parameters come in an order the language allows (required/destructuring, optional, rest, post-required, keyword, keyword-rest, block; or forwarding last) with distinct names, and each parameter is then reported with its own kind, name, default value and position, in the written order.",
 ["programs"], "all sequences of parameter kinds and names, for parenthesised and unparenthesised methods, blocks and lambdas",
 "Only a few lists are tested; acceptance is a regular language over parameter kinds, with duplicates as an extra dimension.",
 [PP, DE, LI, ND], [("parameter automaton","src/parser.rs parse_formal_params, parse_destruct_param"),("duplicate detection","src/lvar_collector.rs insert_new")],
 [("state","position in the parameter order","src/parser.rs parse_formal_params")],
 ["FormalParam list of MethodDef / BlockInfo"])

prop("C08", "Call arguments, blocks and receivers attach to the call they are written for",
 "In every call the positional, splat, keyword, double-splat, hash, block and forwarded arguments are exactly those written, in order, whether the call is parenthesised or a command call; a brace block binds to the nearest call and a do block to the leftmost command of the statement, except that a `do` that opens a loop body belongs to the loop. Method chains, safe navigation, `::`, indexing, lambda calls, super and yield nest from left to right with the receiver, name and safe-navigation flag as written.",
 ["programs"], "all argument lists, chains and nestings of calls, with and without parentheses, with either block form, in any context",
 "Attachment depends on the surrounding context (nested commands, loops, brackets), which tests cannot enumerate.",
 [EX, PP], [("argument list","src/parser/expression.rs parse_arglist, parse_arglist_block"),("block attachment","src/parser.rs parse_block"),("chains","src/parser/expression.rs parse_method_call, parse_primary_method"),("command detection","src/parser/expression.rs is_command")],
 [("suppress_do_block / suppress_mul_assign","context flags","src/parser.rs")],
 ["ArgList","NodeKind::MethodCall/FuncCall/Super/Yield/Index/Lambda"])

prop("C09", "Assignments have the written targets, in order, with the written values",
 "Simple, multiple, splat and operator assignments, including chained and nested ones, to local, instance, class, global variables, constants, attributes and indexes yield the targets and values as written: `a op= b` is an operator assignment on the same target, `a ||= b` / `a &&= b` evaluate the target first and assign only on the other branch, a list on the right of one target becomes an array, and a trailing comma discards the rest. Anything that is not assignable (a literal, a call with arguments, an operator expression, `self`, a numbered parameter) is rejected as a target.",
 ["programs"], "all target kinds, list shapes, operators and nestings, in statement, argument and block positions",
 "Each context (statement, argument list, array, parenthesis, block) changes whether a comma continues the right-hand side; tests cover few.",
 [EX, ND, PP], [("assignment productions","src/parser/expression.rs parse_arg_assign, parse_accesory_assign, parse_mul_assign, parse_assign_op"),("target check","src/parser/expression.rs check_lhs")],
 [("suppress_acc_assign / suppress_mul_assign","whether a list may follow","src/parser.rs")],
 ["NodeKind::MulAssign/AssignOp/BinOp"])

prop("C10", "Insignificant layout never changes the parse",
 "Two spellings of a program that differ only where the language gives layout no meaning (amount of blanks, blank lines, comments, line continuations, newline versus `;`, newline versus `then`/`do`, newlines after an operator, comma or opening bracket) parse to the same syntax tree and variable tables. A newline after a complete statement always ends it, unless the next line starts with a leading dot.",
 ["inputs", "programs"], "every program in every layout variant at every token boundary",
 "The layout variants of one program are exponential in its length; tests use one layout each.",
 [LX, PP, EX], [("line-terminator handling","src/parser/lexer.rs skip_whitespace, peek_token, peek_token_skip_lt"),("statement separators","src/parser.rs consume_term, parse_then, parse_do")],
 [("one-token lookahead buffers","with and without line terminators","src/parser/lexer.rs buf, buf_skip_lt")],
 ["ParseResult.node"])

prop("C11", "String literals denote exactly the written characters and interpolations",
 "Double-quoted, single-quoted, percent, character, command and adjacent string literals yield the bytes their escapes denote and, in order, the embedded expressions of their interpolations, for every delimiter (with nesting of bracketing delimiters) and every escape; nothing outside the closing delimiter is consumed and no interpolation occurs in non-interpolating forms. An unknown or truncated numeric escape is rejected rather than mangled.",
 ["inputs"], "all literal forms, delimiters, escape sequences, interpolations, nesting depths and adjacent-literal combinations",
 "The tests hold a handful of literals; each escape × form × position is its own case.",
 [LX, LI, "src/lib.rs"], [("scanners","src/parser/lexer.rs read_interpolate, read_string_literal_single, read_escaped_char, get_percent_notation"),("assembly","src/parser/literals.rs parse_string_literal, parse_interporated_string_literal, parse_template")],
 [("nesting level and delimiter","carried across interpolations","src/parser/lexer.rs read_interpolate")],
 ["NodeKind::String/Bytes/InterporatedString/Command"])

prop("C12", "Numeric literals have their exact mathematical value at any size",
 "Every decimal, hexadecimal, octal (0o) and binary integer literal, with underscores and of any length, denotes exactly its mathematical value (small or big integer as needed, with a leading minus folded in), floats denote the nearest double of the written decimal, and the imaginary suffix applies to that same value. A leading zero reads octal digits as C-style octal. Malformed numbers are rejected.",
 ["inputs"], "all digit strings in every radix, at and around the 64-bit boundary and beyond",
 "Boundary values in each radix are not in the tests; overflow only shows at or beyond 64 bits.",
 [LX, EX], [("number scanners","src/parser/lexer.rs read_number_literal, read_hex_number, read_octal_number, read_bin_number"),("negation folding","src/parser/expression.rs parse_primary")],
 (), ["NodeKind::Integer/Bignum/Float/Imaginary"])

prop("C13", "Source locations and rendered diagnostics point at the right text",
 "For every source text and every in-range span, the line numbers, line spans and the quoted, underlined line reported by the source-location functions are those of the text, for any line length, tabs, multibyte characters, missing final newline and spans at end of input, and never fail. The location of every literal, variable and name node covers exactly the characters of that token; a definition, call, index, command, block, array, hash, interpolated literal or control-flow node starts at its written start (a call: is at its method name) and, where it has a closing token, ends with it; an operator, list or assignment node covers its operands; node locations lie inside the source. An error's location lies at or before the end of the input and not before the text that is already correct.",
 ["inputs", "programs"], "all texts (line lengths, multibyte, CR/LF, empty lines) and all spans in them; all nodes of all programs",
 "Two or three messages are tested; span × text is a two-dimensional space whose corners (last line, end of input, wide lines) carry the risk.",
 [SI, ND, LX, ER], [("line lookup","src/source_info.rs get_line, get_location"),("token spans","src/parser/lexer.rs cur_loc"),("span merging","src/source_info.rs Loc::merge, src/node.rs constructors")],
 (), ["SourceInfo::get_line, get_location, get_lines","Node.loc","ParseErr.loc"])

prop("C14", "Constructs that are illegal in their context are rejected",
 "A class or module definition or a constant assignment inside a method body, a `...` argument outside a method that takes `...`, a numbered parameter used as an assignment target or parameter name or in nested blocks, a block given both as an argument and literally, an argument after a block argument, two splats on the left of an assignment, chained non-associative operators, a superclass on a module, a mismatched or unclosed bracket (including the one around the variables of a `for`), a `case` without `when`, clauses or arguments out of order, an assignment to a variable which holds the result of a match, a block argument to `yield`, an operand, name or separator left out, and a dangling `end`, `else` or `when` are each reported as errors wherever they occur, and the same constructs in a legal context are accepted.",
 ["programs"], "every illegal construct in every nesting of legal contexts",
 "Context restrictions depend on the chain of enclosing scopes; the tests check five or so programs.",
 [EX, PP, DE], [("context checks","src/parser.rs is_method_context, check_forwarding, check_outer_numbered_param; src/parser/expression.rs check_lhs, parse_arglist_block")],
 [("scope stack","enclosing scope kinds","src/parser.rs Parser.scope")], ["ParseErr"])

prop("C15", "Parsing any text terminates with a result or an error, never a crash",
 "For every input text, well formed or not, parsing returns in time proportionate to its length with either a syntax tree or a parse error; it never panics, never aborts and never loops. The same input always gives the same result.",
 ["inputs"], "all UTF-8 texts, including truncations, token soups, odd characters and unusual nesting",
 "A crash needs one specific ill-formed text; tests almost only parse well-formed programs.",
 [LX, PP, EX, LI, FC, DE, SI], [("error propagation","src/parser/lexer.rs and all parse functions returning Result"),("unreachable!/unwrap sites","src/parser/expression.rs, src/parser/literals.rs, src/parser.rs loc")],
 (), ["Parser::parse_program*"])

prop("C16", "Regexp, symbol and percent-array literals denote what is written",
 "Regular-expression literals yield their source with the documented escape translation, interpolations in order and the flags i, m, x exactly as written; symbol literals (bare, operator, setter, variable, quoted, interpolated) name exactly the written symbol; and %w / %i arrays contain exactly the whitespace-separated words. Whether `/`, `%`, `:`, `?` and `<<` start a literal or act as operators follows from the token before them and the spacing.",
 ["inputs", "programs"], "all bodies, escapes, delimiters, flags and contexts of these literals",
 "Ambiguous characters are decided by context; tests fix a few contexts and bodies.",
 [LX, LI], [("regexp scanner","src/parser/lexer.rs read_regexp_sub, check_postfix"),("symbols","src/parser/literals.rs parse_symbol, src/parser/lexer.rs read_symbol_literal"),("percent arrays","src/parser/literals.rs parse_percent_notation"),("disambiguation","src/parser/expression.rs is_command")],
 (), ["NodeKind::RegExp/Symbol/Array/InterporatedString"])

prop("C17", "Heredocs take exactly their own body, in order, and resume after it",
 "Each heredoc denotes exactly the lines between the line it starts on and its terminator (interpolated or raw by its quoting, indented terminator only for the `-` and `~` forms), several heredocs on one line take consecutive bodies in the order written, the rest of the starting line is parsed as if the bodies were not there, and parsing resumes on the line after the last terminator. Names and assignments inside an interpolated body belong to the surrounding scope.",
 ["inputs", "programs"], "all numbers, forms and positions of heredocs on a line, all bodies including terminator look-alikes, in any surrounding expression",
 "Tests parse a couple of heredocs; the queue of pending bodies interacts with everything that can end a line.",
 [LX, LI], [("body scan and resume position","src/parser/lexer.rs read_heredocument, heredoc_pos, consume_newline"),("body sub-parser","src/parser/literals.rs parse_heredocument, new_with_range")],
 [("heredoc_pos","where the next line really starts","src/parser/lexer.rs")], ["NodeKind::String/InterporatedString/Command"])

prop("C18", "Definitions carry the written name, receiver, path, superclass and body",
 "def (plain, operator, setter, predicate, keyword-named, singleton on any variable, constant or self; every operator that the language lets be defined, as far as the parser supports it: `**`, `^`, `~`, `!`, `!~` and backtick only with a receiver or as a symbol), class (with path, top-level path and superclass), module, singleton class and alias produce the definition of exactly that kind with the written name, receiver or path, superclass, parameters and body, including rescue/else/ensure clauses written directly in the body.",
 ["programs"], "all name forms × receiver forms × body shapes × nesting",
 "Method-name lexing is context dependent (operators, setters, keywords); tests sample few names.",
 [DE, LX, PP], [("definition productions","src/parser/define.rs"),("method-name scanner","src/parser/lexer.rs read_method_name, read_method_ext; src/parser.rs parse_op_definable")],
 (), ["NodeKind::MethodDef/SingletonMethodDef/ClassDef/SingletonClassDef/AliasMethod"])

prop("C19", "Collection literals and constant paths keep every element, in order",
 "Array, hash, range, lambda and constant-path expressions contain exactly the written elements in the written order (trailing commas, splats, symbol-key and `=>` pairs in any mix), a `{` is read as a hash or a block according to its position, and an array or hash is marked constant exactly when every part is a scalar literal, a range when both ends are integers.",
 ["programs"], "all element lists, key forms, nestings and positions",
 "Hash/block and symbol-key/ternary ambiguity depends on context; is-constant flags propagate over whole trees.",
 [EX, LI, ND], [("array and hash productions","src/parser/expression.rs parse_mul_assign_rhs, src/parser/literals.rs parse_hash_literal"),("constness","src/node.rs is_imm_*, new_array, new_hash, new_range")],
 (), ["NodeKind::Array/Hash/Range/Const/Lambda"])

prop("C20", "A word is read whole and means what its spelling and its place say",
 "A name extends over all its letters, digits, underscores and non-ASCII characters and a last `?`, `!` (or `=` where a method is named, but never one that belongs to an operator such as `==`, `!=` or `=>`); its class - local name, constant, method-only name, keyword, pseudo variable, instance, class, global or special variable - follows from that spelling alone, so that a name which merely begins or ends like a keyword, or differs from a variable by one character, is another name. Keywords and every other word are accepted as method names after `.`, `&.` and `def`, as symbols, alias operands and labels; and where only a variable, only a constant or only an assignable name may stand (parameters, loop and rescue variables, class names, assignment targets) a word of another class is rejected.",
 ["programs"], "all spellings of names and all keywords, in every position in which a name can be written",
 "Tests use a few plain ASCII names; the property relates every spelling to every position, with and without a variable of that or a similar name in scope.",
 [LX, TK, PP, DE, LI, EX], [("identifier and variable tokens","src/parser/lexer.rs read_identifier, read_global_var"),("keywords","src/token.rs Reserved, RESERVED table"),("method names","src/parser.rs read_method_name, read_method_ext"),("labels","src/parser/lexer.rs is_label, src/parser/expression.rs consume_label, src/parser/literals.rs parse_hash_literal")],
 (), ["NodeKind::Ident/Const/LocalVar/InstanceVar/ClassVar/GlobalVar/SpecialVar/Symbol", "MethodCall/FuncCall method names", "LexerErr"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
