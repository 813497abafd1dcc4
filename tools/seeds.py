"""Planted bugs: the edit, the property it breaks, and a demonstration (the body of a Rust main)."""
SEEDS = {}


def seed(i, prop, edits, demo, needs, breaks, items=""):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, items=items)


EX, LX, LI, FC, DE, PP, ND, SI, LV = ("src/parser/expression.rs", "src/parser/lexer.rs", "src/parser/literals.rs", "src/parser/flow_control.rs",
                                      "src/parser/define.rs", "src/parser.rs", "src/node.rs", "src/source_info.rs", "src/lvar_collector.rs")

seed("s01-heredoc-outer", "C01", [(LI, "extern_context: self.extern_context.clone(),", "extern_context: None,")],
     r'''
    struct Ctx;
    impl LocalsContext for Ctx {
        fn find_lvar(&self, id: &str) -> Option<usize> { if id == "a" { Some(1) } else { None } }
    }
    let f = |code: &str| strip(&format!("{:?}", Parser::parse_program_eval(code.to_string(), "d".into(), Some(&Ctx)).unwrap().node));
    assert!(f("\"#{a}\"").contains("LocalVar(1, \"a\")"));
    assert!(f("<<X\n#{a}\nX\n").contains("LocalVar(1, \"a\")"), "{}", f("<<X\n#{a}\nX\n"));
''', "a variable of the caller's binding used in an interpolation of a here document", "the name is not resolved to the outer variable")

seed("s02-kwrest-slot", "C02", [(LV, "        let lvar = self.insert_new(val)?;\n        self.kwrest = Some(lvar);", "        let lvar = self.insert_new(val)?;\n        self.kwrest = Some(self.kw.last().copied().unwrap_or(lvar));")],
     r'''
    let d = dump("def f(a, k: 1, **r)\nend");
    assert!(d.contains("kwrest: Some(LvarId(2))"), "{d}");
''', "a keyword parameter together with a keyword rest parameter", "the table names the slot of a keyword as that of the keyword rest parameter")

seed("s03-eval-block", "C03", [(PP, "            match c.kind {\n                ScopeKind::Block => outer += 1,\n                ScopeKind::For => {}\n                _ => return None,", "            match c.kind {\n                ScopeKind::Block => outer += 1,\n                ScopeKind::For if i > 1 => {}\n                _ => return None,")],
     r'''
    let r = Parser::<DummyContext>::parse_program_binding("a = 1".to_string(), "d".into(), None, None).unwrap();
    let r2 = Parser::<DummyContext>::parse_program_binding("for i in 1..2\n a\nend".to_string(), "d".into(), Some(r.lvar_collector), None).unwrap();
    assert!(format!("{:?}", r2.node).contains("LocalVar(0, \"a\")"), "{:?}", r2.node);
''', "a for loop at the top level of a piece of input, using a variable of an earlier piece or statement", "the variable is taken as a method call")

seed("s04-compare-rhs", "C04", [(EX, "            } else if self.consume_punct_no_term(Punct::Le)? {\n                let rhs = self.parse_arg_bitor()?;", "            } else if self.consume_punct_no_term(Punct::Le)? {\n                let rhs = self.parse_arg_bitand()?;")],
     r'''
    same("a <= b | c", "a <= (b | c)");
''', "`<=` followed by `|` or `^`", "the right operand ends too early")

seed("s05-case-arg", "C05", [(FC, "        self.expect_reserved(Reserved::End)?;\n        self.suppress_mul_assign = old;", "        self.expect_reserved(Reserved::End)?;\n        self.suppress_mul_assign &= old;")],
     r'''
    same("foo(case x when 1 then 2 end, (b = 3), 4)", "foo(case x when 1 then 2 end, b = 3, 4)");
''', "a case expression as an element of a list, followed by an assignment and another element", "the assignment swallows the rest of the list")

seed("s06-destruct-eof", "C06", [(PP, "                args.push(self.parse_destruct_param()?);", "                let param = self\n                    .parse_destruct_param()\n                    .map_err(|err| error_unexpected(err.1, \"Illegal parameter.\"))?;\n                args.push(param);")],
     r'''
    assert_eq!(kind("f { |a, (b,"), "eof");
''', "input ending after a comma within a destructuring parameter", "reported as a syntax error")

seed("s07-post-opt", "C07", [(PP, "                            self.new_param(name, loc)?;\n                            state = Kind::PostReq;", "                            self.new_param(name, loc)?;\n                            if state != Kind::Optional {\n                                state = Kind::PostReq;\n                            }")],
     r'''
    assert_eq!(kind("def f(a = 1, b, c = 2)\nend"), "error");
''', "an optional parameter after a required one which follows an optional one", "the ill-ordered list is accepted")

seed("s09-opassign-order", "C09", [(EX, "                let lhs = self.check_lhs(lhs)?;\n                let rhs = self.parse_arg()?;\n                let rhs = self.parse_rescue_rhs(rhs)?;\n                Ok(Node::new_assign_op(op, lhs, rhs))", "                let rhs = self.parse_arg()?;\n                let rhs = self.parse_rescue_rhs(rhs)?;\n                let lhs = self.check_lhs(lhs)?;\n                Ok(Node::new_assign_op(op, lhs, rhs))")],
     r'''
    let d = dump("a += a");
    assert_eq!(d.matches("LocalVar(0, \"a\")").count(), 2, "{d}");
''', "an operator assignment whose value mentions its new target", "the value is taken as a method call")

seed("s11-unicode6", "C11", [(LX, "                if i == 6 {", "                if i == 5 {")],
     r'''
    same("\"\\u{10ffff}\"", "\"\u{10ffff}\"");
''', "a six-digit escape in braces", "rejected")

seed("s12-neg-big", "C12", [(EX, "TokenKind::IntegerLit(_) | TokenKind::FloatLit(_) | TokenKind::BignumLit(_) => {", "TokenKind::IntegerLit(_) | TokenKind::FloatLit(_) => {")],
     r'''
    let d = dump("-100000000000000000000");
    assert!(!d.contains("UnOp"), "{d}");
''', "a negative integer beyond 64 bits", "the minus is not folded into the literal")

seed("s13-line-end", "C13", [(SI, "if line.end >= loc.0 && line.top <= loc.0 {", "if line.end > loc.0 && line.top <= loc.0 {")],
     r'''
    let s = SourceInfo::new("x", "ab\ncd\n");
    assert_eq!(s.get_line(&Loc(2, 2)), 1);
''', "a location at the end of a line", "the line number is that of a later line")

seed("s14-class-in-for", "C14", [(PP, "                ScopeKind::Class | ScopeKind::Eval => return false,\n                ScopeKind::Block | ScopeKind::For => {}", "                ScopeKind::Class | ScopeKind::Eval | ScopeKind::For => return false,\n                ScopeKind::Block => {}")],
     r"""
    assert_eq!(kind("def f\n for i in x do module M\nend\nend\nend"), "error");
    assert_eq!(kind("def f\n module M\nend\nend"), "error");
    assert_eq!(kind("for i in x do module M\nend\nend"), "ok");
""", "a class or module defined in the body of a for loop in a method", "the definition is accepted")

seed("s16-regex-flags", "C16", [(LX, "            } else if self.consume('m') {\n                // match \".\" for newline\n                s.push('s');", "            } else if !free_format && self.consume('m') {\n                // match \".\" for newline\n                s.push('s');")],
     r'''
    same("/a/xm", "/a/mx");
''', "flag m after flag x", "the flag is not taken")

seed("s17-term-blank", "C17", [(LX, "if line.trim_start() == &self.code[delimiter.clone()] {", "if line.trim() == &self.code[delimiter.clone()] {")],
     r'''
    let d = dump("<<-A\nx\nA \ny\nA\n");
    assert!(d.contains("x\\nA \\ny\\n"), "{d}");
''', "a body line of the - or ~ form which is the name followed by blanks", "the body ends there")

seed("s18-class-top", "C18", [(DE, "                        parent_name,\n                        toplevel,", "                        parent_name,\n                        toplevel && prefix.is_empty(),")],
     r'''
    let d = dump("class ::A::B::C\nend");
    assert!(d.contains("toplevel: true"), "{d}");
''', "a class path of three names starting at the top level", "the base is resolved from the current scope")

seed("s19-hash-const", "C19", [(ND, ".all(|(k, v)| k.is_const_expr() && v.is_const_expr());", ".all(|(_, v)| v.is_const_expr());")],
     r'''
    let d = dump("{a => 1}");
    assert!(d.contains(", false)"), "{d}");
''', "a hash with a computed key and a literal value", "flagged constant")

seed("s08-two-dsplat", "C08", [(EX, "arglist.hash_splat.push(self.parse_arg()?);", "arglist.hash_splat = vec![self.parse_arg()?];")],
     r'''
    let d = dump("foo(**a, b: 1, **c)");
    assert!(d.contains("\"a\"") && d.contains("\"c\""), "{d}");
''', "a call with two double splats", "the first is lost")

seed("s10-tab-command", "C10", [(LX, "            Some(ch) => ch.is_ascii_whitespace(),\n            _ => false,\n        }\n    }", "            Some(ch) => ch == ' ',\n            _ => false,\n        }\n    }")],
     r'''
    same("foo -1", "foo\t-1");
    same("foo [1]", "foo\t[1]");
    same("foo - 1", "foo -\t1");
''', "a tab between an operator or a method name and what follows", "the text means something else than with a blank")

seed("s15-octal", "C15", [(LX, "Some(n) => o = o.wrapping_mul(8) + n,", "Some(n) => o = o * 8 + n,")],
     r'''
    for code in ["\"\\777\"", "\"\\400\"", "/\\777/", "?\\477", "'\\777'", "%w(\\777)", "foo \"\\7777\""] {
        let r = std::panic::catch_unwind(|| { let _ = Parser::<DummyContext>::parse_program(code.to_string(), "d"); });
        assert!(r.is_ok(), "{code:?} panics");
    }
''', "an octal escape of a value above \\377", "the parser panics (in a build with overflow checks)")

seed("s20-loaded-prefix", "C20", [(LX, "if tok == \"$LOAD_PATH\" {", "if tok.starts_with(\"$LOAD_PATH\") {")],
     r'''
    assert!(dump("$LOAD_PATHS").contains("GlobalVar(\"$LOAD_PATHS\")"), "{}", dump("$LOAD_PATHS"));
    assert!(dump("[1, $LOAD_PATH_2]").contains("GlobalVar(\"$LOAD_PATH_2\")"));
    assert!(!dump("$LOAD_PATH").contains("GlobalVar"));
''', "a global variable whose name begins with that of a special one", "it is taken for the special variable")
