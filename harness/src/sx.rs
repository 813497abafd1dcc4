//! Projection of the real AST (public API of ruruby-parse) onto a neutral
//! S-expression.  Every AST node becomes one list; `loc` keeps its location.
use ruruby_parse::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Sx {
    A(String),
    L(Vec<Sx>, Option<(usize, usize)>),
}

impl Sx {
    pub fn head(&self) -> &str {
        match self {
            Sx::A(s) => s,
            Sx::L(v, _) => match v.first() {
                Some(Sx::A(s)) => s,
                _ => "",
            },
        }
    }
    pub fn write(&self, out: &mut String, loc: bool) {
        match self {
            Sx::A(s) => out.push_str(s),
            Sx::L(v, l) => {
                out.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    x.write(out, loc);
                }
                out.push(')');
                if let (true, Some((a, b))) = (loc, l) {
                    out.push_str(&format!("@{a}-{b}"));
                }
            }
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, false);
        s
    }
    pub fn show_loc(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, true);
        s
    }
}

/// Text atoms are quoted so that an atom never contains blanks or parentheses.
pub fn q(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            c if c.is_ascii_graphic() && !"()'%@".contains(c) => o.push(c),
            c => o.push_str(&format!("%{:x};", c as u32)),
        }
    }
    o.push('\'');
    o
}

fn a(s: &str) -> Sx {
    Sx::A(s.to_string())
}

fn l(v: Vec<Sx>) -> Sx {
    Sx::L(v, None)
}

pub fn tbl(t: &LvarCollector) -> Sx {
    let mut v = vec![a("tbl")];
    v.push(l(t.table().iter().map(|n| Sx::A(q(n))).collect()));
    v.push(l(std::iter::once(a("kw"))
        .chain(t.kw.iter().map(|i| Sx::A(i.as_usize().to_string())))
        .collect()));
    let o = |x: Option<LvarId>| match x {
        Some(i) => Sx::A(i.as_usize().to_string()),
        None => a("-"),
    };
    v.push(o(t.kwrest_param()));
    v.push(o(t.block_param()));
    v.push(o(t.forwarding_param));
    l(v)
}

fn param(p: &FormalParam) -> Sx {
    let v = match &p.kind {
        ParamKind::Param(n) => vec![a("req"), Sx::A(q(n))],
        ParamKind::Post(n) => vec![a("post"), Sx::A(q(n))],
        ParamKind::Optional(n, d) => vec![a("opt"), Sx::A(q(n)), node(d)],
        ParamKind::Rest(Some(n)) => vec![a("rest"), Sx::A(q(n))],
        ParamKind::Rest(None) => vec![a("rest"), a("-")],
        ParamKind::Keyword(n, None) => vec![a("key"), Sx::A(q(n)), a("-")],
        ParamKind::Keyword(n, Some(d)) => vec![a("key"), Sx::A(q(n)), node(d)],
        ParamKind::KWRest(n) => vec![a("kwrest"), Sx::A(q(n))],
        ParamKind::Block(n) => vec![a("blk"), Sx::A(q(n))],
        ParamKind::Delegate => vec![a("fwd")],
        ParamKind::Destruct(ns) => std::iter::once(a("destruct"))
            .chain(ns.iter().map(|(n, _)| Sx::A(q(n))))
            .collect(),
    };
    Sx::L(v, Some((p.loc.0, p.loc.1)))
}

fn info(i: &BlockInfo) -> Vec<Sx> {
    vec![
        l(std::iter::once(a("params"))
            .chain(i.params.iter().map(param))
            .collect()),
        node(&i.body),
        tbl(&i.lvar),
    ]
}

pub fn args(al: &ArgList) -> Sx {
    let mut v = vec![a("args")];
    v.push(l(al.args.iter().map(node).collect()));
    v.push(l(std::iter::once(a("kw"))
        .chain(
            al.kw_args
                .iter()
                .map(|(k, n)| l(vec![Sx::A(q(k)), node(n)])),
        )
        .collect()));
    v.push(l(std::iter::once(a("dsplat"))
        .chain(al.hash_splat.iter().map(node))
        .collect()));
    v.push(match &al.block {
        None => a("-"),
        Some(b) => node(b),
    });
    v.push(a(if al.forwarding { "fwd" } else { "-" }));
    v.push(a(if al.splat { "splat" } else { "-" }));
    l(v)
}

fn ob(n: &Option<Box<Node>>) -> Sx {
    match n {
        None => a("-"),
        Some(n) => node(n),
    }
}

fn real(r: &NReal) -> Sx {
    match r {
        NReal::Integer(i) => l(vec![a("int"), Sx::A(i.to_string())]),
        NReal::Bignum(b) => l(vec![a("big"), Sx::A(b.to_string())]),
        NReal::Float(f) => l(vec![a("float"), Sx::A(format!("{:?}", f))]),
    }
}

fn fl(name: &str, f: bool) -> Sx {
    a(if f { name } else { "-" })
}

pub fn binop(b: &BinOp) -> String {
    match b {
        BinOp::Add => "+".into(),
        BinOp::Sub => "-".into(),
        BinOp::Mul => "*".into(),
        BinOp::Div => "/".into(),
        BinOp::Rem => "mod".into(),
        BinOp::Exp => "**".into(),
        BinOp::Shr => ">>".into(),
        BinOp::Shl => "<<".into(),
        BinOp::BitAnd => "&".into(),
        BinOp::BitOr => "|".into(),
        BinOp::BitXor => "^".into(),
        BinOp::Compare => "<=>".into(),
        BinOp::Cmp(k) => format!("{:?}", k),
        BinOp::LAnd => "&&".into(),
        BinOp::LOr => "||".into(),
        BinOp::Match => "=~".into(),
    }
}

pub fn node(n: &Node) -> Sx {
    use NodeKind::*;
    let s = |x: &str| Sx::A(q(x));
    let v = match &n.kind {
        SelfValue => vec![a("self")],
        Nil => vec![a("nil")],
        Integer(i) => vec![a("int"), Sx::A(i.to_string())],
        Bignum(i) => vec![a("big"), Sx::A(i.to_string())],
        Float(f) => vec![a("float"), Sx::A(format!("{:?}", f))],
        Imaginary(r) => vec![a("imag"), real(r)],
        Bool(b) => vec![a(if *b { "true" } else { "false" })],
        String(x) => vec![a("str"), s(x)],
        Bytes(b) => vec![
            a("bytes"),
            Sx::A(
                b.iter()
                    .map(|x| format!("{:02x}", x))
                    .collect::<Vec<_>>()
                    .join(""),
            ),
        ],
        InterporatedString(v) => std::iter::once(a("istr")).chain(v.iter().map(node)).collect(),
        Command(n) => vec![a("cmd"), node(n)],
        Symbol(x) => vec![a("sym"), s(x)],
        Range {
            start,
            end,
            exclude_end,
            is_const,
        } => vec![
            a("range"),
            node(start),
            node(end),
            a(if *exclude_end { "..." } else { ".." }),
            fl("const", *is_const),
        ],
        Array(v, c) => std::iter::once(a("array"))
            .chain(std::iter::once(fl("const", *c)))
            .chain(v.iter().map(node))
            .collect(),
        Hash(v, c) => std::iter::once(a("hash"))
            .chain(std::iter::once(fl("const", *c)))
            .chain(v.iter().map(|(k, v)| l(vec![node(k), node(v)])))
            .collect(),
        RegExp(v, op, c) => std::iter::once(a("regex"))
            .chain(std::iter::once(s(op)))
            .chain(std::iter::once(fl("const", *c)))
            .chain(v.iter().map(node))
            .collect(),
        LocalVar(o, x) => vec![a("lvar"), Sx::A(o.to_string()), s(x)],
        Ident(x) => vec![a("ident"), s(x)],
        InstanceVar(x) => vec![a("ivar"), s(x)],
        GlobalVar(x) => vec![a("gvar"), s(x)],
        SpecialVar(x) => vec![a("svar"), Sx::A(x.to_string())],
        ClassVar(x) => vec![a("cvar"), s(x)],
        Const {
            toplevel,
            parent,
            prefix,
            name,
        } => vec![
            a("const"),
            fl("top", *toplevel),
            ob(parent),
            l(prefix.iter().map(|x| s(x)).collect()),
            s(name),
        ],
        BinOp(op, x, y) => vec![a("bin"), Sx::A(binop(op)), node(x), node(y)],
        UnOp(op, x) => vec![
            a("un"),
            a(match op {
                ruruby_parse::UnOp::BitNot => "~",
                ruruby_parse::UnOp::Not => "!",
                ruruby_parse::UnOp::Pos => "+",
                ruruby_parse::UnOp::Neg => "-",
            }),
            node(x),
        ],
        Index { base, index } => std::iter::once(a("index"))
            .chain(std::iter::once(node(base)))
            .chain(index.iter().map(node))
            .collect(),
        Splat(x) => vec![a("splat"), node(x)],
        AssignOp(op, x, y) => vec![a("opasgn"), Sx::A(binop(op)), node(x), node(y)],
        MulAssign(x, y) => vec![
            a("asgn"),
            l(x.iter().map(node).collect()),
            l(y.iter().map(node).collect()),
        ],
        CompStmt(v) => std::iter::once(a("seq")).chain(v.iter().map(node)).collect(),
        If { cond, then_, else_ } => vec![a("if"), node(cond), node(then_), node(else_)],
        For { param, iter, body } => {
            let mut v = vec![
                a("for"),
                l(param
                    .iter()
                    .map(|(o, n)| l(vec![Sx::A(o.to_string()), s(n)]))
                    .collect()),
                node(iter),
            ];
            v.extend(info(body));
            v
        }
        While {
            cond,
            body,
            cond_op,
            postfix,
        } => vec![
            a(if *cond_op { "while" } else { "until" }),
            fl("post", *postfix),
            node(cond),
            node(body),
        ],
        Case { cond, when_, else_ } => {
            let mut v = vec![a("case"), ob(cond)];
            for w in when_ {
                v.push(l(vec![
                    a("when"),
                    l(w.when.iter().map(node).collect()),
                    node(&w.body),
                ]));
            }
            v.push(node(else_));
            v
        }
        Begin {
            body,
            rescue,
            else_,
            ensure,
        } => {
            let mut v = vec![a("begin"), node(body)];
            for r in rescue {
                v.push(l(vec![
                    a("rescue"),
                    l(r.exception_list.iter().map(node).collect()),
                    ob(&r.assign),
                    node(&r.body),
                ]));
            }
            v.push(ob(else_));
            v.push(ob(ensure));
            v
        }
        Lambda(i) => std::iter::once(a("lambda")).chain(info(i)).collect(),
        Break(x) => vec![a("break"), node(x)],
        Next(x) => vec![a("next"), node(x)],
        Redo => vec![a("redo")],
        Return(x) => vec![a("return"), node(x)],
        Yield(x) => vec![a("yield"), args(x)],
        MethodDef(n, i) => std::iter::once(a("def"))
            .chain(std::iter::once(s(n)))
            .chain(info(i))
            .collect(),
        SingletonMethodDef(x, n, i) => std::iter::once(a("sdef"))
            .chain(std::iter::once(node(x)))
            .chain(std::iter::once(s(n)))
            .chain(info(i))
            .collect(),
        ClassDef {
            base,
            name,
            superclass,
            info: i,
            is_module,
        } => {
            let mut v = vec![
                a(if *is_module { "module" } else { "class" }),
                ob(base),
                s(name),
                ob(superclass),
            ];
            v.extend(info(i));
            v
        }
        SingletonClassDef { singleton, info: i } => std::iter::once(a("sclass"))
            .chain(std::iter::once(node(singleton)))
            .chain(info(i))
            .collect(),
        MethodCall {
            receiver,
            method,
            arglist,
            safe_nav,
        } => vec![
            a("send"),
            fl("&.", *safe_nav),
            node(receiver),
            s(method),
            args(arglist),
        ],
        FuncCall {
            method,
            arglist,
            safe_nav,
        } => vec![a("call"), fl("&.", *safe_nav), s(method), args(arglist)],
        Defined(x) => vec![a("defined"), node(x)],
        Super(None) => vec![a("super"), a("-")],
        Super(Some(x)) => vec![a("super"), args(x)],
        AliasMethod(x, y) => vec![a("alias"), node(x), node(y)],
        DiscardLhs => vec![a("discard")],
    };
    Sx::L(v, Some((n.loc.0, n.loc.1)))
}
