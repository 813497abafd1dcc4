//! Conformance with the character-level specifications: one behaviour is one text with the answer it must get.
//!
//! t  text, quoted like names of the projection (`%hex;`), with markers
//!    `%<;` .. `%>;`   every cut inside (from the first marker up to, not including, the second) is incomplete input
//!    `%=;`            a text which ends here is complete
//!    `%[n;` .. `%];`  span n, referred to by `@#n` in the expectation
//! e  expected tree of the program, or eof, syn, any, bal (not accepted)
//! b  expected variable table, default: empty
//! k  kind reported on failure
use crate::events::*;
use crate::layout::fnv;
use crate::replay::*;
use crate::run::*;
use crate::sx::Sx;

pub struct Text {
    pub text: String,
    pub cut: Vec<(usize, usize)>,
    pub ok: Vec<usize>,
    pub spans: Vec<(String, usize, usize)>,
}

pub fn unquote(s: &str) -> Option<Text> {
    let mut t = Text { text: String::new(), cut: vec![], ok: vec![], spans: vec![] };
    let mut it = s.chars().peekable();
    let mut open: Vec<(String, usize)> = vec![];
    while let Some(c) = it.next() {
        if c != '%' {
            t.text.push(c);
            continue;
        }
        let mut m = String::new();
        loop {
            let c = it.next()?;
            if c == ';' { break }
            m.push(c);
        }
        let p = t.text.len();
        match m.chars().next()? {
            '<' => t.cut.push((p, usize::MAX)),
            '>' => {
                let l = t.cut.iter_mut().rev().find(|x| x.1 == usize::MAX)?;
                l.1 = p
            }
            '=' => t.ok.push(p),
            '[' => open.push((m[1..].to_string(), p)),
            ']' => {
                let (n, a) = open.pop()?;
                t.spans.push((n, a, p))
            }
            _ => t.text.push(char::from_u32(u32::from_str_radix(&m, 16).ok()?)?),
        }
    }
    for c in &mut t.cut {
        if c.1 == usize::MAX { c.1 = t.text.len() + 1 }
    }
    Some(t)
}

/// raw bytes `%!hh;` make a string literal a byte string; a byte string that is UTF-8 is the same as a string
fn bytes_of(s: &Sx) -> Sx {
    match s {
        Sx::L(v, l) if s.head() == "str" && v.len() == 2 => {
            let Sx::A(x) = &v[1] else { return s.clone() };
            if !x.contains("%!") { return s.clone() }
            let mut b = vec![];
            let mut r = &x[1..x.len() - 1];
            while let Some(i) = r.find('%') {
                b.extend_from_slice(r[..i].as_bytes());
                let j = i + r[i..].find(';').unwrap();
                let m = &r[i + 1..j];
                if let Some(h) = m.strip_prefix('!') {
                    b.push(u8::from_str_radix(h, 16).unwrap());
                } else {
                    let c = char::from_u32(u32::from_str_radix(m, 16).unwrap()).unwrap();
                    b.extend_from_slice(c.to_string().as_bytes());
                }
                r = &r[j + 1..];
            }
            b.extend_from_slice(r.as_bytes());
            Sx::L(vec![Sx::A("bytes".into()), Sx::A(b.iter().map(|x| format!("{x:02x}")).collect())], *l)
        }
        Sx::L(v, l) => Sx::L(v.iter().map(bytes_of).collect(), *l),
        _ => s.clone(),
    }
}
fn utf8(s: &Sx) -> Sx {
    match s {
        Sx::L(v, l) if s.head() == "bytes" && v.len() == 2 => {
            let Sx::A(x) = &v[1] else { return s.clone() };
            let b: Vec<u8> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            match String::from_utf8(b) {
                Ok(t) => Sx::L(vec![Sx::A("str".into()), Sx::A(crate::sx::q(&t))], *l),
                Err(_) => s.clone(),
            }
        }
        // the least 64-bit integer may be kept in either form
        Sx::L(v, l) if s.head() == "big" && matches!(v.get(1), Some(Sx::A(x)) if x == "-9223372036854775808") => Sx::L(vec![Sx::A("int".into()), v[1].clone()], *l),
        // the float a decimal denotes
        Sx::L(v, l) if s.head() == "dec" && v.len() == 2 => {
            let Sx::A(x) = &v[1] else { return s.clone() };
            let f: f64 = x.parse().unwrap();
            Sx::L(vec![Sx::A("float".into()), Sx::A(format!("{f:?}"))], *l)
        }
        Sx::L(v, l) => Sx::L(v.iter().map(utf8).collect(), *l),
        _ => s.clone(),
    }
}

pub fn one(line: &str, v: &serde_json::Value, o: &Opt, run: &mut Runner, st: &mut Stats) {
    st.programs += 1;
    st.distinct.insert(fnv(line));
    let before = run.count;
    let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
    let (kind, exp) = (g("k"), g("e"));
    let Some(t) = unquote(&g("t")) else {
        st.fail("spec", &g("t"), "", "unreadable text", line);
        return;
    };
    let has = |a: &str| o.aspects.contains(a);
    let text = &t.text;
    let class_of_case = g("c");
    if !class_of_case.is_empty() {
        *st.heads.entry(class_of_case).or_default() += 1;
    }
    let out = run.parse(text);
    st.inc("texts");
    if st.samples.len() < 2 && text.len() > 12 {
        st.samples.push(text.clone());
    }
    if out.class() == "panic" {
        st.fail("panic", text, "a tree or an error", &out.show(), line);
    }
    if has("ast") || has("loc") {
        match exp.as_str() {
            "any" => {}
            "eof" | "syn" => {
                if has("ast") && out.class() != exp {
                    let k = if exp == "eof" || out.class() == "eof" { format!("{kind}-eof") } else { format!("{kind}-neg") };
                    st.fail(&k, text, &exp, &out.show(), line);
                }
            }
            "rej" => {
                if has("ast") && out.class() == "ok" {
                    st.fail(&format!("{kind}-neg"), text, "not accepted", &out.show(), line);
                }
            }
            _ => {
                let mut e = exp.clone();
                for (n, a, b) in &t.spans {
                    e = e.replace(&format!("@#{n};"), &format!("@{a}-{}", b - 1));
                }
                let tb = if g("b").is_empty() { "(tbl () (kw) - - -)".to_string() } else { g("b") };
                let (Some(es), Some(et)) = (read(&e), read(&tb)) else {
                    st.fail("spec", text, &e, "unreadable expectation", line);
                    return;
                };
                heads(&es, &mut st.heads);
                let es = utf8(&bytes_of(&es));
                match &out {
                    Out::Ok(n, tt) => {
                        let n = utf8(n);
                        for (a, asp) in [("ast", Aspect::Ast), ("tbl", Aspect::Tbl), ("loc", Aspect::Loc)] {
                            if let Some(m) = diff(&es, &n, asp).or_else(|| diff(&et, tt, asp)) {
                                if has(a) || (a == "tbl" && has("ast")) {
                                    let k = if a == "loc" { "loc" } else { &kind };
                                    st.fail(k, text, &e, &format!("{}\n  diff: {m}", out.show()), line);
                                }
                                if a == "ast" { break }
                            }
                        }
                    }
                    _ => {
                        if has("ast") {
                            st.fail(&kind, text, &e, &out.show(), line);
                        }
                    }
                }
            }
        }
    }
    if has("loc") {
        let bad = match &out {
            Out::Ok(n, _) => locs_inside(n, text).map(|m| ("inside", m)),
            Out::Eof(a, _) | Out::Syn(_, a, _) if *a > text.len() => Some(("errloc", out.show())),
            _ => None,
        };
        if let Some((k, m)) = bad {
            st.fail(k, text, "location inside the text", &m, line);
        }
    }
    if has("eof") {
        for (a, b) in &t.cut {
            for p in *a..(*b).min(text.len() + 1) {
                if !text.is_char_boundary(p) { continue }
                let cut = &text[..p];
                let out = run.parse(cut);
                st.inc("cuts_incomplete");
                if out.class() != "eof" {
                    st.fail("eof", cut, "UnexpectedEOF", &out.show(), line);
                }
            }
        }
        for p in &t.ok {
            let out = run.parse(&text[..*p]);
            st.inc("cuts_complete");
            if out.class() != "ok" {
                st.fail("eof", &text[..*p], "accepted", &out.show(), line);
            }
        }
    }
    if has("mut") && text.len() <= 400 {
        mutations(text, &[], run, st, line);
    }
    if has("det") {
        let again = run.parse(text);
        st.inc("repeated");
        if again.show() != out.show() {
            st.fail("det", text, &out.show(), &again.show(), line);
        }
    }
    st.parses += run.count - before;
}
