//! Behaviours of the specification, as TLC prints them.
use crate::sx::Sx;

#[derive(Debug, Clone)]
pub enum Ev {
    T { gap: String, text: String, fl: String },
    V(String, usize),
    R(String, usize),
    B(String),
    H(String),
    /// an interpolation in the body of a heredoc opens, closes
    HO(String, String),
    HC,
    F0,
    F(String),
    /// the last, the next token is remembered
    M,
    N,
}

/// TLC prints a string value: the JSON text is quoted once more.
pub fn decode_line(line: &str) -> Option<serde_json::Value> {
    let line = line.trim_end();
    if !line.starts_with("\"@") {
        return None;
    }
    let s: String = serde_json::from_str(line).ok()?;
    serde_json::from_str(&s[1..]).ok()
}

pub fn events(v: &serde_json::Value) -> Option<Vec<Ev>> {
    let mut out = vec![];
    for e in v.as_array()? {
        let e = e.as_array()?;
        let st = |i: usize| -> Option<String> { Some(e.get(i)?.as_str()?.to_string()) };
        let n = |i: usize| -> Option<usize> { Some(e.get(i)?.as_u64()? as usize) };
        out.push(match e[0].as_str()? {
            "T" => Ev::T { gap: st(1)?, text: st(2)?, fl: st(3)? },
            "V" => Ev::V(st(1)?, n(2)?),
            "R" => Ev::R(st(1)?, n(2)?),
            "B" => Ev::B(st(1)?),
            "H" => Ev::H(st(1)?),
            "HO" => Ev::HO(st(1)?, st(2)?),
            "HC" => Ev::HC,
            "F0" => Ev::F0,
            "OA" => continue,
            "M" => Ev::M,
            "N" => Ev::N,
            "F" => Ev::F(st(1)?),
            _ => return None,
        });
    }
    Some(out)
}

/// Fill the template with the values: `$k;`, `$1^2;`, `$1^-;`.
pub fn subst(tpl: &str, vals: &[String]) -> String {
    let b: Vec<char> = tpl.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let mut j = i + 1;
            let mut k = 0;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + b[j].to_digit(10).unwrap() as usize;
                j += 1;
            }
            if j < b.len() && b[j] == ';' {
                o.push_str(&vals[k - 1]);
                i = j + 1;
                continue;
            }
            if j + 2 < b.len() && b[j] == '^' {
                let rep = if b[j + 1] == '-' { "-".to_string() } else { vals[b[j + 1].to_digit(10).unwrap() as usize - 1].clone() };
                o.push_str(&vals[k - 1].replacen("^B", &rep, 1));
                i = j + 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub struct Meaning {
    /// the program and its table
    pub prog: String,
    pub tbl: String,
    /// statements and tables at the statement boundaries of the top level
    pub bounds: Vec<(String, String)>,
    pub last: String,
}

/// Evaluate the postfix history; `toks` gives the spans of the tokens (base is subtracted).
pub fn meaning(evs: &[Ev], toks: Option<&[(usize, usize)]>) -> Result<Meaning, String> {
    let mut st: Vec<String> = vec![];
    let mut marks: Vec<usize> = vec![];
    // a node which contains a heredoc may extend to its body
    let heredoc = evs.iter().any(|e| matches!(e, Ev::H(..) | Ev::HO(..)));
    let mut nt = 0;
    let mut bounds = vec![];
    let mut last = String::new();
    for e in evs {
        match e {
            Ev::T { text, .. } => {
                if !text.is_empty() {
                    nt += 1
                }
            }
            Ev::V(a, k) => {
                let mut a = a.clone();
                if let (Some(t), true) = (toks, *k > 0) {
                    let (s, e) = (t[nt - k].0, t[nt - 1].1);
                    a.push_str(&format!("@{}-{}", s, e - 1));
                }
                st.push(a)
            }
            Ev::R(t, n) => {
                if st.len() < *n {
                    return Err(format!("stack underflow at {t}"));
                }
                last = st.last().cloned().unwrap_or_default();
                let vals = st.split_off(st.len() - n);
                let (t, how) = match t.len() >= 2 && t.as_bytes()[t.len() - 2] == b'@' {
                    true => t.split_at(t.len() - 2),
                    false => (t.as_str(), ""),
                };
                let mut v = subst(t, &vals);
                if !how.is_empty() {
                    let Some(m) = marks.pop() else { return Err(format!("no position for {t}")) };
                    if let Some(toks) = toks {
                        let s = toks[m].0;
                        match how {
                            "@!" => v.push_str(&format!("@{}-{}", s, toks[m].1 - 1)),
                            "@[" if heredoc => v.push_str(&format!("@{}-", s)),
                            "@[" => v.push_str(&format!("@{}-{}", s, toks[nt - 1].1 - 1)),
                            "@<" => v.push_str(&format!("@{}-", s)),
                            "@-" => {}
                            _ => return Err(format!("{how}")),
                        }
                    }
                }
                st.push(v);
            }
            Ev::M => marks.push(nt - 1),
            Ev::N => marks.push(nt),
            Ev::B(t) => bounds.push((st.last().cloned().unwrap_or_default(), t.clone())),
            _ => {}
        }
    }
    if !marks.is_empty() {
        return Err("positions left".into());
    }
    if st.len() != 2 {
        return Err(format!("{} values left", st.len()));
    }
    let tbl = st.pop().unwrap();
    let prog = st.pop().unwrap();
    Ok(Meaning { prog, tbl, bounds, last })
}

/// Read an S-expression; lists may carry `@a-b`.
pub fn read(s: &str) -> Option<Sx> {
    let b = s.as_bytes();
    let mut i = 0;
    let r = read_at(b, &mut i)?;
    while i < b.len() && b[i] == b' ' {
        i += 1;
    }
    if i == b.len() { Some(r) } else { None }
}

fn read_at(b: &[u8], i: &mut usize) -> Option<Sx> {
    while *i < b.len() && b[*i] == b' ' {
        *i += 1;
    }
    if *i >= b.len() {
        return None;
    }
    if b[*i] == b'(' {
        *i += 1;
        let mut v = vec![];
        loop {
            while *i < b.len() && b[*i] == b' ' {
                *i += 1;
            }
            if *i >= b.len() {
                return None;
            }
            if b[*i] == b')' {
                *i += 1;
                break;
            }
            v.push(read_at(b, i)?);
        }
        let mut loc = None;
        if *i < b.len() && b[*i] == b'@' {
            let j = *i + 1;
            let mut k = j;
            while k < b.len() && (b[k].is_ascii_digit() || b[k] == b'-') {
                k += 1;
            }
            let t = std::str::from_utf8(&b[j..k]).ok()?;
            let (x, y) = t.split_once('-')?;
            loc = Some((x.parse().ok()?, if y.is_empty() { usize::MAX } else { y.parse().ok()? }));
            *i = k;
        }
        Some(Sx::L(v, loc))
    } else {
        let j = *i;
        while *i < b.len() && b[*i] != b' ' && b[*i] != b'(' && b[*i] != b')' {
            *i += 1;
        }
        if *i == j {
            return None;
        }
        Some(Sx::A(String::from_utf8_lossy(&b[j..*i]).into_owned()))
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Aspect {
    Ast,
    Tbl,
    Loc,
}

/// First difference between expectation and result, of one kind: in the
/// shape of the tree, in a variable table, or in the location of a leaf.
pub fn diff(e: &Sx, a: &Sx, asp: Aspect) -> Option<String> {
    let both = || Some(format!("{} / {}", e.show(), a.show()));
    match (e, a) {
        (Sx::A(x), Sx::A(y)) => {
            if x == y || asp != Aspect::Ast { None } else { both() }
        }
        (Sx::L(x, le), Sx::L(y, la)) => {
            if e.head() == "tbl" && a.head() == "tbl" {
                return if asp != Aspect::Tbl || e.show() == a.show() { None } else { both() };
            }
            // an empty piece of an interpolated literal denotes nothing
            if matches!(e.head(), "istr" | "regex") && e.head() == a.head() && (x.len() != y.len() || e.show() != a.show()) {
                let f = |v: &[Sx]| Sx::L(v.iter().filter(|s| s.show() != "(str '')").cloned().collect(), None);
                let (fe, fa) = (f(x), f(y));
                if let (Sx::L(p, _), Sx::L(q, _)) = (&fe, &fa) {
                    if p.len() == q.len() && (p.len() != x.len() || q.len() != y.len()) {
                        return diff(&fe, &fa, asp);
                    }
                }
            }
            if x.len() != y.len() {
                return if asp == Aspect::Ast { both() } else { None };
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                // a name in parentheses as the receiver of a method call is a call
                if i == 2 && e.head() == "send" && p.head() == "ident" && q.head() == "call" {
                    if let (Sx::L(pv, _), Sx::L(qv, _)) = (p, q) {
                        if pv[1].show() == qv[2].show() && q.show() == format!("(call - {} (args () (kw) (dsplat) - - -))", pv[1].show()) {
                            continue;
                        }
                    }
                }
                if let Some(m) = diff(p, q, asp) {
                    return if matches!((p, q), (Sx::A(_), _) | (_, Sx::A(_))) { both() } else { Some(m) };
                }
            }
            match le {
                Some(l) if asp == Aspect::Loc && !la.is_some_and(|a| a.0 == l.0 && (l.1 == usize::MAX || a.1 == l.1)) => Some(format!("{} expected at {:?}, is at {:?}", e.show(), l, la)),
                _ => None,
            }
        }
        _ => if asp == Aspect::Ast { both() } else { None },
    }
}
