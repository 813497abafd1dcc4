//! Conformance of the parser with behaviours of Grammar.tla.
use crate::events::*;
use crate::layout::*;
use crate::run::*;
use crate::sx::Sx;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub programs: u64,
    pub distinct: HashSet<u64>,
    pub parses: u64,
    pub n: BTreeMap<String, u64>,
    pub heads: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub fails: Vec<serde_json::Value>,
    pub fail_n: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub maxtok: usize,
}
impl Stats {
    pub fn inc(&mut self, k: &str) {
        *self.n.entry(k.into()).or_default() += 1;
    }
    pub fn fail(&mut self, kind: &str, text: &str, exp: &str, got: &str, line: &str) {
        let c = self.fail_n.entry(kind.into()).or_default();
        *c += 1;
        if *c <= 8 {
            self.fails.push(json!({"kind": kind, "text": text, "expected": exp, "got": got, "trace": line}));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.programs += o.programs;
        self.distinct.extend(o.distinct);
        self.parses += o.parses;
        for (k, v) in o.n { *self.n.entry(k).or_default() += v }
        for (k, v) in o.heads { *self.heads.entry(k).or_default() += v }
        for (k, v) in o.faults { *self.faults.entry(k).or_default() += v }
        for (k, v) in o.fail_n { *self.fail_n.entry(k).or_default() += v }
        self.fails.extend(o.fails);
        if self.samples.len() < 3 { self.samples.extend(o.samples) }
        self.maxtok = self.maxtok.max(o.maxtok);
    }
    pub fn json(&self) -> serde_json::Value {
        let mut fails: Vec<_> = self.fails.clone();
        fails.sort_by_key(|f| f["text"].as_str().unwrap_or("").len());
        json!({"programs": self.programs, "distinct": self.distinct.len(), "parses": self.parses, "n": self.n, "heads": self.heads,
               "faults": self.faults, "fail_n": self.fail_n, "fails": fails, "samples": self.samples, "maxtok": self.maxtok})
    }
}

pub fn heads(s: &Sx, m: &mut BTreeMap<String, u64>) {
    if let Sx::L(v, _) = s {
        let h = s.head();
        if !h.is_empty() && !h.starts_with('\'') && h != "-" && !h.chars().next().unwrap().is_ascii_digit() {
            let k = if h == "bin" || h == "un" || h == "opasgn" { format!("{h} {}", v.get(1).map(|x| x.show()).unwrap_or_default()) } else { h.to_string() };
            *m.entry(k).or_default() += 1;
        }
        for x in v {
            heads(x, m)
        }
    }
}

/// expressions whose location covers the locations of their parts
const COVER: [&str; 15] = ["bin", "opasgn", "un", "splat", "range", "seq", "istr", "regex", "cmd", "const", "defined", "case", "array", "hash", "asgn"];

/// every node lies inside the text
pub fn locs_inside(s: &Sx, text: &str) -> Option<String> {
    let len = text.len();
    if let Sx::L(v, l) = s {
        if let Some((a, b)) = l {
            if !text.is_char_boundary(*a) && *a < len {
                return Some(format!("{} at {a}-{b} starts within a character", s.show()));
            }
            if *a > len || *b > len || *a > *b + 1 {
                return Some(format!("{} at {a}-{b} in a text of {len} bytes", s.show()));
            }
        }
        // a composite expression covers its parts (the body of a heredoc lies elsewhere)
        if let (Some((a, b)), true) = (l, COVER.contains(&s.head()) && !text.contains("<<")) {
            for x in v {
                if let Sx::L(_, Some((c, d))) = x {
                    if c < a || d > b {
                        return Some(format!("{} at {c}-{d} is not inside {} at {a}-{b}", x.show(), s.show()));
                    }
                }
            }
        }
        for x in v {
            if let Some(m) = locs_inside(x, text) {
                return Some(m);
            }
        }
    }
    None
}

pub struct Opt {
    pub layouts: u32,
    pub seed: u64,
    pub aspects: HashSet<String>,
}

fn all_diffs(ep: &Sx, n: &Sx, et: &Sx, t: &Sx) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    for a in [Aspect::Ast, Aspect::Tbl, Aspect::Loc] {
        let name = match a { Aspect::Ast => "ast", Aspect::Tbl => "tbl", Aspect::Loc => "loc" };
        if let Some(m) = diff(ep, n, a).or_else(|| diff(et, t, a)) {
            v.push((name, m));
            if a == Aspect::Ast { break }
        }
    }
    v
}

pub fn one(line: &str, evs: &[Ev], o: &Opt, run: &mut Runner, st: &mut Stats) {
    st.programs += 1;
    let key = fnv(line);
    let has = |a: &str| o.aspects.contains(a);
    let fault = evs.iter().find_map(|e| if let Ev::F(r) = e { Some(r.clone()) } else { None });
    let ntok = evs.iter().filter(|e| matches!(e, Ev::T{text,..} if !text.is_empty())).count();
    st.maxtok = st.maxtok.max(ntok);
    if st.distinct.insert(key) {
        // counted
    }
    let before = run.count;
    if let Some(reason) = fault {
        *st.faults.entry(reason.clone()).or_default() += 1;
        for k in 0..=o.layouts {
            let mut rng = Rng::new(o.seed ^ key ^ (k as u64).wrapping_mul(0x1234567));
            let r = render(evs, if k == 0 { 0 } else { 1 }, &mut rng);
            if has("neg") {
                for tail in ["", "\n", " ", "\nend\n", " 1 ) }"] {
                    let text = format!("{}{}", r.text, tail);
                    let out = run.parse(&text);
                    st.inc("rejections");
                    if out.class() != "syn" {
                        st.fail(&format!("neg:{reason}"), &text, "SyntaxError", &out.show(), line);
                    } else if let (true, Out::Syn(_, a, _)) = (has("loc"), &out) {
                        let body = evs.iter().any(|e| matches!(e, Ev::HO(..)));
                        if *a > text.len() {
                            st.fail("errloc", &text, "location inside the text", &out.show(), line);
                        } else if let (Some(f), false) = (r.f0, body || reason.starts_with("f_num")) {
                            // (the error of a numbered parameter may be shown at the use it conflicts with) what comes before the illegal construct is correct
                            st.inc("error_locations");
                            if *a < f {
                                st.fail("errloc", &text, &format!("location at or after {f}"), &out.show(), line);
                            }
                        }
                    }
                }
            }
            if has("eof") {
                cuts(evs, &r, run, st, line, r.f0.unwrap_or(usize::MAX));
            }
        }
        st.parses += run.count - before;
        return;
    }
    let mut good = None;
    let mut bad: Option<(String, String, String)> = None;
    for k in 0..=o.layouts {
        let mut rng = Rng::new(o.seed ^ key ^ (k as u64).wrapping_mul(0x1234567));
        let style = if k == 0 { 0 } else if k == 2 { 2 } else { 1 };
        let r = render(evs, style, &mut rng);
        let tail = if k == 0 { "" } else { TAILS[rng.below(TAILS.len())] };
        let text = format!("{}{}", r.text, tail);
        let m = match meaning(evs, Some(&r.toks)) {
            Ok(m) => m,
            Err(e) => {
                st.fail("spec", &text, "", &e, line);
                return;
            }
        };
        let (Some(ep), Some(et)) = (read(&m.prog), read(&m.tbl)) else {
            st.fail("spec", &text, &m.prog, "unreadable expectation", line);
            return;
        };
        let exp = format!("{}  {}", m.prog, m.tbl);
        let out = run.parse(&text);
        st.inc("programs_compared");
        if k == 0 {
            heads(&ep, &mut st.heads);
            if st.samples.len() < 1 && ntok > 6 {
                st.samples.push(text.clone());
            }
        }
        let mut ok = true;
        match &out {
            Out::Ok(n, t) => {
                let ds = all_diffs(&ep, n, &et, t);
                for (a, msg) in ds {
                    if a != "loc" { ok = false }
                    if has(a) {
                        st.fail(a, &text, &exp, &format!("{}\n  diff: {msg}", out.show()), line);
                    }
                }
                if has("loc") {
                    if let Some(m) = locs_inside(n, &text) {
                        st.fail("inside", &text, "locations inside the text", &m, line);
                    }
                }
            }
            _ => {
                ok = false;
                if has("ast") || has("accept") {
                    st.fail("ast", &text, &exp, &out.show(), line);
                }
            }
        }
        if ok { if good.is_none() { good = Some(text.clone()) } } else if bad.is_none() { bad = Some((text.clone(), exp.clone(), out.show())) }
        if has("det") {
            let again = run.parse(&text);
            st.inc("repeated");
            if again.show() != out.show() {
                st.fail("det", &text, &out.show(), &again.show(), line);
            }
            if out.class() == "panic" {
                st.fail("panic", &text, "a tree or an error", &out.show(), line);
            }
        }
        if has("mut") && k == 0 {
            mutations(&r.text, &r.toks, run, st, line);
        }
        if has("eof") && k < 2 {
            cuts(evs, &r, run, st, line, usize::MAX);
        }
        if has("chunk") && !r.bounds.is_empty() {
            chunks(&r, &m, run, st, line);
        }
    }
    if has("layout") {
        if let (Some(g), Some((t, e, got))) = (good, bad) {
            st.fail("layout", &t, &format!("as for {g:?}: {e}"), &got, line);
        }
    }
    st.parses += run.count - before;
}

/// Texts near a program, whatever they mean: every one is answered, the same each time, with locations inside it.
pub fn mutations(text: &str, toks: &[(usize, usize)], run: &mut Runner, st: &mut Stats, line: &str) {
    let mut seen = HashSet::new();
    let mut go = |t: String, run: &mut Runner, st: &mut Stats| {
        if !seen.insert(fnv(&t)) { return }
        let out = run.parse(&t);
        st.inc("neighbours");
        let bad = match &out {
            Out::Panic(_) => true,
            Out::Ok(n, _) => {
                if let Some(m) = locs_inside(n, &t) {
                    st.fail("inside", &t, "locations inside the text", &m, line);
                }
                false
            }
            Out::Eof(a, _) | Out::Syn(_, a, _) => {
                if *a > t.len() {
                    st.fail("errloc", &t, "location inside the text", &out.show(), line);
                }
                false
            }
        };
        if bad {
            st.fail("panic", &t, "a tree or an error", &out.show(), line);
        } else if seen.len() % 8 == 0 {
            let again = run.parse(&t);
            st.inc("repeated");
            if again.show() != out.show() {
                st.fail("det", &t, &out.show(), &again.show(), line);
            }
        }
    };
    let at: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).take(400).collect();
    for w in at.windows(2) {
        go(text[..w[0]].to_string(), run, st);
        go(format!("{}{}", &text[..w[0]], &text[w[1]..]), run, st);
    }
    for (i, &(a, b)) in toks.iter().enumerate().take(80) {
        if a >= b || b > text.len() { continue }
        go(format!("{}{}", &text[..a], &text[b..]), run, st);
        go(format!("{} {}", &text[..b], &text[a..]), run, st);
        if let Some(&(c, d)) = toks.get(i + 1) {
            if b <= c && c < d {
                go(format!("{}{}{}{}{}", &text[..a], &text[c..d], &text[b..c], &text[a..b], &text[d..]), run, st);
            }
        }
    }
}

fn cuts(evs: &[Ev], r: &Rendered, run: &mut Runner, st: &mut Stats, line: &str, limit: usize) {
    // bodies of heredocs are not in the order of the text
    if evs.iter().any(|e| matches!(e, Ev::HO(..))) { return }
    let mut depth = 0i32;
    let mut j = 0;
    let n = r.toks.len();
    for e in evs {
        let Ev::T { text, fl, .. } = e else { continue };
        if text.is_empty() { continue }
        if fl.contains('(') { depth += 1 }
        if fl.contains(')') { depth -= 1 }
        let end = r.toks[j].1;
        if end > limit { break }
        if j + 1 < n || limit != usize::MAX {
            let must = depth > 0 || fl.contains('!') || r.pending[j];
            let t = &r.text[..end];
            let out = run.parse(t);
            st.inc(if must { "cuts_incomplete" } else { "cuts_complete" });
            let good = match out.class() { "eof" => must, "ok" => !must, _ => false };
            if !good {
                st.fail("eof", t, if must { "UnexpectedEOF" } else { "accepted" }, &out.show(), line);
            } else if let (true, Out::Eof(a, _)) = (true, &out) {
                if *a > t.len() {
                    st.fail("errloc", t, "location inside the text", &out.show(), line);
                }
            }
            if must && fl.contains('n') {
                for tail in ["\n", " \n  # c\n"] {
                    let t = format!("{t}{tail}");
                    let out = run.parse(&t);
                    st.inc("cuts_incomplete");
                    if out.class() != "eof" {
                        st.fail("eof", &t, "UnexpectedEOF", &out.show(), line);
                    }
                }
            }
        }
        j += 1;
    }
}

fn chunks(r: &Rendered, m: &Meaning, run: &mut Runner, st: &mut Stats, line: &str) {
    let mut tbl = None;
    let mut start = 0;
    for (i, b) in r.bounds.iter().enumerate() {
        let text = &r.text[start..*b];
        let (out, t) = run.parse_more(text, tbl.clone());
        st.inc("pieces");
        let (en, et) = &m.bounds[i];
        let good = match &out {
            Out::Ok(n, tt) => read(en).map(|e| [Aspect::Ast, Aspect::Tbl].iter().all(|a| diff(&e, n, *a).is_none())).unwrap_or(false) && read(et).map(|e| e.show() == tt.show()).unwrap_or(false),
            _ => false,
        };
        if !good {
            st.fail("chunk", text, &format!("{en} {et} (after {:?})", &r.text[..start]), &out.show(), line);
            return;
        }
        tbl = t;
        start = *b;
    }
    let text = &r.text[start..];
    let (out, _) = run.parse_more(text, tbl);
    st.inc("pieces");
    let good = match &out {
        Out::Ok(n, tt) => read(&m.last).map(|e| [Aspect::Ast, Aspect::Tbl].iter().all(|a| diff(&e, n, *a).is_none())).unwrap_or(false) && read(&m.tbl).map(|e| e.show() == tt.show()).unwrap_or(false),
        _ => false,
    };
    if !good {
        st.fail("chunk", text, &format!("{} {} (after {:?})", m.last, m.tbl, &r.text[..start]), &out.show(), line);
    }
}

pub fn host_of(s: &str) -> HashMap<String, usize> {
    s.split(',').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.parse().unwrap())).collect()
}
