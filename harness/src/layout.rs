//! Concrete spellings of a token sequence produced by the specification.
use crate::events::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e3779b97f4a7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

const OPS: &[&str] = &[
    "**", "==", "===", "!=", "!~", "=~", "=>", "<=", ">=", "<=>", "<<", ">>", "&&", "||", "..", "...", "::", "->",
    "+=", "-=", "*=", "**=", "/=", "%=", "||=", "&&=", "&=", "|=", "^=", "<<=", ">>=", "&.",
];

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn is_op(c: char) -> bool {
    "!%&*+-./:<=>?^|~".contains(c)
}

/// Would the two texts, written without a blank, be read differently?
fn glued(prev: &str, next: &str) -> bool {
    let (Some(p), Some(n)) = (prev.chars().last(), next.chars().next()) else {
        return false;
    };
    let first = prev.chars().next().unwrap();
    let regex = prev.len() > 2 && (first == '/' || (prev.starts_with('}') && prev.contains('/')));
    if (is_word(p) || regex) && (is_word(n) || n == '@' || n == '$' && first == '$') {
        return true;
    }
    // names ending in ? or !
    if (p == '?' || p == '!') && prev.len() > 1 && is_word(first) {
        return is_word(n) || is_op(n);
    }
    // names and symbols before something which could be part of the name
    if (is_word(first) || first == ':' || first == '@' || first == '$') && is_word(p) && (n == '?' || n == '!' || n == ':') {
        return true;
    }
    if first == ':' && prev.len() > 1 && !is_word(p) && is_op(n) {
        return true;
    }
    if first == ':' && prev.len() > 1 && (n == '=' || n == '(' || n == '[') {
        return true;
    }
    if prev.starts_with('?') && prev.len() > 1 {
        return is_word(n);
    }
    if is_op(p) && (is_op(n)) {
        // part of prev which is an operator
        let op: String = {
            let v: Vec<char> = prev.chars().rev().take_while(|c| is_op(*c)).collect();
            v.into_iter().rev().collect()
        };
        let t: String = format!("{op}{n}");
        let nop: String = next.chars().take_while(|c| is_op(*c)).collect();
        let full = format!("{op}{nop}");
        return OPS.iter().any(|o| o.starts_with(&t)) || OPS.contains(&full.as_str()) || n == '?' || n == '.' || p == '.' || p == '?' || n == '%' || n == '/';
    }
    // an operator followed by something that would turn it into a literal
    if p == '%' || p == '?' || p == '/' || (p == ':' && prev == ":") {
        return true;
    }
    if p == '<' && (n == '"' || n == '\'' || is_word(n)) && prev == "<<" {
        return true;
    }
    if p == ':' && (n == '"' || n == '\'') && (prev == "::" ) {
        return true;
    }
    false
}

const BLANKS: &[&str] = &[" ", "  ", " ", "\t", "   ", " \\\n  ", "\\\n"];
const NEWLINES: &[&str] = &["\n", "\n  ", "\n\n", " # c\n", " # if (\"'\n  ", "\n# end )\n", " \n\t\n "];
const TERMS: &[&str] = &["\n", ";", " ; ", "\n\n  ", " # c\n", ";\n", "\n;", " ;# {\n ", ";;"];

pub struct Rendered {
    pub text: String,
    /// span of every token
    pub toks: Vec<(usize, usize)>,
    /// is a heredoc body still to come after the token?
    pub pending: Vec<bool>,
    /// end of the statement separators at top level
    pub bounds: Vec<usize>,
    /// text position of the start of the faulty part
    pub f0: Option<usize>,
}

#[derive(Default)]
struct W {
    s: String,
    hd: String,
    /// tokens written here, and tokens in the waiting bodies, by index
    toks: Vec<usize>,
    hdtoks: Vec<usize>,
}
impl W {
    fn gap(&mut self, g: &str, spans: &mut [(usize, usize)]) {
        for c in g.chars() {
            self.s.push(c);
            if c == '\n' && !self.hd.is_empty() {
                let b = std::mem::take(&mut self.hd);
                for i in std::mem::take(&mut self.hdtoks) {
                    spans[i].0 += self.s.len();
                    spans[i].1 += self.s.len();
                    self.toks.push(i);
                }
                self.s.push_str(&b);
            }
        }
    }
    /// the body of a heredoc waits for the end of the line
    fn wait(&mut self, body: W, spans: &mut [(usize, usize)]) {
        for i in body.toks {
            spans[i].0 += self.hd.len();
            spans[i].1 += self.hd.len();
            self.hdtoks.push(i);
        }
        self.hd.push_str(&body.s);
    }
}

/// `style` 0 is the plain spelling, others draw from `rng`.
/// `base`: spell only statement separators, clause separators and nothing else randomly.
pub fn render(evs: &[Ev], style: u32, rng: &mut Rng) -> Rendered {
    let mut w = W::default();
    let mut outer: Vec<(W, String, String, String)> = vec![];
    let mut r = Rendered { text: String::new(), toks: vec![], pending: vec![], bounds: vec![], f0: None };
    let rnd = style > 0;
    let dense = style == 2; // as few blanks as possible
    let mut prev: String = String::new();
    let mut pfl: String = String::new();
    let mut sep: Option<String> = None;
    let mut at_bound = false;
    let mut blank_before = false;
    let mut start = true;
    for ev in evs {
        match ev {
            Ev::H(b) => w.hd.push_str(b),
            Ev::HO(b, e) => {
                let sub = W { s: b.clone(), ..W::default() };
                outer.push((std::mem::replace(&mut w, sub), e.clone(), std::mem::replace(&mut prev, "#{".into()), std::mem::take(&mut pfl)));
                continue;
            }
            Ev::HC => {
                if !w.hd.is_empty() {
                    w.gap("\n", &mut r.toks);
                }
                let (up, e, p, f) = outer.pop().expect("balanced");
                w.s.push_str(&e);
                let sub = std::mem::replace(&mut w, up);
                w.wait(sub, &mut r.toks);
                (prev, pfl) = (p, f);
                sep = None;
            }
            Ev::B(_) => at_bound = true,
            Ev::F0 => r.f0 = Some(w.s.len()),
            Ev::T { gap, text, fl } => {
                if text.is_empty() {
                    // next to an empty list of statements one separator is enough
                    if sep.as_deref().map_or(true, |s| s == "ZT" || s == "BL") {
                        sep = Some(gap.clone());
                    }
                    continue;
                }
                let before = w.s.len();
                let pick = |rng: &mut Rng, v: &[&str]| v[rng.below(v.len())].to_string();
                let glue = glued(&prev, text);
                let need_blank = glue || pfl.contains('_');
                let nl_ok = pfl.contains('n');
                let blank = |rng: &mut Rng| -> String {
                    if !rnd || dense { " ".into() } else { pick(rng, BLANKS) }
                };
                let opt = |rng: &mut Rng, nl: bool| -> String {
                    if pfl.contains('t') {
                        String::new()
                    } else if !rnd {
                        " ".into()
                    } else if dense {
                        if need_blank { " ".into() } else { String::new() }
                    } else if nl && rng.below(3) == 0 {
                        pick(rng, NEWLINES)
                    } else if need_blank || rng.below(2) == 0 {
                        pick(rng, BLANKS)
                    } else {
                        String::new()
                    }
                };
                // a separator, or nothing at all if the statement list is empty
                let g: String = if let Some(s) = sep.take() {
                    match s.as_str() {
                        "TERM" => if !rnd { "\n".into() } else if dense { ";".into() } else { pick(rng, TERMS) },
                        "THEN" => if !rnd { "\n".into() } else if dense { if rng.below(2) == 0 {";".into()} else {" then ".into()} } else {
                            match rng.below(4) { 0 => " then ".into(), 1 => " then\n".into(), 2 => "\nthen ".into(), _ => pick(rng, TERMS) }
                        },
                        "DO" => if !rnd { "\n".into() } else if dense { if rng.below(2) == 0 {";".into()} else {" do ".into()} } else {
                            match rng.below(4) { 0 => " do ".into(), 1 => " do\n".into(), _ => pick(rng, TERMS) }
                        },
                        "ZT" => if !rnd { "\n".into() } else if dense { " ".into() } else {
                            if rng.below(3) == 0 { " ".into() } else { pick(rng, TERMS) }
                        },
                        _ => blank(rng), // BL
                    }
                } else {
                    match gap.as_str() {
                        "t" => String::new(),
                        "o" => if start { if !rnd || dense { String::new() } else { pick(rng, &["", "\n", "# c\n", "  ", "\n\n \t", ""]) } } else { opt(rng, nl_ok) },
                        "n" => opt(rng, true),
                        "s" => blank(rng),
                        "sn" => if rnd && !dense && rng.below(3) == 0 { pick(rng, NEWLINES) } else { blank(rng) },
                        "b" => {
                            if !rnd { " ".into() } else if dense { if need_blank { " ".into() } else { String::new() } }
                            else if need_blank || rng.below(3) > 0 { pick(rng, BLANKS) } else { String::new() }
                        }
                        "d" => if rnd && !dense && rng.below(3) == 0 { pick(rng, &["\n", "\n  ", " \n\t"]) } else { String::new() },
                        "z" => {
                            if !w.hd.is_empty() { "\n".into() }
                            else if !rnd { " ".into() }
                            else if dense { if need_blank { " ".into() } else { String::new() } }
                            else if rng.below(2) == 0 { pick(rng, TERMS) }
                            else if need_blank || rng.below(2) == 0 { pick(rng, BLANKS) }
                            else { String::new() }
                        }
                        _ => " ".into(),
                    }
                };
                let mut g = g;
                if pfl.contains('k') && g.contains('\n') { g = " ".into(); }
                // a line continuation right after an operator is not a blank after it
                if g.starts_with('\\') && !prev.ends_with(|c: char| c.is_alphanumeric() || "_)]}\"".contains(c)) { g.insert(0, ' '); }
                if pfl.contains('B') && gap != "t" {
                    // after a binary operator
                    if blank_before && g.is_empty() { g = " ".into(); }
                }
                if !w.hd.is_empty() && gap == "z" && !g.contains('\n') { g = format!("{g}\n"); }
                // a piece of a program holds its heredocs
                if at_bound && !w.hd.is_empty() && !g.contains('\n') { g.push('\n'); }
                w.gap(&g, &mut r.toks);
                start = false;
                if at_bound {
                    r.bounds.push(w.s.len());
                    at_bound = false;
                }
                if fl.contains('B') {
                    blank_before = w.s.len() > before;
                }
                let a = w.s.len();
                w.s.push_str(text);
                w.toks.push(r.toks.len());
                r.toks.push((a, w.s.len()));
                r.pending.push(!w.hd.is_empty());
                prev = text.clone();
                pfl = fl.clone();
                continue;
            }
            _ => {}
        }
        if !w.hd.is_empty() {
            if let Some(x) = r.pending.last_mut() {
                *x = true;
            }
        }
    }
    loop {
        if !w.hd.is_empty() {
            w.gap("\n", &mut r.toks);
        }
        let Some((up, e, ..)) = outer.pop() else { break };
        w.s.push_str(&e);
        let sub = std::mem::replace(&mut w, up);
        w.wait(sub, &mut r.toks);
    }
    r.text = w.s;
    r
}

/// What may follow a complete program.
pub const TAILS: &[&str] = &["", "\n", " ", ";", " # c", "\n\n# c\n", "\n  ", " ;\n"];
