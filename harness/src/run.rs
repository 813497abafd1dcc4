//! Calls into the parser, guarded against panics, with a record of what is
//! being parsed so that an abort or an endless loop can be attributed.
use crate::sx::{self, Sx};
use ruruby_parse::*;
use std::collections::HashMap;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Host(pub HashMap<String, usize>);
impl LocalsContext for Host {
    fn find_lvar(&self, id: &str) -> Option<usize> {
        self.0.get(id).copied()
    }
}

#[derive(Debug, Clone)]
pub enum Out {
    Ok(Sx, Sx),
    Eof(usize, usize),
    Syn(String, usize, usize),
    Panic(String),
}
impl Out {
    pub fn class(&self) -> &'static str {
        match self {
            Out::Ok(..) => "ok",
            Out::Eof(..) => "eof",
            Out::Syn(..) => "syn",
            Out::Panic(_) => "panic",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(n, t) => format!("{}  {}", n.show_loc(), t.show()),
            Out::Eof(a, b) => format!("UnexpectedEOF at {a}-{b}"),
            Out::Syn(m, a, b) => format!("SyntaxError({m}) at {a}-{b}"),
            Out::Panic(m) => format!("PANIC {m}"),
        }
    }
}

pub type Slot = Arc<Mutex<Option<(Instant, String)>>>;

pub struct Runner {
    pub file: Option<std::fs::File>,
    pub slot: Slot,
    pub host: Host,
    pub count: u64,
    pub bad_source: Option<(String, String)>,
    pub bad_shown: Option<(String, String)>,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        LAST_PANIC.with(|p| *p.borrow_mut() = m.replace('\n', " "));
    }));
}

impl Runner {
    pub fn new(dir: Option<&str>, i: usize, host: HashMap<String, usize>) -> Self {
        Runner {
            file: dir.map(|d| std::fs::File::create(format!("{d}/cur_{i}")).expect("create")),
            slot: Arc::new(Mutex::new(None)),
            host: Host(host),
            count: 0,
            bad_source: None,
            bad_shown: None,
        }
    }
    pub fn enter(&mut self, text: &str) {
        self.count += 1;
        *self.slot.lock().unwrap() = Some((Instant::now(), text.to_string()));
        if let Some(f) = &self.file {
            let mut b = (text.len() as u64).to_le_bytes().to_vec();
            b.extend_from_slice(text.as_bytes());
            let _ = f.write_all_at(&b, 0);
        }
    }
    pub fn leave(&mut self) {
        *self.slot.lock().unwrap() = None;
    }
    /// a result carries the text and the path it came from
    fn check_source(&mut self, text: &str, r: &std::thread::Result<Result<ParseResult, ParseErr>>) {
        let si = match r {
            Ok(Ok(r)) => &r.source_info,
            Ok(Err(e)) => &e.source_info,
            Err(_) => return,
        };
        if let Ok(Err(e)) = r {
            // an error can be shown
            let (si, loc) = (si.clone(), e.loc);
            match catch_unwind(AssertUnwindSafe(move || si.get_location(&loc))) {
                Ok(s) if !s.is_empty() => {}
                Ok(_) => self.bad_shown = Some((text.to_string(), format!("nothing for {}-{}", loc.0, loc.1))),
                Err(_) => self.bad_shown = Some((text.to_string(), format!("panic for {}-{}: {}", loc.0, loc.1, LAST_PANIC.with(|p| p.borrow().clone())))),
            }
        }
        let same = si.code.strip_suffix('\n').unwrap_or(&si.code) == text.strip_suffix('\n').unwrap_or(text) && si.code.ends_with('\n') == !si.code.is_empty();
        if (!same || si.path.to_str() != Some("f.rb")) && self.bad_source.is_none() {
            self.bad_source = Some((text.to_string(), format!("{:?} {:?}", si.path, si.code)));
        }
    }
    fn finish(r: std::thread::Result<Result<ParseResult, ParseErr>>) -> (Out, Option<ParseResult>) {
        match r {
            Ok(Ok(r)) => (Out::Ok(sx::node(&r.node), sx::tbl(&r.lvar_collector)), Some(r)),
            Ok(Err(e)) => (
                match e.kind {
                    ParseErrKind::UnexpectedEOF => Out::Eof(e.loc.0, e.loc.1),
                    ParseErrKind::SyntaxError(m) => Out::Syn(m, e.loc.0, e.loc.1),
                },
                None,
            ),
            Err(_) => (Out::Panic(LAST_PANIC.with(|p| p.borrow().clone())), None),
        }
    }
    pub fn parse(&mut self, text: &str) -> Out {
        self.enter(text);
        let t = text.to_string();
        let host = &self.host;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if host.0.is_empty() {
                Parser::parse_program(t, PathBuf::from("f.rb"))
            } else {
                Parser::parse_program_eval(t, PathBuf::from("f.rb"), Some(host))
            }
        }));
        self.check_source(text, &r);
        let o = Self::finish(r).0;
        self.leave();
        o
    }
    /// parse as an addition to a binding with the given table
    pub fn parse_more(&mut self, text: &str, tbl: Option<LvarCollector>) -> (Out, Option<LvarCollector>) {
        self.enter(text);
        let t = text.to_string();
        let host = &self.host;
        let r = catch_unwind(AssertUnwindSafe(|| {
            Parser::parse_program_binding(t, PathBuf::from("f.rb"), tbl, if host.0.is_empty() { None } else { Some(host) })
        }));
        self.check_source(text, &r);
        let (o, res) = Self::finish(r);
        self.leave();
        (o, res.map(|r| r.lvar_collector))
    }
}

/// Watches the workers; a parse which does not end within the limit is reported through `f`.
pub fn watchdog(slots: Vec<Slot>, limit: Duration, f: impl Fn(String) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in &slots {
            let g = s.lock().unwrap();
            if let Some((t, x)) = g.as_ref() {
                if t.elapsed() > limit {
                    f(x.clone());
                }
            }
        }
    });
}
