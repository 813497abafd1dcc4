mod case;
mod events;
mod layout;
mod replay;
mod run;
mod sx;
use std::io::{BufRead, Read};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

fn lines(a: &[String]) -> Vec<String> {
    let mut v = vec![];
    let files: Vec<&String> = a.iter().skip_while(|x| *x != "--").skip(1).collect();
    for f in files {
        let f = std::io::BufReader::new(std::fs::File::open(f).expect("open"));
        for l in f.lines() {
            let Ok(l) = l else { continue };
            if l.starts_with("\"@") {
                v.push(l);
            }
        }
    }
    v
}

/// Distribute the lines over worker threads with large stacks.
fn parallel(a: &[String], lines: Vec<String>, f: fn(&[String], &str, &mut run::Runner, &mut replay::Stats)) {
    let dir = opt(a, "--dir").map(|s| s.to_string());
    let host = replay::host_of(opt(a, "--host").unwrap_or(""));
    let n: usize = opt(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    run::install_hook();
    let next = Arc::new(AtomicUsize::new(0));
    let lines = Arc::new(lines);
    let total = Arc::new(Mutex::new(replay::Stats::default()));
    let mut slots = vec![];
    let mut hs = vec![];
    for i in 0..n {
        let mut run = run::Runner::new(dir.as_deref(), i, host.clone());
        slots.push(run.slot.clone());
        let (next, lines, total, a) = (next.clone(), lines.clone(), total.clone(), a.to_vec());
        hs.push(
            std::thread::Builder::new()
                .stack_size(opt(a.as_slice(), "--stack").and_then(|s| s.parse().ok()).unwrap_or(1 << 30))
                .spawn(move || {
                    let mut st = replay::Stats::default();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= lines.len() {
                            break;
                        }
                        f(&a, &lines[k], &mut run, &mut st);
                        if let Some((text, got)) = run.bad_shown.take() {
                            st.fail("shown", &text, "the location of the error can be shown", &got, &lines[k]);
                        }
                        if let Some((text, got)) = run.bad_source.take() {
                            st.fail("source", &text, "the source text and the path given", &got, &lines[k]);
                        }
                    }
                    total.lock().unwrap().merge(st);
                })
                .unwrap(),
        );
    }
    let t2 = total.clone();
    run::watchdog(slots, std::time::Duration::from_secs(20), move |x| {
        let mut t = t2.lock().unwrap();
        t.fail("hang", &x, "a result", "no result after 20 s", "");
        println!("{}", t.json());
        std::process::exit(0);
    });
    for h in hs {
        if h.join().is_err() {
            total.lock().unwrap().fail("harness", "", "", "a worker of the harness panicked", "");
        }
    }
    println!("{}", total.lock().unwrap().json());
}

fn f_replay(a: &[String], line: &str, run: &mut run::Runner, st: &mut replay::Stats) {
    let o = replay::Opt {
        layouts: opt(a, "--layouts").and_then(|s| s.parse().ok()).unwrap_or(2),
        seed: opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        aspects: opt(a, "--aspects").unwrap_or("ast,tbl").split(',').map(|s| s.to_string()).collect(),
    };
    match events::decode_line(line).as_ref().and_then(events::events) {
        Some(evs) => replay::one(line, &evs, &o, run, st),
        None => st.fail("spec", "", "", "unreadable behaviour", line),
    }
}

fn f_case(a: &[String], line: &str, run: &mut run::Runner, st: &mut replay::Stats) {
    let o = replay::Opt {
        layouts: 0,
        seed: 0,
        aspects: opt(a, "--aspects").unwrap_or("ast").split(',').map(|s| s.to_string()).collect(),
    };
    match events::decode_line(line) {
        Some(v) => case::one(line, &v, &o, run, st),
        None => st.fail("spec", "", "", "unreadable behaviour", line),
    }
}

/// SourceMap.tla: lines and rendered locations of a text
fn f_src(_: &[String], line: &str, run: &mut run::Runner, st: &mut replay::Stats) {
    let Some(v) = events::decode_line(line) else { return st.fail("spec", "", "", "unreadable behaviour", line) };
    let un = |k: &str| case::unquote(v[k].as_str().unwrap_or("")).map(|t| t.text);
    let n = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
    let (Some(text), Some(exp)) = (un("t"), un("e")) else { return st.fail("spec", "", "", "unreadable text", line) };
    st.programs += 1;
    st.distinct.insert(layout::fnv(line));
    run.enter(&text);
    let loc = ruruby_parse::Loc(n("lo"), n("hi"));
    let r = std::panic::catch_unwind(|| {
        let s = ruruby_parse::SourceInfo::new("d/f.rb", text.clone());
        let names = (s.file_name().to_string(), s.short_file_name().to_string());
        (s.get_line(&loc), s.get_location(&loc), names)
    });
    run.leave();
    st.inc("spans");
    st.parses += 1;
    let what = format!("{:?} span {}-{}", text, loc.0, loc.1);
    match r {
        Ok((l, shown, names)) => {
            if l != n("l") {
                st.fail("line", &what, &n("l").to_string(), &l.to_string(), line);
            }
            if shown != exp {
                st.fail("shown", &what, &format!("{exp:?}"), &format!("{shown:?}"), line);
            }
            if names.0 != "d/f.rb" || names.1 != "f.rb" {
                st.fail("shown", &what, "d/f.rb f.rb", &format!("{names:?}"), line);
            }
        }
        Err(_) => st.fail("shown", &what, &format!("{exp:?}"), &format!("panic {}", run::LAST_PANIC.with(|p| p.borrow().clone())), line),
    }
    let m = ruruby_parse::Loc(n("lo"), n("hi")).merge(ruruby_parse::Loc(n("lo2"), n("hi2")));
    if (m.0, m.1) != (n("lo").min(n("lo2")), n("hi").max(n("hi2"))) {
        st.fail("shown", &what, "the smallest span which covers both", &format!("{m:?}"), line);
    }
}

fn count(s: &sx::Sx, h: &str) -> u64 {
    // long chains are deep: no recursion here
    let mut n = 0;
    let mut todo = vec![s];
    while let Some(x) = todo.pop() {
        if let sx::Sx::L(v, _) = x {
            if x.head() == h {
                n += 1
            }
            todo.extend(v.iter());
        }
    }
    n
}

/// Scale.tla: large programs
fn f_scale(_: &[String], line: &str, run: &mut run::Runner, st: &mut replay::Stats) {
    let Some(v) = events::decode_line(line) else { return st.fail("spec", "", "", "unreadable behaviour", line) };
    let un = |k: &str| case::unquote(v[k].as_str().unwrap_or("")).map(|t| t.text).unwrap_or_default();
    let n = v["n"].as_u64().unwrap_or(0) as usize;
    let text = format!("{}{}{}{}{}", un("pre"), un("unit").repeat(n), un("core"), un("unit2").repeat(n), un("post"));
    st.programs += 1;
    st.distinct.insert(layout::fnv(line));
    st.parses += 1;
    st.inc("texts");
    let t = std::time::Instant::now();
    let out = run.parse(&text);
    let took = t.elapsed();
    let what = if text.len() > 300 { format!("{:?} + {:?} x {n} + {:?} + {:?} x {n} + {:?}", un("pre"), un("unit"), un("core"), un("unit2"), un("post")) } else { text.clone() };
    let e = v["e"].as_str().unwrap_or("");
    let show = |o: &run::Out| o.show().chars().take(400).collect::<String>();
    if out.class() == "panic" || (e != "any" && out.class() != e) {
        st.fail(if out.class() == "panic" { "panic" } else { "scale" }, &what, e, &show(&out), line);
    }
    if took.as_secs_f64() > 8.0 {
        st.fail("hang", &what, "an answer in time proportionate to the length", &format!("{} bytes took {took:?}", text.len()), line);
    }
    if let run::Out::Ok(p, _) = &out {
        for c in v["counts"].as_array().into_iter().flatten() {
            let (h, want) = (c[0].as_str().unwrap_or(""), c[1].as_u64().unwrap_or(0));
            st.inc("node_counts");
            let got = count(p, h);
            if got != want {
                st.fail("scale", &what, &format!("{want} nodes {h}"), &format!("{got}: {}", show(&out)), line);
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "show" => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            run::install_hook();
            let mut r = run::Runner::new(None, 0, replay::host_of(opt(&a, "--host").unwrap_or("")));
            for prog in s.split("\n---\n") {
                println!("{:?}", prog);
                println!("   {}", r.parse(prog).show());
            }
        }
        // one text, in this process and with the stack of a worker
        "one" => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            run::install_hook();
            let host = replay::host_of(opt(&a, "--host").unwrap_or(""));
            let stack = opt(&a, "--stack").and_then(|s| s.parse().ok()).unwrap_or(1 << 30);
            let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
                let mut r = run::Runner::new(None, 0, host);
                println!("{}", r.parse(&s).show());
            });
            h.unwrap().join().unwrap();
        }
        "case" => parallel(&a, lines(&a), f_case),
        "scale" => parallel(&a, lines(&a), f_scale),
        "src" => parallel(&a, lines(&a), f_src),
        "replay" => parallel(&a, lines(&a), f_replay),
        _ => std::process::exit(2),
    }
}
