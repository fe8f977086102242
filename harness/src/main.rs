mod api;
mod codes;
mod items;
mod obs;
mod parts;
mod run;
mod same;
mod sessions;
mod values;

use run::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};

/// One expected behaviour of the specification against the code.
#[derive(Default)]
struct Verdict {
    /// (aspect, problem): aspects are panic, st, line, msg, obs, pr, rt, api
    bad: Vec<(&'static str, String)>,
    known: bool,
    got: Value,
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn check_text(v: &Value) -> Verdict {
    let kind = s(v, "k");
    let text = s(v, "t");
    let ver = v["v"].as_u64().unwrap() as u8;
    let vers: Vec<u8> = v["pv"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let o = observe(kind, text, ver, &vers);
    let mut r = Verdict { got: o.json(), ..Default::default() };
    let mut bad = |a: &'static str, w: String| r.bad.push((a, w));
    if !o.bad.is_empty() {
        bad("api", o.bad.clone());
    }
    if o.st == "panic" {
        bad("panic", format!("panic: {}", o.msg));
    } else if o.st != s(v, "st") {
        bad("st", format!("outcome is {} ({}), specified {} ({})", o.st, o.msg, s(v, "st"), s(v, "msg")));
    } else if o.st == "err" {
        let line = v["line"].as_i64().unwrap();
        let lost = v["lost"].as_i64().unwrap_or(0);
        if o.msg != s(v, "msg") {
            bad("msg", format!("error is {:?}, specified {:?}", o.msg, s(v, "msg")));
        }
        if o.line != line {
            if lost > 0 && o.line == line - lost {
                r.known = true;
            } else {
                bad("line", format!("error is located on line {} instead of line {}", o.line + 1, line + 1));
            }
        }
    } else if o.st == "ok" {
        if o.obs != s(v, "obs") {
            bad("obs", format!("value is {:?}, specified {:?}", o.obs, s(v, "obs")));
        }
        if o.groups() != v["pr"] {
            bad("pr", format!("written as {}, specified {}", o.groups(), v["pr"]));
        }
    }
    if o.st == "ok" {
        // what the specification says about writing and reading back
        for q in v["rt"].as_array().into_iter().flatten() {
            if q["r"] == "no" {
                continue;
            }
            if let Some(x) = round_trip(kind, &o, q["v"].as_u64().unwrap() as u8, q["r"] == "value") {
                r.bad.push(("rt", x));
                break;
            }
        }
    }
    if o.st != "panic" {
        // the line alone, and the section in a file
        let item = s(v, "item");
        if !item.is_empty() {
            let line = if item == "Command" { text.split_once('\n').map_or("", |x| x.1) } else { text };
            if let Some(x) = items::check_item(item, line, &o, ver, &vers) {
                r.bad.push(("item", x));
            }
        }
        if v["file"] == "y" {
            if let Some(x) = items::check_file(kind, text, &o, ver, &vers) {
                r.bad.push(("item", x));
            }
        }
    }
    r
}

/// a text in which a unit stands n times, and what has to become of it
fn check_grow(v: &Value) -> Verdict {
    let n = v["n"].as_u64().unwrap();
    let grown = |g: &Value| format!("{}{}{}", s(g, "a"), s(g, "m").repeat(n as usize - 2), s(g, "b"));
    let at = |k: &str, d: &str| v[k].as_i64().unwrap() + (n as i64 - 2) * v[d].as_i64().unwrap();
    let mut r = check_text(&json!({
        "k": v["of"], "v": v["v"], "pv": v["pv"], "st": v["st"], "msg": v["msg"], "rt": v["rt"], "item": "", "file": "n",
        "t": format!("{}{}{}", s(v, "head"), s(v, "unit").repeat(n as usize), s(v, "tail")),
        "line": at("line", "dline"), "lost": at("lost", "dlost"), "obs": grown(&v["obs"]),
        "pr": v["pr"].as_array().unwrap().iter().map(|p| json!({"t": grown(&p["t"]), "vs": p["vs"]})).collect::<Vec<_>>(),
    }));
    // texts of megabytes stay out of the report
    r.got = json!({"st": r.got["st"], "line": r.got["line"]});
    for b in &mut r.bad {
        if b.1.len() > 600 {
            let head: String = b.1.chars().take(200).collect();
            let tail: String = b.1.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect();
            b.1 = format!("{head} ... {tail}");
        }
    }
    r
}

fn check(v: &Value) -> Verdict {
    match s(v, "k") {
        "grow" => check_grow(v),
        "api" => Verdict { bad: api::check(v), ..Default::default() },
        "part" => Verdict { bad: parts::check(v), ..Default::default() },
        "same" => Verdict { bad: same::check(v), ..Default::default() },
        "code" => Verdict { bad: codes::check(v), ..Default::default() },
        _ => check_text(v),
    }
}

/// vectors printed by TLC: lines of the form "@V@{...}" in TLA+ string notation
fn vectors(input: impl BufRead) -> Vec<Value> {
    let mut out = vec![];
    for l in input.lines() {
        let l = l.unwrap();
        let l = l.trim();
        if let Some(i) = l.find("\"@V@") {
            let inner: String = serde_json::from_str(&l[i..]).unwrap_or_else(|e| panic!("bad vector line {l}: {e}"));
            out.push(serde_json::from_str(&inner[3..]).unwrap_or_else(|e| panic!("bad vector {inner}: {e}")));
        } else if l.starts_with('{') {
            out.push(serde_json::from_str(l).unwrap());
        }
    }
    out
}

/// replays vectors; only problems of the given aspects count (all when empty)
fn replay(path: &str, aspects: &[&str]) {
    let vs = if path == "-" {
        vectors(std::io::stdin().lock())
    } else {
        vectors(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
    };
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let block = 64;
    let mut failures = vec![];
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut status: BTreeMap<String, u64> = BTreeMap::new();
    let judged = |a: &str| aspects.is_empty() || aspects.contains(&a);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let (vs, next) = (&vs, &next);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut out = vec![];
                        loop {
                            let i = next.fetch_add(block, std::sync::atomic::Ordering::Relaxed);
                            if i >= vs.len() {
                                idle();
                                return out;
                            }
                            for (j, v) in vs[i..vs.len().min(i + block)].iter().enumerate() {
                                watch(&v.to_string());
                                let r = check(v);
                                if !r.bad.is_empty() || r.known {
                                    out.push((i + j, r));
                                }
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            for (i, r) in h.join().unwrap() {
                if r.known {
                    *known.entry(s(&vs[i], if vs[i]["k"] == "grow" { "of" } else { "k" }).to_string()).or_default() += 1;
                }
                let why: Vec<String> = r.bad.iter().filter(|b| judged(b.0)).map(|b| format!("{}: {}", b.0, b.1)).collect();
                for b in r.bad.iter().filter(|b| !judged(b.0)) {
                    *other.entry(b.0.to_string()).or_default() += 1;
                }
                if !why.is_empty() {
                    failures.push((i, json!({"vector": vs[i], "why": why.join("; "), "got": r.got})));
                }
            }
        }
    });
    for v in &vs {
        *status.entry(format!("{}/{}", s(v, "k"), s(v, "st"))).or_default() += 1;
    }
    failures.sort_by_key(|f| f.0);
    let total = failures.len();
    failures.truncate(50);
    let first: Vec<Value> = failures.into_iter().map(|f| f.1).collect();
    println!(
        "{}",
        json!({"vectors": vs.len(), "failures": total, "first": first, "known": known, "other": other, "status": status})
    );
}

/// one line of JSON {k,t,v,pv} per input; adds what the code does with it
fn record() {
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut all = String::new();
    std::io::stdin().read_to_string(&mut all).unwrap();
    let ls: Vec<&str> = all.lines().collect();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let chunk = ls.len().div_ceil(n).max(1);
    std::thread::scope(|sc| {
        let hs: Vec<_> = ls
            .chunks(chunk)
            .map(|c| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let r: Vec<Value> = c.iter().map(|l| record_one(l)).collect();
                        idle();
                        r
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            for v in h.join().unwrap() {
                writeln!(out, "{v}").unwrap();
            }
        }
    });
}
fn record_one(l: &str) -> Value {
    let mut v: Value = serde_json::from_str(l).unwrap();
    watch(l);
    let vers: Vec<u8> = v["pv"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let kind = s(&v, "k").to_string();
    let o = observe(&kind, s(&v, "t"), v["v"].as_u64().unwrap() as u8, &vers);
    let r = o.json();
    for k in ["st", "line", "msg", "obs", "pr"] {
        v[k] = r[k].clone();
    }
    let rt: Vec<Value> = if o.st == "ok" {
        vers.iter()
            .map(|w| {
                let r = match round_trip(&kind, &o, *w, true) {
                    None => "value".to_string(),
                    Some(why) => match round_trip(&kind, &o, *w, false) {
                        None => "text".to_string(),
                        Some(_) => why,
                    },
                };
                json!({"v": w, "r": r})
            })
            .collect()
    } else {
        vec![]
    };
    v["rt"] = json!(rt);
    v
}

thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
static SLOTS: std::sync::Mutex<Vec<(std::time::Instant, String)>> = std::sync::Mutex::new(Vec::new());
/// remembers what this thread works on, so that the watchdog can tell when it does not end
fn watch(what: &str) {
    SLOT.with(|c| {
        let mut all = SLOTS.lock().unwrap();
        if c.get() == usize::MAX {
            c.set(all.len());
            all.push((std::time::Instant::now(), String::new()));
        }
        let x = &mut all[c.get()];
        x.0 = std::time::Instant::now();
        x.1.clear();
        x.1.push_str(what);
    })
}
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        for (t, w) in SLOTS.lock().unwrap().iter() {
            if !w.is_empty() && t.elapsed().as_secs() > 60 {
                eprintln!("{w}");
                std::process::exit(3);
            }
        }
    });
}
/// this thread works on nothing
fn idle() {
    watch("");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("replay") => {
            let asp: Vec<&str> = a.get(3).map(|x| x.split(',').filter(|x| !x.is_empty()).collect()).unwrap_or_default();
            replay(a.get(2).map(|x| x.as_str()).unwrap_or("-"), &asp)
        }
        Some("record") => record(),
        _ => {
            eprintln!("usage: harness replay FILE|- [ASPECTS] | record");
            std::process::exit(2);
        }
    }
}
