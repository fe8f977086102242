//! Runs the real code on one input and reports what can be observed.
use crate::obs;
use osu_file_parser::osb::Osb;
use osu_file_parser::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the code did with one text.
#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub st: &'static str,
    pub line: i64,
    pub msg: String,
    pub obs: String,
    /// text of each version that has one
    pub pr: Vec<(u8, Option<String>)>,
    /// problem in the error interface itself
    pub bad: String,
}
impl Out {
    fn new(st: &'static str) -> Self {
        Out { st, line: 0, msg: String::new(), obs: String::new(), pr: vec![], bad: String::new() }
    }
    pub fn print(&self, v: u8) -> Option<&String> {
        self.pr.iter().find(|p| p.0 == v).and_then(|p| p.1.as_ref())
    }
    /// same grouping as `PrintGroups` of the specification
    pub fn groups(&self) -> Value {
        let mut g: Vec<(String, Vec<u8>)> = vec![];
        for (v, t) in &self.pr {
            if let Some(t) = t {
                match g.iter_mut().find(|x| &x.0 == t) {
                    Some(x) => x.1.push(*v),
                    None => g.push((t.clone(), vec![*v])),
                }
            }
        }
        Value::Array(g.into_iter().map(|(t, vs)| json!({"t": t, "vs": vs})).collect())
    }
    pub fn json(&self) -> Value {
        json!({"st": self.st, "line": self.line, "msg": self.msg, "obs": self.obs, "pr": self.groups()})
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

fn err<E: std::error::Error + 'static>(e: Error<E>, text: &str) -> Out {
    let mut o = Out::new("err");
    o.line = e.line_index() as i64;
    o.msg = e.error().to_string();
    // the error interface: Display and display_error_with_line
    let plain = e.to_string();
    let want = format!("Line {}, {}", o.line + 1, o.msg);
    if plain != want {
        o.bad = format!("error displays as {plain:?}, expected {want:?}");
    }
    let with = e.display_error_with_line(text);
    let line = text.lines().nth(o.line as usize).unwrap_or("");
    let want = format!("Line {}: {line}, {}", o.line + 1, o.msg);
    if with != want {
        o.bad = format!("error with line displays as {with:?}, expected {want:?}");
    }
    // the cause of a located error is the cause of the error inside of it
    let cause = |x: Option<&(dyn std::error::Error + 'static)>| x.map(|x| x.to_string());
    let (got, want) = (cause(std::error::Error::source(&e)), cause(e.error().source()));
    if got != want {
        o.bad = format!("error has the cause {got:?}, expected {want:?}");
    }
    let _ = format!("{e:?}");
    o
}

macro_rules! section {
    ($r:expr, $text:expr, $vers:expr, $obs:path, $print:expr) => {{
        match $r {
            Err(e) => err(e, $text),
            Ok(None) => Out::new("none"),
            Ok(Some(x)) => {
                let mut o = Out::new("ok");
                o.obs = $obs(&x);
                let p = $print;
                o.pr = $vers.iter().map(|v| (*v, p(&x, *v))).collect();
                o
            }
        }
    }};
}

fn run(kind: &str, text: &str, ver: u8, vers: &[u8]) -> Out {
    match kind {
        "General" => section!(General::from_str(text, ver), text, vers, obs::general, |x: &General, v| x.to_string(v)),
        "Editor" => section!(Editor::from_str(text, ver), text, vers, obs::editor, |x: &Editor, v| x.to_string(v)),
        "Metadata" => {
            section!(Metadata::from_str(text, ver), text, vers, obs::metadata, |x: &Metadata, v| x.to_string(v))
        }
        "Difficulty" => {
            section!(Difficulty::from_str(text, ver), text, vers, obs::difficulty, |x: &Difficulty, v| x.to_string(v))
        }
        "Colours" => section!(
            <Colours as VersionedFromStr>::from_str(text, ver),
            text,
            vers,
            obs::colours,
            |x: &Colours, v| VersionedToString::to_string(x, v)
        ),
        "TimingPoints" => section!(
            <TimingPoints as VersionedFromStr>::from_str(text, ver),
            text,
            vers,
            obs::timing_points,
            |x: &TimingPoints, v| VersionedToString::to_string(x, v)
        ),
        "HitObjects" => section!(
            <HitObjects as VersionedFromStr>::from_str(text, ver),
            text,
            vers,
            obs::hitobjects,
            |x: &HitObjects, v| VersionedToString::to_string(x, v)
        ),
        "Events" => section!(
            <Events as VersionedFromStr>::from_str(text, ver),
            text,
            vers,
            obs::events,
            |x: &Events, v| VersionedToString::to_string(x, v)
        ),
        "osb" => section!(<Osb as VersionedFromStr>::from_str(text, ver), text, vers, obs::osb, |x: &Osb, v| {
            VersionedToString::to_string(x, v)
        }),
        "doc" => match text.parse::<OsuFile>() {
            Err(e) => err(e, text),
            Ok(f) => {
                let mut o = Out::new("ok");
                o.obs = obs::doc(&f);
                let mut g = f.clone();
                o.pr = vers
                    .iter()
                    .map(|v| {
                        g.version = *v;
                        let t = g.to_string();
                        let head = format!("osu file format v{v}\n\n");
                        (*v, Some(t.strip_prefix(&head).map(|t| t.to_string()).unwrap_or(format!("?{t}"))))
                    })
                    .collect();
                // the file itself is as it was
                if f.to_string() != {
                    g.version = f.version;
                    g.to_string()
                } {
                    o.bad = "printing at another version changed the file".into();
                }
                o
            }
        },
        _ => panic!("unknown kind {kind}"),
    }
}

pub fn observe(kind: &str, text: &str, ver: u8, vers: &[u8]) -> Out {
    match catch_unwind(AssertUnwindSafe(|| run(kind, text, ver, vers))) {
        Ok(o) => o,
        Err(e) => {
            let mut o = Out::new("panic");
            o.msg = panic_text(e);
            o
        }
    }
}

/// full text of a printed value (documents are printed without their version line)
pub fn full(kind: &str, ver: u8, t: &str) -> String {
    if kind == "doc" { format!("osu file format v{ver}\n\n{t}") } else { t.to_string() }
}

/// printing and reading back: gives the same value and the same text
pub fn round_trip(kind: &str, o: &Out, ver: u8, same_value: bool) -> Option<String> {
    let p = match o.print(ver) {
        Some(p) => p,
        None => return None,
    };
    let r = observe(kind, &full(kind, ver, p), ver, &[ver]);
    if r.st != "ok" {
        return Some(format!("text written for version {ver} is read back as {} {} {:?}: {p:?}", r.st, r.line, r.msg));
    }
    if r.print(ver) != Some(p) {
        return Some(format!("text written for version {ver} is not written back unchanged: {p:?} then {:?}", r.print(ver)));
    }
    if same_value && r.obs != o.obs {
        return Some(format!("value read back from version {ver} differs: {:?} then {:?}", o.obs, r.obs));
    }
    None
}
