//! The one line of a section, read on its own, and the section read inside of a whole file:
//! outcome, message, value and written text are those of the section.
use crate::obs;
use crate::run::Out;
use osu_file_parser::events::storyboard::sprites::Object;
use osu_file_parser::events::storyboard::cmds::Command;
use osu_file_parser::events::*;
use osu_file_parser::hitobjects::HitObject;
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// outcome, message, observed value, text per version
struct Item {
    st: &'static str,
    msg: String,
    obs: String,
    pr: Vec<Option<String>>,
}
fn read<T>(t: &str, v: u8, vers: &[u8], obs: impl Fn(T) -> (String, Vec<Option<String>>)) -> Item
where
    T: VersionedFromStr + VersionedToString + Clone,
    T::Err: std::fmt::Display,
{
    let _ = vers;
    match T::from_str(t, v) {
        Err(e) => Item { st: "err", msg: e.to_string(), obs: String::new(), pr: vec![] },
        Ok(None) => Item { st: "none", msg: String::new(), obs: String::new(), pr: vec![] },
        Ok(Some(x)) => {
            let (obs, pr) = obs(x);
            Item { st: "ok", msg: String::new(), obs, pr }
        }
    }
}
fn texts<T: VersionedToString>(x: &T, vers: &[u8]) -> Vec<Option<String>> {
    vers.iter().map(|v| x.to_string(*v)).collect()
}
fn event<T>(t: &str, v: u8, vers: &[u8], wrap: impl Fn(T) -> Event) -> Item
where
    T: VersionedFromStr + VersionedToString + Clone,
    T::Err: std::fmt::Display,
{
    read(t, v, vers, |x: T| {
        let p = texts(&x, vers);
        let mut o = vec![];
        obs::event(&wrap(x), &mut o);
        (o.join("\n"), p)
    })
}
fn alone(item: &str, t: &str, v: u8, vers: &[u8]) -> Item {
    match item {
        "TimingPoint" => read(t, v, vers, |x: TimingPoint| (obs::timing_point(&x), texts(&x, vers))),
        "HitObject" => read(t, v, vers, |x: HitObject| (obs::hit_object(&x), texts(&x, vers))),
        "Colour" => read(t, v, vers, |x: osu_file_parser::colours::Colour| {
            let p = texts(&x, vers);
            (obs::colours(&Colours(vec![x])), p)
        }),
        "Background" => event(t, v, vers, Event::Background),
        "Video" => event(t, v, vers, Event::Video),
        "Break" => event(t, v, vers, Event::Break),
        "ColourTransformation" => event(t, v, vers, Event::ColourTransformation),
        "SpriteLegacy" => event(t, v, vers, Event::SpriteLegacy),
        "AnimationLegacy" => event(t, v, vers, Event::AnimationLegacy),
        "SampleLegacy" => event(t, v, vers, Event::SampleLegacy),
        "Object" => event(t, v, vers, |x: Object| Event::StoryboardObject(x)),
        "AudioSample" => event(t, v, vers, Event::AudioSample),
        "Command" => read(t, v, vers, |x: Command| (format!("+1|{}", obs::command(&x)), vec![])),
        _ => panic!("unknown item {item}"),
    }
}

/// `item` names what the specification says the line is
pub fn check_item(item: &str, line: &str, o: &Out, v: u8, vers: &[u8]) -> Option<String> {
    let a = match catch_unwind(AssertUnwindSafe(|| alone(item, line, v, vers))) {
        Ok(a) => a,
        Err(e) => return Some(format!("{item} {line:?} alone: panic {}", crate::run::panic_text(e))),
    };
    let cmd = item == "Command";
    match (o.st, a.st) {
        // a section that does not exist does not read its lines
        ("none", _) => None,
        ("err", "err") if a.msg == o.msg => None,
        ("err", _) | (_, "err") => {
            Some(format!("{item} {line:?} alone gives {} {:?}, in its section {} {:?}", a.st, a.msg, o.st, o.msg))
        }
        ("ok", "none") => {
            let rest = if cmd { !o.obs.contains('\n') } else { o.obs.is_empty() };
            if rest { None } else { Some(format!("{item} {line:?} does not exist alone, but in its section as {:?}", o.obs)) }
        }
        _ => {
            let here = if cmd { o.obs.split_once('\n').map_or("", |x| x.1) } else { &o.obs };
            if a.obs != here {
                return Some(format!("{item} {line:?} alone is {:?}, in its section {here:?}", a.obs));
            }
            for (i, v) in vers.iter().enumerate() {
                if let (Some(p), Some(t)) = (a.pr.get(i), o.print(*v)) {
                    if p.as_deref().unwrap_or("") != t {
                        return Some(format!("{item} {line:?} is written {p:?} alone for version {v}, in its section {t:?}"));
                    }
                }
            }
            None
        }
    }
}

/// the same text as the only section of a file
pub fn check_file(kind: &str, t: &str, o: &Out, v: u8, vers: &[u8]) -> Option<String> {
    let d = crate::run::observe("doc", &format!("osu file format v{v}\n\n[{kind}]\n{t}"), v, vers);
    if o.st == "err" {
        if d.st != "err" || d.msg != o.msg || d.line != o.line + 3 {
            return Some(format!(
                "the section fails with {:?} on line {}, a file with it is {} {:?} on line {}, expected 3 lines further down",
                o.msg, o.line, d.st, d.msg, d.line
            ));
        }
        return None;
    }
    let want = if o.st == "ok" { format!("v{v}\n[{kind}]\n{}", o.obs) } else { format!("v{v}") };
    if d.st != "ok" || d.obs != want {
        return Some(format!("the section is {want:?}, in a file it is {} {:?} {:?}", d.st, d.msg, d.obs));
    }
    for w in vers {
        let p = match (o.st, o.print(*w)) {
            ("ok", Some(p)) => format!("[{kind}]\n{p}"),
            _ => String::new(),
        };
        if d.print(*w) != Some(&p) {
            return Some(format!("the section is written {p:?} for version {w}, in a file {:?}", d.print(*w)));
        }
    }
    None
}
