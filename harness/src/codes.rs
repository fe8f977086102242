//! Enumerated values: reads one code of one type and compares (machine Codes).
use either::Either;
use osu_file_parser::events::storyboard::sprites as sp;
use osu_file_parser::events::storyboard::types as st;
use osu_file_parser::events::*;
use osu_file_parser::hitobjects as ho;
use osu_file_parser::timingpoints as tp;
use osu_file_parser::*;
use serde_json::{json, Value};
use std::fmt::{Debug, Display};

/// what one reading gives
struct Got {
    st: &'static str,
    msg: String,
    name: String,
    w: Vec<String>,
    num: String,
}
fn out<T: Debug, E: Display>(r: Result<Option<T>, E>, write: impl Fn(&T, u8) -> Option<String>, num: impl Fn(&T) -> String) -> Got {
    let none = || vec!["-".to_string(); 12];
    match r {
        Err(e) => Got { st: "err", msg: format!("{e}"), name: String::new(), w: none(), num: "-".into() },
        Ok(None) => Got { st: "none", msg: String::new(), name: String::new(), w: none(), num: "-".into() },
        Ok(Some(x)) => Got {
            st: "ok",
            msg: String::new(),
            name: format!("{x:?}"),
            w: (3..=14).map(|v| write(&x, v).unwrap_or("-".into())).collect(),
            num: num(&x),
        },
    }
}
fn txt<T: VersionedToString>(x: &T, v: u8) -> Option<String> {
    x.to_string(v)
}
fn no<T>(_: &T) -> String {
    "-".into()
}
/// reads text with the type's own parser
fn text<T: VersionedFromStr + VersionedToString + Debug>(t: &str, v: u8, num: impl Fn(&T) -> String) -> Got
where
    T::Err: Display,
{
    out(T::from_str(t, v), txt, num)
}
fn repr<T: VersionedFromRepr + VersionedToString + Debug>(t: &str, v: u8, num: impl Fn(&T) -> String) -> Got {
    out(T::from_repr(t.parse().unwrap(), v), txt, num)
}
fn int<I: std::str::FromStr, T: VersionedFrom<I> + VersionedToString + Debug>(t: &str, v: u8, num: impl Fn(&T) -> String) -> Got
where
    I::Err: Debug,
{
    out(Ok::<_, String>(T::from(t.parse().unwrap(), v)), txt, num)
}
fn def<T: VersionedDefault + VersionedToString + Debug>(v: u8, num: impl Fn(&T) -> String) -> Got {
    out(Ok::<_, String>(T::default(v)), txt, num)
}
fn usize_of<T: Copy>(v: u8) -> impl Fn(&T) -> String
where
    usize: VersionedFrom<T>,
{
    move |x| <usize as VersionedFrom<T>>::from(*x, v).map_or("-".into(), |n| n.to_string())
}
fn i32_of<T: Copy>(v: u8) -> impl Fn(&T) -> String
where
    i32: VersionedFrom<T>,
{
    move |x| <i32 as VersionedFrom<T>>::from(*x, v).map_or("-".into(), |n| n.to_string())
}
fn i32_small(v: u8) -> impl Fn(&tp::SampleIndex) -> String {
    move |x| match x {
        tp::SampleIndex::Index(n) if n.get() > i32::MAX as u32 => "-".into(),
        _ => <i32 as VersionedFrom<tp::SampleIndex>>::from(*x, v).map_or("-".into(), |n| n.to_string()),
    }
}

fn read(ty: &str, via: &str, t: &str, v: u8) -> Got {
    match (ty, via) {
        ("countdown", "str") => text::<general::Countdown>(t, v, no),
        ("countdown", "repr") => {
            let mut g = repr::<general::Countdown>(t, v, no);
            if g.st == "err" && g.msg == "Invalid repr value" {
                g.msg = "Unknown `CountdownSpeed` variant".into();
            }
            g
        }
        ("countdown", _) => def::<general::Countdown>(v, no),
        ("sampleset", "str") => text::<general::SampleSet>(t, v, no),
        ("sampleset", _) => def::<general::SampleSet>(v, no),
        ("mode", "str") => text::<general::Mode>(t, v, no),
        ("mode", _) => def::<general::Mode>(v, no),
        ("overlay", "str") => text::<general::OverlayPosition>(t, v, no),
        ("overlay", _) => def::<general::OverlayPosition>(v, no),
        ("oldorigin", "str") => text::<normal_event::types::OriginTypeLegacy>(t, v, usize_of(v)),
        ("oldorigin", _) => repr::<normal_event::types::OriginTypeLegacy>(t, v, usize_of(v)),
        ("oldlayer", "str") => text::<normal_event::types::LayerLegacy>(t, v, usize_of(v)),
        ("oldlayer", _) => repr::<normal_event::types::LayerLegacy>(t, v, usize_of(v)),
        ("samplelayer", _) => out(audio_sample::Layer::from_repr(t.parse().unwrap(), v), |_, _| None, no),
        ("layer", _) => text::<sp::Layer>(t, v, no),
        ("origin", _) => {
            let r = sp::Origin::from_str(t, v);
            let name = match &r {
                Ok(Some(o)) => format!(
                    "{} {}",
                    if o.shorthand { "short" } else { "long" },
                    match o.type_ {
                        Either::Left(x) => format!("{x:?}"),
                        Either::Right(n) => format!("Other({n})"),
                    }
                ),
                _ => String::new(),
            };
            Got { name, ..out(r, txt, no) }
        }
        ("origintype", _) => out(<sp::OriginType as VersionedTryFrom<i32>>::try_from(t.parse().unwrap(), v), |_, _| None, i32_of(v)),
        ("easing", _) => int::<i32, st::Easing>(t, v, i32_of(v)),
        ("looptype", "str") => text::<sp::LoopType>(t, v, no),
        ("looptype", _) => def::<sp::LoopType>(v, no),
        ("parameter", _) => text::<st::Parameter>(t, v, no),
        ("triggerset", _) => text::<st::SampleSet>(t, v, no),
        ("addition", _) => text::<st::Addition>(t, v, no),
        ("curve", _) => text::<ho::CurveType>(t, v, no),
        ("hitset", "str") => text::<ho::SampleSet>(t, v, usize_of(v)),
        ("hitset", _) => def::<ho::SampleSet>(v, usize_of(v)),
        ("hitindex", "str") => text::<ho::SampleIndex>(t, v, usize_of(v)),
        ("hitindex", "int") => int::<usize, ho::SampleIndex>(t, v, usize_of(v)),
        ("hitindex", _) => def::<ho::SampleIndex>(v, usize_of(v)),
        ("timingset", "str") => text::<tp::SampleSet>(t, v, i32_of(v)),
        ("timingset", _) => int::<i32, tp::SampleSet>(t, v, i32_of(v)),
        ("timingindex", "str") => text::<tp::SampleIndex>(t, v, i32_small(v)),
        ("timingindex", "int") => int::<u32, tp::SampleIndex>(t, v, i32_small(v)),
        ("timingindex", _) => def::<tp::SampleIndex>(v, i32_small(v)),
        _ => panic!("unknown type {ty} {via}"),
    }
}

pub fn check(x: &Value) -> Vec<(&'static str, String)> {
    let s = |k: &str| x[k].as_str().unwrap_or("");
    let g = std::panic::catch_unwind(|| read(s("ty"), s("via"), s("t"), x["v"].as_u64().unwrap() as u8));
    let Ok(g) = g else {
        return vec![("panic", "panic".into())];
    };
    let mut bad = vec![];
    for (k, a, b) in [
        ("st", json!(g.st), &x["st"]),
        ("msg", json!(g.msg), &x["msg"]),
        ("obs", json!(g.name), &x["name"]),
        ("pr", json!(g.w), &x["w"]),
        ("num", json!(g.num), &x["num"]),
    ] {
        if a != *b {
            bad.push((k, format!("{} {} {:?} in version {}: {a}, specified {b}", s("ty"), s("via"), s("t"), x["v"])));
        }
    }
    bad
}
