//! Replays histories of edits on values of the public types (machine Api).
use crate::obs;
use osu_file_parser::events::storyboard::cmds as sb;
use osu_file_parser::events::storyboard::sprites::{Animation, LoopType, Sprite};
use osu_file_parser::events::*;
use osu_file_parser::hitobjects as ho;
use osu_file_parser::hitobjects::{HitObject, HitObjectParams, HitSample, HitSound, SlideParams};
use osu_file_parser::timingpoints as tp;
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::*;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

/// What a call gives: "" done, "!message" rejected, or a returned text.
pub type R = String;
fn done() -> R {
    String::new()
}
fn res<T, E: std::fmt::Display>(r: Result<T, E>) -> R {
    match r {
        Ok(_) => done(),
        Err(e) => format!("!{e}"),
    }
}
fn yes(s: &str) -> bool {
    s == "y"
}
fn opt<T: FromStr>(s: &str) -> Option<T>
where
    T::Err: std::fmt::Debug,
{
    if s == "-" { None } else { Some(s.parse().unwrap()) }
}
fn txt<T: VersionedToString>(x: &T) -> String {
    x.to_string(14).unwrap_or("?".into())
}
fn yn(b: bool) -> &'static str {
    if b { "y" } else { "n" }
}
fn show<T: std::fmt::Display>(x: Option<T>) -> String {
    x.map_or("-".into(), |x| format!("{x}"))
}

/// Every value under edit.
pub enum V {
    Nil,
    Pairs(sb::ContinuingFields<i32>),
    Colours(sb::Colours),
    HitVolume(ho::Volume),
    AudioVolume(audio_sample::Volume),
    TimingVolume(tp::Volume),
    Skip(ho::ComboSkipCount),
    HitSound(HitSound),
    Effects(tp::Effects),
    Point(TimingPoint),
    Tempo(rust_decimal::Decimal),
    Path(FilePath),
    Sprite(Sprite),
    Frames(Animation),
    Decimal(Decimal),
    ErrA(Error<A>),
    ErrB(Error<B>),
    OkA(String),
    OkB(String),
    Event(Event),
    Object(HitObject),
    General(General),
    Editor(Editor),
    Metadata(Metadata),
    Difficulty(Difficulty),
    File(OsuFile),
    Made(Event),
    Command(sb::Command),
    Points(TimingPoints),
    Objects(HitObjects),
    ColourList(Colours),
    EventList(Events),
}

#[derive(Debug)]
pub struct A(String, Cause);
#[derive(Debug)]
pub struct B(String);
impl std::fmt::Display for A {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Debug)]
pub struct Cause(String);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cause of {}", self.0)
    }
}
impl std::error::Error for Cause {}
impl std::error::Error for A {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}
impl std::error::Error for B {}
fn a(m: String) -> A {
    let cause = Cause(m.clone());
    A(m, cause)
}
impl From<A> for B {
    fn from(x: A) -> B {
        B(format!("b:{}", x.0))
    }
}
impl From<B> for A {
    fn from(x: B) -> A {
        a(format!("a:{}", x.0))
    }
}

fn pair(s: &str) -> (i32, Option<i32>) {
    let q: Vec<&str> = s.split(';').collect();
    (q[0].parse().unwrap(), opt(q[1]))
}
fn pair2(s: &str) -> (i32, i32) {
    let (a, b) = pair(s);
    (a, b.unwrap())
}
fn rgb(s: &str) -> (u8, Option<u8>, Option<u8>) {
    let q: Vec<&str> = s.split(';').collect();
    (q[0].parse().unwrap(), opt(q[1]), opt(q[2]))
}
fn rgb3(s: &str) -> (u8, u8, u8) {
    let (a, b, c) = rgb(s);
    (a, b.unwrap(), c.unwrap())
}

fn pairs(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => match sb::ContinuingFields::new(pair2(a[0]), a[1..].iter().map(|g| pair(g)).collect()) {
            Ok(x) => {
                *v = V::Pairs(x);
                done()
            }
            Err(e) => format!("!{e}"),
        },
        ("push", V::Pairs(x)) => {
            x.push_continuing_fields(pair(a[0]));
            done()
        }
        ("set", V::Pairs(x)) => res(x.set_continuing_fields(a[0].parse().unwrap(), pair(a[1]))),
        ("start", V::Pairs(x)) => {
            *x.start_values_mut() = pair2(a[0]);
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
fn colours(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => match sb::Colours::new(rgb3(a[0]), a[1..].iter().map(|g| rgb(g)).collect()) {
            Ok(x) => {
                *v = V::Colours(x);
                done()
            }
            Err(e) => format!("!{e}"),
        },
        ("push", V::Colours(x)) => {
            x.push_continuing_rgbs(rgb(a[0]));
            done()
        }
        ("set", V::Colours(x)) => res(x.set_continuing_rgbs(a[0].parse().unwrap(), rgb(a[1]))),
        ("start", V::Colours(x)) => {
            *x.start_rgb_mut() = rgb3(a[0]);
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
/// makes the value of a constructor that may refuse
fn make<T, E: std::fmt::Display>(v: &mut V, r: Result<T, E>, f: fn(T) -> V) -> R {
    match r {
        Ok(x) => {
            *v = f(x);
            done()
        }
        Err(e) => format!("!{e}"),
    }
}
fn hitvolume(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => make(v, ho::Volume::new(opt(a[0])), V::HitVolume),
        ("str", v) => make(v, <ho::Volume as VersionedFromStr>::from_str(a[0], 14).map(|x| x.unwrap()), V::HitVolume),
        ("default", v) => {
            *v = V::HitVolume(<ho::Volume as VersionedDefault>::default(14).unwrap());
            done()
        }
        ("set", V::HitVolume(x)) => res(x.set_volume(a[0].parse().unwrap())),
        ("tp", V::HitVolume(x)) => {
            x.set_use_timing_point_volume();
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
fn audiovolume(v: &mut V, op: &str, a: &[&str]) -> R {
    use audio_sample::Volume;
    match (op, v) {
        ("new", v) => make(v, Volume::new(a[0].parse().unwrap(), 14), V::AudioVolume),
        ("str", v) => make(v, <Volume as VersionedFromStr>::from_str(a[0], 14).map(|x| x.unwrap()), V::AudioVolume),
        ("default", v) => {
            *v = V::AudioVolume(<Volume as VersionedDefault>::default(14).unwrap());
            done()
        }
        ("set", V::AudioVolume(x)) => res(x.set(a[0].parse().unwrap(), 14)),
        _ => panic!("unknown call {op}"),
    }
}
fn timingvolume(v: &mut V, op: &str, a: &[&str]) -> R {
    use tp::Volume;
    match (op, v) {
        ("new", v) => {
            *v = V::TimingVolume(Volume::new(a[0].parse().unwrap(), 14).unwrap());
            done()
        }
        ("str", v) => make(v, <Volume as VersionedFromStr>::from_str(a[0], 14).map(|x| x.unwrap()), V::TimingVolume),
        ("set", V::TimingVolume(x)) => {
            x.set_volume(a[0].parse().unwrap());
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
fn comboskip(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => make(v, ho::ComboSkipCount::new(a[0].parse().unwrap(), 14).map(|x| x.unwrap()), V::Skip),
        ("default", v) => {
            *v = V::Skip(Default::default());
            done()
        }
        ("set", V::Skip(x)) => res(x.set(a[0].parse().unwrap(), 14)),
        _ => panic!("unknown call {op}"),
    }
}
fn hitsound(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => {
            *v = V::HitSound(HitSound::new(yes(a[0]), yes(a[1]), yes(a[2]), yes(a[3])));
            done()
        }
        ("u8", v) => {
            *v = V::HitSound(<HitSound as VersionedFrom<u8>>::from(a[0].parse().unwrap(), 14).unwrap());
            done()
        }
        ("str", v) => make(v, <HitSound as VersionedFromStr>::from_str(a[0], 14).map(|x| x.unwrap()), V::HitSound),
        ("default", v) => {
            *v = V::HitSound(Default::default());
            done()
        }
        (op, V::HitSound(x)) => {
            match op {
                "normal" => x.set_normal(yes(a[0])),
                "whistle" => x.set_whistle(yes(a[0])),
                "finish" => x.set_finish(yes(a[0])),
                "clap" => x.set_clap(yes(a[0])),
                _ => panic!("unknown call {op}"),
            }
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
fn effect_edit(x: &mut tp::Effects, op: &str, a: &[&str]) {
    match op {
        "kiai" => x.set_kiai_time_enabled(yes(a[0])),
        "bar" => x.set_no_first_barline_in_taiko_mania(yes(a[0])),
        "clear" => x.clear_unused_bits(),
        _ => panic!("unknown call {op}"),
    }
}
fn effects(v: &mut V, op: &str, a: &[&str]) -> R {
    use tp::Effects;
    match (op, v) {
        ("new", v) => {
            *v = V::Effects(Effects::new(yes(a[0]), yes(a[1])));
            done()
        }
        ("u32", v) => {
            *v = V::Effects(<Effects as VersionedFrom<u32>>::from(a[0].parse().unwrap(), 14).unwrap());
            done()
        }
        ("str", v) => make(v, <Effects as VersionedFromStr>::from_str(a[0], 14).map(|x| x.unwrap()), V::Effects),
        (op, V::Effects(x)) => {
            effect_edit(x, op, a);
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
fn tp_set(s: &str) -> tp::SampleSet {
    <tp::SampleSet as VersionedFrom<i32>>::from(s.parse().unwrap(), 14).unwrap()
}
fn tp_index(s: &str) -> tp::SampleIndex {
    <tp::SampleIndex as VersionedFrom<u32>>::from(s.parse().unwrap(), 14).unwrap()
}
fn tp_vol(s: &str) -> tp::Volume {
    tp::Volume::new(s.parse().unwrap(), 14).unwrap()
}
fn tp_eff(s: &str) -> tp::Effects {
    <tp::Effects as VersionedFrom<u32>>::from(s.parse().unwrap(), 14).unwrap()
}
fn timingpoint(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("inherited", v) => {
            *v = V::Point(TimingPoint::new_inherited(
                a[1].parse().unwrap(),
                a[0].parse().unwrap(),
                a[2].parse().unwrap(),
                tp_set(a[3]),
                tp_index(a[4]),
                tp_vol(a[5]),
                tp_eff(a[6]),
            ));
            done()
        }
        ("uninherited", v) => {
            *v = V::Point(TimingPoint::new_uninherited(
                a[1].parse().unwrap(),
                a[0].into(),
                a[2].parse().unwrap(),
                tp_set(a[3]),
                tp_index(a[4]),
                tp_vol(a[5]),
                tp_eff(a[6]),
            ));
            done()
        }
        ("parse", v) => {
            make(v, <TimingPoint as VersionedFromStr>::from_str(a[0], a[1].parse().unwrap()).map(|x| x.unwrap()), V::Point)
        }
        (op, V::Point(x)) => {
            match op {
                "time" => x.set_time(a[0].parse().unwrap()),
                "meter" => x.set_meter(a[0].parse().unwrap()),
                "set" => x.set_sample_set(tp_set(a[0])),
                "index" => *x.sample_index_mut() = tp_index(a[0]),
                "volume" => x.set_volume(tp_vol(a[0])),
                "unin" => x.set_uninherited(yes(a[0])),
                "effects" => *x.effects_mut() = if a[0] == "-" { None } else { Some(tp_eff(a[0])) },
                _ => match x.effects_mut() {
                    None => return "none".into(),
                    Some(e) => effect_edit(e, op, a),
                },
            }
            done()
        }
        _ => panic!("unknown call {op}"),
    }
}
fn error(v: &mut V, op: &str, a: &[&str]) -> R {
    let msg = || self::a(a[0].to_string());
    let line = || a[1].parse::<usize>().unwrap();
    let old = std::mem::replace(v, V::Nil);
    *v = match (op, old) {
        ("new", _) => V::ErrA(Error::new(msg(), line())),
        ("from", _) => V::ErrA(Error::from(msg())),
        ("into", _) => V::ErrB(Error::<A>::new_into(msg(), line())),
        ("result", _) => V::ErrA(Error::new_from_result::<()>(Err(msg()), line()).unwrap_err()),
        ("result_into", _) => V::ErrB(Error::<A>::new_from_result_into::<(), B>(Err(msg()), line()).unwrap_err()),
        ("ok", _) => V::OkA(
            Error::<A>::new_from_result(Ok::<String, A>(a[0].into()), 7)
                .and_then(|x| Error::<A>::new_from_result_into::<String, A>(Ok(x), 7))
                .unwrap(),
        ),
        ("error_into", V::ErrA(e)) => V::ErrB(e.error_into()),
        ("error_into", V::ErrB(e)) => V::ErrA(e.error_into()),
        ("error_into", V::OkA(x)) => V::OkB(x),
        ("error_into", V::OkB(x)) => V::OkA(x),
        ("error_result_into", V::ErrA(e)) => V::ErrB(Error::error_result_into::<(), B>(Err(e)).unwrap_err()),
        ("error_result_into", V::ErrB(e)) => V::ErrA(Error::error_result_into::<(), A>(Err(e)).unwrap_err()),
        ("error_result_into", V::OkA(x)) => V::OkB(Error::<A>::error_result_into::<String, B>(Ok(x)).unwrap()),
        ("error_result_into", V::OkB(x)) => V::OkA(Error::<B>::error_result_into::<String, A>(Ok(x)).unwrap()),
        ("processing_line", old) => {
            let n: usize = a[0].parse().unwrap();
            match old {
                V::ErrA(e) => V::ErrB(Error::processing_line::<(), B>(Err(e), n).unwrap_err()),
                V::ErrB(e) => V::ErrA(Error::processing_line::<(), A>(Err(e), n).unwrap_err()),
                V::OkA(x) => V::OkB(Error::<A>::processing_line::<String, B>(Ok(x), n).unwrap()),
                V::OkB(x) => V::OkA(Error::<B>::processing_line::<String, A>(Ok(x), n).unwrap()),
                _ => panic!("unknown call {op}"),
            }
        }
        _ => panic!("unknown call {op}"),
    };
    done()
}
const TEXTS: [&str; 6] = ["", "one", "one\ntwo", "one\r\ntwo\n", "\n\nthree\n", "1\n2\n3\n4\n5\n6\n7\n8"];
fn error_obs<E: std::error::Error + 'static>(kind: &str, e: &Error<E>) -> String {
    let mut q = vec![kind.to_string(), e.line_index().to_string(), e.error().to_string(), format!("{e}")];
    q.push(std::error::Error::source(e).map_or(String::new(), |x| x.to_string()));
    q.extend(TEXTS.iter().map(|t| e.display_error_with_line(t)));
    q.join(" = ")
}
fn decimal(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("from", v) => *v = V::Decimal(a[0].into()),
        ("parse", v) => *v = V::Decimal(a[0].parse().unwrap()),
        ("text", v) => *v = V::Decimal(Decimal::new_from_str(a[0])),
        ("int", v) => *v = V::Decimal(a[0].parse::<i32>().unwrap().into()),
        ("default", v) => *v = V::Decimal(Default::default()),
        ("right", V::Decimal(x)) => *x.get_mut() = either::Either::Right(a[0].into()),
        ("left", V::Decimal(x)) => {
            // both ways to make a number
            let d: rust_decimal::Decimal = a[0].parse().unwrap();
            assert!(Decimal::new(d) == Decimal::from(d));
            *x.get_mut() = either::Either::Left(d)
        }
        ("make", V::Decimal(x)) => return x.try_make_decimal().map_or("error".into(), |_| done()),
        _ => panic!("unknown call {op}"),
    }
    done()
}
fn with_commands(e: &Event) -> &dyn EventWithCommands {
    match e {
        Event::Background(x) => x,
        Event::Video(x) => x,
        Event::SpriteLegacy(x) => x,
        Event::AnimationLegacy(x) => x,
        Event::SampleLegacy(x) => x,
        Event::StoryboardObject(x) => x,
        _ => panic!("event without commands"),
    }
}
fn with_commands_mut(e: &mut Event) -> &mut dyn EventWithCommands {
    match e {
        Event::Background(x) => x,
        Event::Video(x) => x,
        Event::SpriteLegacy(x) => x,
        Event::AnimationLegacy(x) => x,
        Event::SampleLegacy(x) => x,
        Event::StoryboardObject(x) => x,
        _ => panic!("event without commands"),
    }
}
fn event(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("event" | "event3", v) => {
            let mut e = <Events as VersionedFromStr>::from_str(a[0], if op == "event" { 14 } else { 3 }).unwrap().unwrap();
            *v = V::Event(e.0.remove(0));
            done()
        }
        ("push", V::Event(e)) => {
            let c = <sb::Command as VersionedFromStr>::from_str(a[0], 14).unwrap().unwrap();
            res(with_commands_mut(e).try_push_cmd(c, a[1].parse().unwrap()))
        }
        _ => panic!("unknown call {op}"),
    }
}
fn pipes(s: &str) -> Vec<&str> {
    if s.is_empty() { vec![] } else { s.split('|').collect() }
}
fn parsed<T: VersionedFromStr>(s: &str) -> T
where
    T::Err: std::fmt::Debug,
{
    T::from_str(s, 14).unwrap().unwrap()
}
fn hitobject(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("circle", v) => *v = V::Object(HitObject::hitcircle_default()),
        ("spinner", v) => *v = V::Object(HitObject::spinner_default()),
        ("hold", v) => *v = V::Object(HitObject::osu_mania_hold_default()),
        ("parse", v) => {
            return make(v, <HitObject as VersionedFromStr>::from_str(a[0], a[1].parse().unwrap()).map(|x| x.unwrap()), V::Object)
        }
        (op, V::Object(x)) => match op {
            "pos" => x.position = Position { x: a[0].into(), y: a[1].into() },
            "time" => x.time = a[0].into(),
            "combo" => x.new_combo = yes(a[0]),
            "skip" => x.combo_skip_count = ho::ComboSkipCount::new(a[0].parse().unwrap(), 14).unwrap().unwrap(),
            "sound" => x.hitsound = parsed(a[0]),
            "sample" => x.hitsample = if a[0] == "-" { None } else { Some(parsed::<HitSample>(a[0])) },
            "end" => match &mut x.obj_params {
                HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time } => *end_time = a[0].into(),
                _ => return "none".into(),
            },
            "sounds" | "sets" | "points" => match &mut x.obj_params {
                HitObjectParams::Slider(s) if op == "sounds" => s.edge_sounds = pipes(a[0]).into_iter().map(parsed).collect(),
                HitObjectParams::Slider(s) if op == "sets" => s.edge_sets = pipes(a[0]).into_iter().map(parsed).collect(),
                HitObjectParams::Slider(s) => s.curve_points = pipes(a[0]).into_iter().map(parsed).collect(),
                _ => return "none".into(),
            },
            "slide" => {
                x.obj_params = HitObjectParams::Slider(SlideParams::new(
                    parsed(a[0]),
                    pipes(a[1]).into_iter().map(parsed).collect(),
                    a[2].parse().unwrap(),
                    a[3].into(),
                    pipes(a[4]).into_iter().map(parsed).collect(),
                    pipes(a[5]).into_iter().map(parsed).collect(),
                ))
            }
            _ => panic!("unknown call {op}"),
        },
        _ => panic!("unknown call {op}"),
    }
    done()
}
fn frames(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => {
            *v = V::Frames(Animation {
                frame_count: a[1].parse().unwrap(),
                frame_delay: rust_decimal::Decimal::from(5),
                loop_type: LoopType::LoopForever,
                filepath: a[0].into(),
            })
        }
        ("count", V::Frames(x)) => x.frame_count = a[0].parse().unwrap(),
        ("path", V::Frames(x)) => x.filepath.set(a[0]),
        _ => panic!("unknown call {op}"),
    }
    done()
}

fn call(ty: &str, v: &mut V, op: &str, a: &[&str]) -> R {
    match ty {
        "pairs" => pairs(v, op, a),
        "colours" => colours(v, op, a),
        "hitvolume" => hitvolume(v, op, a),
        "audiovolume" => audiovolume(v, op, a),
        "timingvolume" => timingvolume(v, op, a),
        "comboskip" => comboskip(v, op, a),
        "hitsound" => hitsound(v, op, a),
        "effects" => effects(v, op, a),
        "timingpoint" => timingpoint(v, op, a),
        "tempo" => tempo(v, op, a),
        "path" => match (op, v) {
            ("from", v) => {
                *v = V::Path(a[0].into());
                done()
            }
            ("set", V::Path(x)) => {
                x.set(a[0]);
                done()
            }
            _ => panic!("unknown call {op}"),
        },
        "sprite" => make(v, Sprite::new(std::path::Path::new(a[0])), V::Sprite),
        "frames" => frames(v, op, a),
        "decimal" => decimal(v, op, a),
        "error" => error(v, op, a),
        "event" => event(v, op, a),
        "hitobject" => hitobject(v, op, a),
        "file" => crate::sessions::file(v, op, a),
        "General" | "Editor" | "Metadata" | "Difficulty" => crate::sessions::keys(ty, v, op, a),
        "made" => crate::values::made(v, op, a),
        "command" => crate::values::command(v, op, a),
        "TimingPoints" | "HitObjects" | "Colours" | "Events" => crate::values::lists(ty, v, op, a),
        _ => panic!("unknown type {ty}"),
    }
}

/// the second field without the zeros at its end
fn short_beat(t: &str) -> String {
    let mut q: Vec<String> = t.split(',').map(|x| x.to_string()).collect();
    if q.len() > 1 {
        if let Ok(d) = q[1].parse::<rust_decimal::Decimal>() {
            q[1] = d.normalize().to_string();
        }
    }
    q.join(",")
}
fn tempo(v: &mut V, op: &str, a: &[&str]) -> R {
    let d = a[0].parse().unwrap();
    *v = V::Tempo(match op {
        "bpm" => TimingPoint::beat_duration_ms_to_bpm(d),
        "ms" => TimingPoint::bpm_to_beat_duration_ms(d),
        _ => panic!("unknown call {op}"),
    });
    done()
}
pub fn observe(v: &V) -> String {
    match v {
        V::Nil => "nil".into(),
        V::Pairs(x) => {
            let (a, b) = x.start_values();
            let mut q = vec![format!("{a};{b}")];
            q.extend(x.continuing_fields().iter().map(|(a, b)| format!("{a};{}", show(*b))));
            format!("{} = {x}", q.join("|"))
        }
        V::Colours(x) => {
            let (a, b, c) = x.start_rgb();
            let mut q = vec![format!("{a};{b};{c}")];
            q.extend(x.continuing_fields().iter().map(|(a, b, c)| format!("{a};{};{}", show(*b), show(*c))));
            format!("{} = {}", q.join("|"), txt(x))
        }
        V::HitVolume(x) => format!(
            "{}|{}|{}",
            show(x.volume()),
            yn(x.use_timing_point_volume()),
            <i32 as VersionedFrom<ho::Volume>>::from(*x, 14).unwrap()
        ),
        V::AudioVolume(x) => format!("{}|{}", x.get(), txt(x)),
        V::TimingVolume(x) => format!("{}|{}", x.volume(), txt(x)),
        V::Skip(x) => {
            let n = <u8 as VersionedFrom<ho::ComboSkipCount>>::from(*x, 14).unwrap();
            if n == x.get() { n.to_string() } else { format!("{n}?{}", x.get()) }
        }
        V::HitSound(x) => format!("{}|{}", obs::hit_sound(x), txt(x)),
        V::Effects(x) => format!("{}{}|{}", yn(x.kiai_time_enabled()), yn(x.no_first_barline_in_taiko_mania()), {
            let n = <u32 as VersionedFrom<tp::Effects>>::from(*x, 14).unwrap().to_string();
            if n == txt(x) { n } else { format!("{n}?{}", txt(x)) }
        }),
        V::Point(x) => {
            let mut q = vec![obs::timing_point(x)];
            q.extend([3, 4, 5, 14].iter().map(|w| short_beat(&x.to_string(*w).unwrap_or("?".into()))));
            q.join(" = ")
        }
        V::Tempo(x) => obs::ratio(Some(*x)),
        V::Path(x) => format!("{} = {}", x.get().to_string_lossy(), txt(x)),
        V::Sprite(x) => x.filepath.get().to_string_lossy().to_string(),
        V::Frames(x) => {
            x.frame_file_names().iter().map(|p| p.to_string_lossy().to_string()).collect::<Vec<_>>().join("|")
        }
        V::Decimal(x) => format!("{} {x}", if x.get().is_left() { "number" } else { "text" }),
        V::ErrA(e) => error_obs("a", e),
        V::ErrB(e) => error_obs("b", e),
        V::OkA(x) | V::OkB(x) => format!("ok {x}"),
        V::Event(e) => {
            let c = with_commands(e);
            let mut q = vec![];
            obs::tree(c.commands(), 1, &mut q);
            let head = c.to_string_cmd(3).or(c.to_string_cmd(14)).unwrap_or_default();
            let all = c.to_string_variables(14, &[]).or(c.to_string_variables(3, &[])).unwrap_or_default();
            let all2 = c.to_string_variables(3, &[]).unwrap_or_default();
            let body = all
                .strip_prefix(&c.to_string_cmd(14).unwrap_or_default())
                .or(all2.strip_prefix(&head))
                .unwrap_or("?")
                .trim_start_matches('\n')
                .to_string();
            format!("{}\n=\n{body}", q.join("\n"))
        }
        V::Made(_) | V::Command(_) | V::Points(_) | V::Objects(_) | V::ColourList(_) | V::EventList(_) => crate::values::observe(v),
        V::General(_) | V::Editor(_) | V::Metadata(_) | V::Difficulty(_) | V::File(_) => crate::sessions::observe(v),
        V::Object(x) => {
            let mut q = vec![obs::hit_object(x)];
            q.extend([3, 4, 9, 11, 14].iter().map(|w| x.to_string(*w).unwrap_or("?".into())));
            q.join(" = ")
        }
    }
}

/// what is written is read back as the same value
fn read_back(v: &V) -> Option<String> {
    let line = |t: String| -> Option<sb::Command> { <sb::Command as VersionedFromStr>::from_str(&t, 14).ok().flatten() };
    let want = observe(v);
    match v {
        V::Pairs(x) => match line(format!("M,0,1,2,{x}")) {
            Some(c) => {
                let o = obs::command(&c);
                let w = format!("M|1|Linear|2|{}", format!("{x}").replace(',', " "));
                if o != w { Some(format!("read back as {o}")) } else { None }
            }
            None => Some(format!("{x} is not read back")),
        },
        V::Colours(x) => match line(format!("C,0,1,2,{}", txt(x))) {
            Some(sb::Command { properties: sb::CommandProperties::Colour { colours, .. }, .. }) => {
                let o = observe(&V::Colours(colours.clone()));
                if o != want { Some(format!("read back as {o}")) } else { None }
            }
            _ => Some(format!("{} is not read back", txt(x))),
        },
        _ => None,
    }
}

/// problems: (step, aspect, what)
pub fn check(v: &Value) -> Vec<(&'static str, String)> {
    let ty = v["ty"].as_str().unwrap();
    let mut x = V::Nil;
    let mut made = false;
    for (i, h) in v["h"].as_array().unwrap().iter().enumerate() {
        let op = h["op"].as_str().unwrap();
        let a: Vec<&str> = h["a"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let (wr, wo) = (h["r"].as_str().unwrap(), h["o"].as_str().unwrap());
        let got = catch_unwind(AssertUnwindSafe(|| {
            let r = call(ty, &mut x, op, &a);
            made = made || !r.starts_with('!');
            let o = if made { observe(&x) } else { String::new() };
            let b = if made { read_back(&x) } else { None };
            (r, o, b)
        }));
        let at = format!("call {} {op}({})", i + 1, a.join(", "));
        match got {
            Err(e) => return vec![("panic", format!("{at} panicked: {}", crate::run::panic_text(e)))],
            Ok((r, o, b)) => {
                if r != wr {
                    return vec![("hist", format!("{at} gives {r:?}, specified {wr:?}"))];
                }
                if o != wo {
                    return vec![("hist", format!("after {at} the value is {o:?}, specified {wo:?}"))];
                }
                if let Some(b) = b {
                    return vec![("hist", format!("after {at}: {b}"))];
                }
            }
        }
    }
    vec![]
}
