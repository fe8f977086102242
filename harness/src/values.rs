//! Events, commands and list sections that a program makes itself (the calls of module Values).
use crate::api::{R, V};
use crate::obs;
use either::Either;
use osu_file_parser::events::storyboard::cmds::*;
use osu_file_parser::events::storyboard::sprites::{Animation, LoopType, Object, ObjectType, Origin, OriginType, Sprite};
use osu_file_parser::events::storyboard::types::{Addition, Easing, SampleSet, TriggerType};
use osu_file_parser::events::types::{LayerLegacy, OriginTypeLegacy};
use osu_file_parser::events::*;
use osu_file_parser::osb::Variable;
use osu_file_parser::*;

fn done() -> R {
    String::new()
}
fn none() -> R {
    "none".into()
}
fn num<T: std::str::FromStr>(s: &str) -> T
where
    T::Err: std::fmt::Debug,
{
    s.parse().unwrap()
}
fn opt<T: std::str::FromStr>(s: &str) -> Option<T>
where
    T::Err: std::fmt::Debug,
{
    if s == "-" { None } else { Some(num(s)) }
}
fn parsed<T: VersionedFromStr>(s: &str) -> T
where
    T::Err: std::fmt::Debug,
{
    T::from_str(s, 14).unwrap().unwrap()
}
fn coded<T: VersionedFromRepr>(s: &str) -> T {
    T::from_repr(num(s), 14).ok().flatten().unwrap()
}
fn pos(s: &str) -> Option<Position> {
    let (x, y) = s.split_once(';')?;
    Some(Position { x: x.into(), y: y.into() })
}
fn vol(s: &str) -> audio_sample::Volume {
    audio_sample::Volume::new(num(s), 14).unwrap()
}
fn layer(s: &str) -> events::storyboard::sprites::Layer {
    use events::storyboard::sprites::Layer::*;
    [Background, Fail, Pass, Foreground, Overlay][num::<usize>(s)]
}
fn origin_type(s: &str) -> Option<OriginType> {
    use OriginType::*;
    [TopLeft, Centre, CentreLeft, TopRight, BottomCentre, TopCentre, Custom, CentreRight, BottomLeft, BottomRight]
        .get(num::<usize>(s))
        .copied()
}
fn looped(s: &str) -> LoopType {
    if s == "LoopOnce" { LoopType::LoopOnce } else { LoopType::LoopForever }
}
fn object(l: &str, o: &str, p: &str, object_type: ObjectType) -> Event {
    Event::StoryboardObject(Object {
        layer: layer(l),
        origin: origin_type(o).unwrap().into(),
        position: pos(p).unwrap(),
        object_type,
        commands: vec![],
    })
}
fn make_event(op: &str, a: &[&str]) -> Option<Event> {
    Some(match op {
        "video" => Event::Video(Video::new(num(a[0]), a[1].into(), pos(a[2]))),
        "break" => Event::Break(Break::new(num(a[0]), num(a[1]))),
        "bg" => Event::Background(Background {
            start_time: num(a[0]),
            file_name: a[1].into(),
            position: pos(a[2]),
            commands: vec![],
        }),
        "colour" => Event::ColourTransformation(ColourTransformation {
            start_time: num(a[0]),
            red: num(a[1]),
            green: num(a[2]),
            blue: num(a[3]),
        }),
        "sprite4" => Event::SpriteLegacy(SpriteLegacy {
            layer: coded(a[0]),
            origin: coded(a[1]),
            file_name: a[2].into(),
            position: pos(a[3]),
            commands: vec![],
        }),
        "anim5" => Event::AnimationLegacy(AnimationLegacy {
            layer: coded(a[0]),
            origin: coded(a[1]),
            file_name: a[2].into(),
            position: pos(a[3]),
            commands: vec![],
        }),
        "sample6" => Event::SampleLegacy(SampleLegacy {
            time: a[0].into(),
            layer: coded(a[1]),
            file_name: a[2].into(),
            volume: if a[3] == "-" { None } else { Some(vol(a[3])) },
            commands: vec![],
        }),
        "Sprite" => object(a[0], a[1], a[3], ObjectType::Sprite(Sprite { filepath: a[2].into() })),
        "Animation" => object(
            a[0],
            a[1],
            a[3],
            ObjectType::Animation(Animation {
                frame_count: num(a[4]),
                frame_delay: num(a[5]),
                loop_type: looped(a[6]),
                filepath: a[2].into(),
            }),
        ),
        "Sample" => Event::AudioSample(AudioSample {
            time: num(a[0]),
            layer: coded(a[1]),
            filepath: a[2].into(),
            volume: vol(a[3]),
        }),
        "comment" => Event::Comment(a[0].to_string()),
        "parse" => <Events as VersionedFromStr>::from_str(a[0], num(a[1])).unwrap().unwrap().0.remove(0),
        _ => return None,
    })
}
fn commands(e: &mut Event) -> Option<&mut Vec<Command>> {
    Some(match e {
        Event::Background(x) => x.commands_mut(),
        Event::Video(x) => x.commands_mut(),
        Event::SpriteLegacy(x) => x.commands_mut(),
        Event::AnimationLegacy(x) => x.commands_mut(),
        Event::SampleLegacy(x) => x.commands_mut(),
        Event::StoryboardObject(x) => x.commands_mut(),
        _ => return None,
    })
}
fn edit_event(e: &mut Event, op: &str, a: &[&str]) -> R {
    use Event::*;
    match (op, e) {
        ("time", Background(x)) => x.start_time = num(a[0]),
        ("time", Video(x)) => x.start_time = num(a[0]),
        ("time", Break(x)) => x.start_time = num(a[0]),
        ("time", ColourTransformation(x)) => x.start_time = num(a[0]),
        ("time", AudioSample(x)) => x.time = num(a[0]),
        ("time", SampleLegacy(x)) => x.time = a[0].into(),
        ("end", Break(x)) => x.end_time = num(a[0]),
        ("path", Background(x)) => x.file_name = a[0].into(),
        ("path", Video(x)) => x.file_name.set(a[0]),
        ("path", SpriteLegacy(x)) => x.file_name.set(a[0]),
        ("path", AnimationLegacy(x)) => x.file_name = a[0].into(),
        ("path", SampleLegacy(x)) => x.file_name = a[0].into(),
        ("path", AudioSample(x)) => x.filepath.set(a[0]),
        ("path", StoryboardObject(Object { object_type: ObjectType::Sprite(x), .. })) => x.filepath = a[0].into(),
        ("path", StoryboardObject(Object { object_type: ObjectType::Animation(x), .. })) => x.filepath.set(a[0]),
        ("pos", Background(x)) => x.position = pos(a[0]),
        ("pos", Video(x)) => x.position = pos(a[0]),
        ("pos", SpriteLegacy(x)) => x.position = pos(a[0]),
        ("pos", AnimationLegacy(x)) => x.position = pos(a[0]),
        ("pos", StoryboardObject(x)) => match pos(a[0]) {
            Some(p) => x.position = p,
            None => return none(),
        },
        ("layer", SpriteLegacy(x)) => x.layer = coded::<LayerLegacy>(a[0]),
        ("layer", AnimationLegacy(x)) => x.layer = coded(a[0]),
        ("layer", SampleLegacy(x)) => x.layer = coded(a[0]),
        ("layer", AudioSample(x)) => x.layer = coded(a[0]),
        ("layer", StoryboardObject(x)) => x.layer = layer(a[0]),
        ("origin", SpriteLegacy(x)) if a[0].len() == 1 => x.origin = coded::<OriginTypeLegacy>(a[0]),
        ("origin", AnimationLegacy(x)) if a[0].len() == 1 => x.origin = coded(a[0]),
        ("origin", StoryboardObject(x)) => {
            x.origin = Origin {
                type_: origin_type(a[0]).map_or(Either::Right(num(a[0])), Either::Left),
                shorthand: a[1] == "y",
            }
        }
        ("vol", SampleLegacy(x)) => x.volume = if a[0] == "-" { None } else { Some(vol(a[0])) },
        ("vol", AudioSample(x)) if a[0] != "-" => x.volume = vol(a[0]),
        ("rgb", ColourTransformation(x)) => (x.red, x.green, x.blue) = (num(a[0]), num(a[1]), num(a[2])),
        ("text", Comment(x)) => *x = a[0].to_string(),
        ("frames", StoryboardObject(Object { object_type: ObjectType::Animation(x), .. })) => x.frame_count = num(a[0]),
        ("delay", StoryboardObject(Object { object_type: ObjectType::Animation(x), .. })) => x.frame_delay = num(a[0]),
        ("loop", StoryboardObject(Object { object_type: ObjectType::Animation(x), .. })) => x.loop_type = looped(a[0]),
        ("cmd", e) => match commands(e) {
            Some(c) => c.push(parsed(a[0])),
            None => return none(),
        },
        ("nocmds", e) => match commands(e) {
            Some(c) => c.clear(),
            None => return none(),
        },
        _ => return none(),
    }
    done()
}
pub fn made(v: &mut V, op: &str, a: &[&str]) -> R {
    if let Some(e) = make_event(op, a) {
        *v = V::Made(e);
        return done();
    }
    match v {
        V::Made(e) => edit_event(e, op, a),
        _ => panic!("unknown call {op}"),
    }
}

/* ------------------------------- commands ------------------------------- */
fn trigger(a: &[&str]) -> TriggerType {
    fn slot<T: VersionedFromStr>(s: &str) -> Option<T>
    where
        T::Err: std::fmt::Debug,
    {
        if s == "-" { None } else { Some(parsed(s)) }
    }
    match a {
        ["Passing"] => TriggerType::Passing,
        ["Failing"] => TriggerType::Failing,
        _ => TriggerType::HitSound {
            sample_set: slot::<SampleSet>(a[0]),
            additions_sample_set: slot::<SampleSet>(a[1]),
            addition: slot::<Addition>(a[2]),
            custom_sample_set: opt(a[3]),
        },
    }
}
fn ease(s: &str) -> Easing {
    <Easing as VersionedFrom<Integer>>::from(num(s), 14).unwrap()
}
fn decimals(a: &[&str]) -> Vec<Decimal> {
    a.iter().map(|x| (*x).into()).collect()
}
fn fields(a: &[&str]) -> ContinuingFields<Decimal> {
    let rest = a[2..].chunks(2).map(|g| (g[0].into(), g.get(1).map(|x| (*x).into()))).collect();
    ContinuingFields::new((a[0].into(), a[1].into()), rest).unwrap()
}
fn rgbs(a: &[&str]) -> events::storyboard::cmds::Colours {
    let rest = a[3..].chunks(3).map(|g| (num(g[0]), g.get(1).map(|x| num(x)), g.get(2).map(|x| num(x)))).collect();
    events::storyboard::cmds::Colours::new((num(a[0]), num(a[1]), num(a[2])), rest).unwrap()
}
fn make_command(op: &str, a: &[&str]) -> Option<Command> {
    use CommandProperties::*;
    let (easing, end_time) = match op {
        "F" | "S" | "R" | "MX" | "MY" | "M" | "V" | "C" | "P" => (ease(a[0]), opt(a[2])),
        "T" => (Easing::Linear, opt(a[1])),
        "L" => (Easing::Linear, None),
        _ => return None,
    };
    let start_time = match op {
        "L" | "T" => opt(a[0]),
        _ => opt(a[1]),
    };
    let q = if op == "L" { a } else { &a[3..] };
    let properties = match op {
        "F" => Fade { easing, end_time, start_opacity: q[0].into(), continuing_opacities: decimals(&q[1..]) },
        "S" => Scale { easing, end_time, start_scale: q[0].into(), continuing_scales: decimals(&q[1..]) },
        "R" => Rotate { easing, end_time, start_rotation: q[0].into(), continuing_rotations: decimals(&q[1..]) },
        "MX" => MoveX { easing, end_time, start_x: q[0].into(), continuing_x: decimals(&q[1..]) },
        "MY" => MoveY { easing, end_time, start_y: q[0].into(), continuing_y: decimals(&q[1..]) },
        "M" => Move { easing, end_time, positions_xy: fields(q) },
        "V" => VectorScale { easing, end_time, scales_xy: fields(q) },
        "C" => Colour { easing, end_time, colours: rgbs(q) },
        "P" => Parameter {
            easing,
            end_time,
            parameter: parsed(q[0]),
            continuing_parameters: q[1..].iter().map(|x| parsed::<events::storyboard::types::Parameter>(x)).collect(),
        },
        "L" => Loop { loop_count: num(a[1]), commands: vec![] },
        _ => Trigger { trigger_type: trigger(q), end_time, group_number: opt(a[2]), commands: vec![] },
    };
    Some(Command { start_time, properties })
}
fn edit_command(c: &mut Command, op: &str, a: &[&str]) -> R {
    use CommandProperties::*;
    if op == "st" {
        c.start_time = opt(a[0]);
        return done();
    }
    match (op, &mut c.properties) {
        ("et", Loop { .. }) => return none(),
        (
            "et",
            Fade { end_time, .. } | Scale { end_time, .. } | Rotate { end_time, .. } | MoveX { end_time, .. }
            | MoveY { end_time, .. } | Move { end_time, .. } | VectorScale { end_time, .. } | Colour { end_time, .. }
            | Parameter { end_time, .. } | Trigger { end_time, .. },
        ) => *end_time = opt(a[0]),
        (
            "ez",
            Fade { easing, .. } | Scale { easing, .. } | Rotate { easing, .. } | MoveX { easing, .. }
            | MoveY { easing, .. } | Move { easing, .. } | VectorScale { easing, .. } | Colour { easing, .. }
            | Parameter { easing, .. },
        ) => *easing = ease(a[0]),
        (
            "first",
            Fade { start_opacity: x, .. } | Scale { start_scale: x, .. } | Rotate { start_rotation: x, .. }
            | MoveX { start_x: x, .. } | MoveY { start_y: x, .. },
        ) => *x = a[0].into(),
        ("first", Move { positions_xy: x, .. } | VectorScale { scales_xy: x, .. }) => x.start_values_mut().0 = a[0].into(),
        ("first", Colour { colours, .. }) => colours.start_rgb_mut().0 = num(a[0]),
        ("first", Parameter { parameter, .. }) => *parameter = parsed(a[1]),
        (
            "more",
            Fade { continuing_opacities: x, .. } | Scale { continuing_scales: x, .. }
            | Rotate { continuing_rotations: x, .. } | MoveX { continuing_x: x, .. } | MoveY { continuing_y: x, .. },
        ) => x.push(a[0].into()),
        ("more", Colour { colours, .. }) => colours.push_continuing_rgbs((num(a[0]), Some(num(a[1])), Some(num(a[2])))),
        ("more", Parameter { continuing_parameters, .. }) => continuing_parameters.push(parsed(a[3])),
        ("count", Loop { loop_count, .. }) => *loop_count = num(a[0]),
        ("group", Trigger { group_number, .. }) => *group_number = opt(a[0]),
        ("trigger", Trigger { trigger_type, .. }) => *trigger_type = trigger(a),
        ("kid", Loop { commands, .. } | Trigger { commands, .. }) => commands.push(parsed(a[0])),
        _ => return none(),
    }
    done()
}
pub fn command(v: &mut V, op: &str, a: &[&str]) -> R {
    if let Some(c) = make_command(op, a) {
        *v = V::Command(c);
        return done();
    }
    match v {
        V::Command(c) => edit_command(c, op, a),
        _ => panic!("unknown call {op}"),
    }
}

/* --------------------------------- lists -------------------------------- */
fn list<T: Clone>(x: &mut Vec<T>, op: &str, a: &[&str], read: impl Fn(&str, u8) -> Vec<T>) -> R {
    let item = || read(a[0], num(a[1])).remove(0);
    match op {
        "push" => x.push(item()),
        "front" => x.insert(0, item()),
        "remove" => {
            let i: usize = num(a[0]);
            if i >= x.len() {
                return none();
            }
            x.remove(i);
        }
        "swap" => {
            let n = x.len();
            if n < 2 {
                return none();
            }
            x.swap(0, n - 1);
        }
        "double" => x.extend(x.clone()),
        _ => panic!("unknown call {op}"),
    }
    done()
}
pub fn lists(ty: &str, v: &mut V, op: &str, a: &[&str]) -> R {
    if op == "new" {
        let f = OsuFile::new(14);
        assert!(f.timing_points.is_none() && f.hitobjects.is_none() && f.colours.is_none() && f.events.is_none());
        *v = match ty {
            "TimingPoints" => V::Points(<TimingPoints as VersionedDefault>::default(14).unwrap()),
            "HitObjects" => V::Objects(<HitObjects as VersionedDefault>::default(14).unwrap()),
            "Colours" => V::ColourList(<osu_file_parser::Colours as VersionedDefault>::default(14).unwrap()),
            _ => V::EventList(<Events as VersionedDefault>::default(14).unwrap()),
        };
        return done();
    }
    match v {
        V::Points(x) => list(&mut x.0, op, a, |t, w| <TimingPoints as VersionedFromStr>::from_str(t, w).unwrap().unwrap().0),
        V::Objects(x) => list(&mut x.0, op, a, |t, w| <HitObjects as VersionedFromStr>::from_str(t, w).unwrap().unwrap().0),
        V::ColourList(x) => {
            list(&mut x.0, op, a, |t, w| <osu_file_parser::Colours as VersionedFromStr>::from_str(t, w).unwrap().unwrap().0)
        }
        V::EventList(x) => list(&mut x.0, op, a, |t, w| <Events as VersionedFromStr>::from_str(t, w).unwrap().unwrap().0),
        _ => panic!("unknown call {op}"),
    }
}

const MADE: [u8; 5] = [3, 4, 5, 13, 14];
const LISTED: [u8; 6] = [3, 4, 5, 9, 13, 14];
fn shown(first: String, at: &[u8], write: impl Fn(u8) -> Option<String>) -> String {
    std::iter::once(first).chain(at.iter().map(|w| write(*w).unwrap_or("?".into()))).collect::<Vec<_>>().join("\n=\n")
}
fn variables() -> Vec<Vec<Variable>> {
    let v = |n: &str, t: &str| Variable { name: n.into(), value: t.into() };
    vec![
        vec![v("a", "5")],
        vec![v("a", "1"), v("b", "0,5")],
        vec![v("n", "Hit"), v("m", "2")],
        vec![v("e", ""), v("c", "7,")],
    ]
}
pub fn observe(v: &V) -> String {
    match v {
        V::Made(e) => {
            let mut q = vec![];
            obs::event(e, &mut q);
            let all = Events(vec![e.clone()]);
            shown(q.join("\n"), &MADE, |w| all.to_string(w))
        }
        V::Command(c) => {
            let mut q = vec![];
            obs::tree(std::slice::from_ref(c), 1, &mut q);
            let b = Background { start_time: 0, file_name: "b".into(), position: None, commands: vec![c.clone()] };
            let lines = b.to_string(14).and_then(|t| t.split_once('\n').map(|x| x.1.to_string())).unwrap_or("?".into());
            let mut out = vec![q.join("\n"), lines];
            out.extend(variables().iter().map(|q| c.to_string_variables(14, q).unwrap_or("?".into())));
            out.join("\n=\n")
        }
        V::Points(x) => shown(obs::timing_points(x), &LISTED, |w| x.to_string(w)),
        V::Objects(x) => shown(obs::hitobjects(x), &LISTED, |w| x.to_string(w)),
        V::ColourList(x) => shown(obs::colours(x), &LISTED, |w| x.to_string(w)),
        V::EventList(x) => shown(obs::events(x), &LISTED, |w| x.to_string(w)),
        _ => unreachable!(),
    }
}
