//! Observations of parsed values through the public fields and getters only,
//! in the text form that the `Obs*` operators of the specification define.
use either::Either;
use osu_file_parser::events::storyboard::cmds::*;
use osu_file_parser::events::storyboard::sprites::*;
use osu_file_parser::events::storyboard::types::{Easing, TriggerType};
use osu_file_parser::events::*;
use osu_file_parser::hitobjects::{HitObject, HitObjectParams, HitSample, HitSound};
use osu_file_parser::osb::Osb;
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::*;

fn yn(b: bool) -> &'static str {
    if b { "y" } else { "n" }
}

trait Tx {
    fn tx(&self) -> String;
}
impl Tx for i32 {
    fn tx(&self) -> String {
        std::string::ToString::to_string(self)
    }
}
impl Tx for bool {
    fn tx(&self) -> String {
        (*self as u8).to_string()
    }
}
impl Tx for String {
    fn tx(&self) -> String {
        self.clone()
    }
}
impl Tx for std::path::PathBuf {
    fn tx(&self) -> String {
        self.display().to_string()
    }
}
impl Tx for Decimal {
    fn tx(&self) -> String {
        format!("{self}")
    }
}
impl Tx for Vec<i32> {
    fn tx(&self) -> String {
        self.iter().map(|x| x.tx()).collect::<Vec<_>>().join(",")
    }
}
impl Tx for Vec<String> {
    fn tx(&self) -> String {
        self.join("|")
    }
}

macro_rules! kv {
    ($out:ident, $sec:expr, $( $field:ident : $key:literal : $ty:ty ),* $(,)?) => {
        $( if let Some(x) = &$sec.$field { let v: $ty = x.clone().into(); $out.push(format!("{}={}", $key, v.tx())); } )*
    };
}
macro_rules! kvs {
    ($out:ident, $sec:expr, $field:ident : $key:literal) => {
        if let Some(x) = &$sec.$field {
            $out.push(format!("{}={}", $key, VersionedToString::to_string(x, 14).unwrap_or("?".into())));
        }
    };
}

pub fn general(g: &General) -> String {
    let mut o = Vec::new();
    kv!(o, g, audio_filename: "AudioFilename": std::path::PathBuf, audio_lead_in: "AudioLeadIn": i32,
        audio_hash: "AudioHash": String, preview_time: "PreviewTime": i32);
    kvs!(o, g, countdown: "Countdown");
    kvs!(o, g, sample_set: "SampleSet");
    kv!(o, g, stack_leniency: "StackLeniency": Decimal);
    kvs!(o, g, mode: "Mode");
    kv!(o, g, letterbox_in_breaks: "LetterboxInBreaks": bool, story_fire_in_front: "StoryFireInFront": bool,
        use_skin_sprites: "UseSkinSprites": bool, always_show_playfield: "AlwaysShowPlayfield": bool);
    kvs!(o, g, overlay_position: "OverlayPosition");
    kv!(o, g, skin_preference: "SkinPreference": String, epilepsy_warning: "EpilepsyWarning": bool,
        countdown_offset: "CountdownOffset": i32, special_style: "SpecialStyle": bool,
        widescreen_storyboard: "WidescreenStoryboard": bool,
        samples_match_playback_rate: "SamplesMatchPlaybackRate": bool,
        editor_bookmarks: "EditorBookmarks": Vec<i32>, editor_distance_spacing: "EditorDistanceSpacing": Decimal);
    o.join("\n")
}
pub fn editor(g: &Editor) -> String {
    let mut o = Vec::new();
    kv!(o, g, bookmarks: "Bookmarks": Vec<i32>, distance_spacing: "DistanceSpacing": Decimal,
        beat_divisor: "BeatDivisor": Decimal, grid_size: "GridSize": i32, timeline_zoom: "TimelineZoom": Decimal,
        current_time: "CurrentTime": i32);
    o.join("\n")
}
pub fn metadata(g: &Metadata) -> String {
    let mut o = Vec::new();
    kv!(o, g, title: "Title": String, title_unicode: "TitleUnicode": String, artist: "Artist": String,
        artist_unicode: "ArtistUnicode": String, creator: "Creator": String, version: "Version": String,
        source: "Source": String, tags: "Tags": Vec<String>, beatmap_id: "BeatmapID": i32,
        beatmap_set_id: "BeatmapSetID": i32);
    o.join("\n")
}
pub fn difficulty(g: &Difficulty) -> String {
    let mut o = Vec::new();
    kv!(o, g, hp_drain_rate: "HPDrainRate": Decimal, circle_size: "CircleSize": Decimal,
        overall_difficulty: "OverallDifficulty": Decimal, approach_rate: "ApproachRate": Decimal,
        slider_multiplier: "SliderMultiplier": Decimal, slider_tickrate: "SliderTickRate": Decimal);
    o.join("\n")
}

pub fn colours(c: &osu_file_parser::Colours) -> String {
    use osu_file_parser::colours::Colour;
    c.0.iter()
        .map(|c| {
            let (k, n, r) = match c {
                Colour::Combo(n, r) => ("Combo", n.to_string(), r),
                Colour::SliderTrackOverride(r) => ("SliderTrackOverride", String::new(), r),
                Colour::SliderBorder(r) => ("SliderBorder", String::new(), r),
                _ => unreachable!(),
            };
            format!("{k}|{n}|{}|{}|{}", r.red, r.green, r.blue)
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn tp_sample_set(s: timingpoints::SampleSet) -> String {
    match s {
        timingpoints::SampleSet::BeatmapDefault => "0".into(),
        timingpoints::SampleSet::Normal => "1".into(),
        timingpoints::SampleSet::Soft => "2".into(),
        timingpoints::SampleSet::Drum => "3".into(),
        timingpoints::SampleSet::Other(n) => n.to_string(),
        _ => "?".into(),
    }
}
/// a derived value: twenty significant digits and at most 24 decimals
pub fn ratio(d: Option<rust_decimal::Decimal>) -> String {
    let Some(d) = d else { return "-".into() };
    let a = d.abs().to_string();
    let (w, f) = a.split_once('.').unwrap_or((&a, ""));
    if w.len() > 20 {
        return format!("{}{}..{}", if d.is_sign_negative() { "-" } else { "" }, &w[..20], w.len());
    }
    let k = if w == "0" { 20 + f.len() - f.trim_start_matches('0').len() } else { 20 - w.len() }.min(24);
    let t = d.abs().round_dp_with_strategy(k as u32, rust_decimal::RoundingStrategy::MidpointAwayFromZero).normalize();
    format!("{}{t}", if d.is_sign_negative() && !t.is_zero() { "-" } else { "" })
}
pub fn timing_point(t: &TimingPoint) -> String {
    let (e, f) = match t.effects() {
        None => ("-".to_string(), "-".to_string()),
        Some(e) => (
            VersionedToString::to_string(e, 14).unwrap(),
            format!("{}{}", yn(e.kiai_time_enabled()), yn(e.no_first_barline_in_taiko_mania())),
        ),
    };
    let idx = match t.sample_index() {
        timingpoints::SampleIndex::OsuDefaultHitsounds => "0".to_string(),
        timingpoints::SampleIndex::Index(n) => n.get().to_string(),
        _ => "?".into(),
    };
    [
        t.time().tx(),
        t.meter().to_string(),
        tp_sample_set(t.sample_set()),
        idx,
        t.volume().volume().to_string(),
        yn(t.uninherited()).to_string(),
        e,
        f,
        ratio(t.calc_bpm()),
        ratio(t.calc_slider_velocity_multiplier()),
    ]
    .join("|")
}
pub fn timing_points(t: &TimingPoints) -> String {
    t.0.iter().map(timing_point).collect::<Vec<_>>().join("\n")
}

fn ho_set(s: &hitobjects::SampleSet) -> String {
    use hitobjects::SampleSet::*;
    match s {
        NoCustomSampleSet => "0".into(),
        NormalSet => "1".into(),
        SoftSet => "2".into(),
        DrumSet => "3".into(),
        Other(n) => n.to_string(),
        _ => "?".into(),
    }
}
pub fn hit_sample(h: &Option<HitSample>) -> String {
    match h {
        None => "-".into(),
        Some(h) => [
            ho_set(&h.normal_set),
            ho_set(&h.addition_set),
            match h.index {
                hitobjects::SampleIndex::TimingPointSampleIndex => "0".into(),
                hitobjects::SampleIndex::Index(n) => n.to_string(),
                _ => "?".into(),
            },
            match h.volume.volume() {
                None => {
                    if h.volume.use_timing_point_volume() { "tp".into() } else { "?".into() }
                }
                Some(v) => v.to_string(),
            },
            h.filename.clone(),
        ]
        .join(":"),
    }
}
pub fn hit_sound(h: &HitSound) -> String {
    format!("{}{}{}{}", yn(h.normal()), yn(h.whistle()), yn(h.finish()), yn(h.clap()))
}
fn curve(c: hitobjects::CurveType) -> &'static str {
    match c {
        hitobjects::CurveType::Bezier => "B",
        hitobjects::CurveType::Centripetal => "C",
        hitobjects::CurveType::Linear => "L",
        hitobjects::CurveType::PerfectCircle => "P",
        _ => "?",
    }
}
pub fn hit_object(h: &HitObject) -> String {
    let (kind, params) = match &h.obj_params {
        HitObjectParams::HitCircle => ("circle", String::new()),
        HitObjectParams::Slider(p) => (
            "slider",
            [
                curve(p.curve_type).to_string(),
                p.curve_points.iter().map(|c| format!("{}:{}", c.0.x, c.0.y)).collect::<Vec<_>>().join(" "),
                p.slides.to_string(),
                p.length.tx(),
                p.edge_sounds.iter().map(hit_sound).collect::<Vec<_>>().join(" "),
                p.edge_sets
                    .iter()
                    .map(|s| format!("{}:{}", ho_set(&s.normal_set), ho_set(&s.addition_set)))
                    .collect::<Vec<_>>()
                    .join(" "),
            ]
            .join("/"),
        ),
        HitObjectParams::Spinner { end_time } => ("spinner", end_time.tx()),
        HitObjectParams::OsuManiaHold { end_time } => ("hold", end_time.tx()),
        _ => ("?", String::new()),
    };
    [
        kind.to_string(),
        h.position.x.tx(),
        h.position.y.tx(),
        h.time.tx(),
        yn(h.new_combo).to_string(),
        h.combo_skip_count.get().to_string(),
        hit_sound(&h.hitsound),
        hit_sample(&h.hitsample),
        params,
    ]
    .join("|")
}
pub fn hitobjects(h: &HitObjects) -> String {
    h.0.iter().map(hit_object).collect::<Vec<_>>().join("\n")
}

/* ------------------------------ events ---------------------------------- */
fn path(p: &FilePath) -> String {
    p.get().to_string_lossy().to_string()
}
fn pos(p: &Option<Position>) -> String {
    match p {
        None => "-".into(),
        Some(p) => format!("{};{}", p.x, p.y),
    }
}
fn ot(t: &Option<i32>) -> String {
    t.map_or("-".into(), |t| t.to_string())
}
fn decs(first: &[&Decimal], rest: &[Decimal]) -> String {
    first.iter().copied().chain(rest.iter()).map(|d| d.tx()).collect::<Vec<_>>().join(" ")
}
fn fields(c: &ContinuingFields<Decimal>) -> String {
    let (a, b) = c.start_values();
    let mut v = vec![a.tx(), b.tx()];
    for (a, b) in c.continuing_fields() {
        v.push(a.tx());
        if let Some(b) = b {
            v.push(b.tx());
        }
    }
    v.join(" ")
}
fn rgbs(c: &osu_file_parser::events::storyboard::cmds::Colours) -> String {
    let (a, b, d) = c.start_rgb();
    let mut v = vec![a.to_string(), b.to_string(), d.to_string()];
    for (a, b, d) in c.continuing_fields() {
        v.push(a.to_string());
        v.extend(b.map(|b| b.to_string()));
        v.extend(d.map(|b| b.to_string()));
    }
    v.join(" ")
}
pub fn trigger(t: &TriggerType) -> String {
    fn d<T: std::fmt::Debug>(x: &Option<T>) -> String {
        x.as_ref().map_or("-".into(), |x| format!("{x:?}"))
    }
    match t {
        TriggerType::Passing => "Passing".into(),
        TriggerType::Failing => "Failing".into(),
        TriggerType::HitSound { sample_set, additions_sample_set, addition, custom_sample_set } => format!(
            "HitSound/{}/{}/{}/{}",
            d(sample_set),
            d(additions_sample_set),
            d(addition),
            d(custom_sample_set)
        ),
        _ => "?".into(),
    }
}
pub fn command(c: &Command) -> String {
    use CommandProperties::*;
    let st = ot(&c.start_time);
    let h = |k: &str, e: &Easing, et: &Option<i32>, v: String| format!("{k}|{st}|{e:?}|{}|{v}", ot(et));
    match &c.properties {
        Fade { easing, end_time, start_opacity, continuing_opacities } => {
            h("F", easing, end_time, decs(&[start_opacity], continuing_opacities))
        }
        Move { easing, end_time, positions_xy } => h("M", easing, end_time, fields(positions_xy)),
        MoveX { easing, end_time, start_x, continuing_x } => h("MX", easing, end_time, decs(&[start_x], continuing_x)),
        MoveY { easing, end_time, start_y, continuing_y } => h("MY", easing, end_time, decs(&[start_y], continuing_y)),
        Scale { easing, end_time, start_scale, continuing_scales } => {
            h("S", easing, end_time, decs(&[start_scale], continuing_scales))
        }
        VectorScale { easing, end_time, scales_xy } => h("V", easing, end_time, fields(scales_xy)),
        Rotate { easing, end_time, start_rotation, continuing_rotations } => {
            h("R", easing, end_time, decs(&[start_rotation], continuing_rotations))
        }
        Colour { easing, end_time, colours } => h("C", easing, end_time, rgbs(colours)),
        Parameter { easing, end_time, parameter, continuing_parameters } => h(
            "P",
            easing,
            end_time,
            std::iter::once(parameter)
                .chain(continuing_parameters)
                .map(|p| format!("{p:?}"))
                .collect::<Vec<_>>()
                .join(" "),
        ),
        Loop { loop_count, .. } => format!("L|{st}|{loop_count}"),
        Trigger { trigger_type, end_time, group_number, .. } => {
            format!("T|{st}|{}|{}|{}", trigger(trigger_type), ot(end_time), ot(group_number))
        }
        _ => "?".into(),
    }
}
pub fn tree(cmds: &[Command], depth: usize, out: &mut Vec<String>) {
    for c in cmds {
        out.push(format!("+{depth}|{}", command(c)));
        if let CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } = &c.properties {
            tree(commands, depth + 1, out);
        }
    }
}
fn origin(o: &Origin) -> String {
    let n = match &o.type_ {
        Either::Left(t) => format!("{t:?}"),
        Either::Right(i) => i.to_string(),
    };
    format!("{n}/{}", yn(o.shorthand))
}
pub fn event(e: &Event, out: &mut Vec<String>) {
    let none: &[Command] = &[];
    let (s, cmds): (String, &[Command]) = match e {
        Event::Comment(c) => (format!("comment|{c}"), none),
        Event::Background(b) => {
            (format!("bg|{}|{}|{}", b.start_time, path(&b.file_name), pos(&b.position)), &b.commands)
        }
        Event::Video(b) => (format!("video|{}|{}|{}", b.start_time, path(&b.file_name), pos(&b.position)), &b.commands),
        Event::Break(b) => (format!("break|{}|{}", b.start_time, b.end_time), none),
        Event::ColourTransformation(c) => {
            (format!("colour|{}|{}|{}|{}", c.start_time, c.red, c.green, c.blue), none)
        }
        Event::SpriteLegacy(s) => (
            format!("sprite4|{:?}|{:?}|{}|{}", s.layer, s.origin, path(&s.file_name), pos(&s.position)),
            &s.commands,
        ),
        Event::AnimationLegacy(s) => (
            format!("anim5|{:?}|{:?}|{}|{}", s.layer, s.origin, path(&s.file_name), pos(&s.position)),
            &s.commands,
        ),
        Event::SampleLegacy(s) => (
            format!(
                "sample6|{}|{:?}|{}|{}",
                s.time,
                s.layer,
                path(&s.file_name),
                s.volume.map_or("-".to_string(), |v| v.get().to_string())
            ),
            &s.commands,
        ),
        Event::StoryboardObject(o) => {
            let p = pos(&Some(o.position.clone()));
            let s = match &o.object_type {
                ObjectType::Sprite(s) => {
                    format!("Sprite|{:?}|{}|{}|{p}", o.layer, origin(&o.origin), path(&s.filepath))
                }
                ObjectType::Animation(a) => format!(
                    "Animation|{:?}|{}|{}|{p}|{}|{}|{:?}",
                    o.layer,
                    origin(&o.origin),
                    path(&a.filepath),
                    a.frame_count,
                    a.frame_delay,
                    a.loop_type
                ),
                _ => "?".into(),
            };
            (s, &o.commands)
        }
        Event::AudioSample(a) => {
            (format!("Sample|{}|{:?}|{}|{}", a.time, a.layer, path(&a.filepath), a.volume.get()), none)
        }
        _ => ("?".into(), none),
    };
    out.push(s);
    tree(cmds, 1, out);
}
pub fn events(e: &Events) -> String {
    let mut out = Vec::new();
    for e in &e.0 {
        event(e, &mut out);
    }
    out.join("\n")
}

pub fn osb(o: &Osb) -> String {
    let mut out = Vec::new();
    if let Some(v) = &o.variables {
        out.push("[Variables]".to_string());
        for v in v {
            out.push(format!("{}|{}", v.name, v.value));
        }
    }
    if let Some(e) = &o.events {
        out.push("[Events]".to_string());
        out.push(events(e));
    }
    out.join("\n")
}

pub fn doc(f: &OsuFile) -> String {
    let mut out = vec![format!("v{}", f.version)];
    let mut put = |n: &str, s: Option<String>| {
        if let Some(s) = s {
            out.push(format!("[{n}]\n{s}"));
        }
    };
    put("General", f.general.as_ref().map(general));
    put("Editor", f.editor.as_ref().map(editor));
    put("Metadata", f.metadata.as_ref().map(metadata));
    put("Difficulty", f.difficulty.as_ref().map(difficulty));
    put("Events", f.events.as_ref().map(events));
    put("TimingPoints", f.timing_points.as_ref().map(timing_points));
    put("Colours", f.colours.as_ref().map(colours));
    put("HitObjects", f.hitobjects.as_ref().map(hitobjects));
    out.join("\n")
}
