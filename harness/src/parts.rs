//! Values below the level of a line (machine Parts).
use crate::obs;
use osu_file_parser::events::storyboard::types::TriggerType;
use osu_file_parser::osb::Variable;
use osu_file_parser::*;
use osu_file_parser::{difficulty as di, editor as ed, general as ge, hitobjects as ho, metadata as me};
use serde_json::{json, Value};

struct Got {
    st: &'static str,
    msg: String,
    obs: String,
    w: Vec<String>,
    bad: Option<String>,
}
fn none_all() -> Vec<String> {
    vec!["-".to_string(); 12]
}
fn got<T, E: std::fmt::Display>(r: Result<Option<T>, E>, obs: impl Fn(&T) -> String, write: impl Fn(&T, u8) -> Option<String>) -> Got {
    let g = |st, msg, obs, w| Got { st, msg, obs, w, bad: None };
    match r {
        Err(e) => g("err", format!("{e}"), String::new(), none_all()),
        Ok(None) => g("none", String::new(), String::new(), none_all()),
        Ok(Some(x)) => g("ok", String::new(), obs(&x), (3..=14).map(|v| write(&x, v).unwrap_or("-".into())).collect()),
    }
}
/// an error that has no text of its own
struct Unit;
impl std::fmt::Display for Unit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("()")
    }
}
fn w<T: VersionedToString>(x: &T, v: u8) -> Option<String> {
    x.to_string(v)
}
fn text<T: VersionedFromStr + VersionedToString>(t: &str, v: u8, o: impl Fn(&T) -> String) -> Got
where
    T::Err: std::fmt::Display,
{
    got(T::from_str(t, v), o, w)
}
trait Plain {
    fn plain(&self) -> String;
}
impl Plain for i32 {
    fn plain(&self) -> String {
        format!("{self}")
    }
}
impl Plain for bool {
    fn plain(&self) -> String {
        (*self as u8).to_string()
    }
}
impl Plain for String {
    fn plain(&self) -> String {
        self.clone()
    }
}
impl Plain for std::path::PathBuf {
    fn plain(&self) -> String {
        self.display().to_string()
    }
}
impl Plain for Decimal {
    fn plain(&self) -> String {
        format!("{self}")
    }
}
impl Plain for Vec<i32> {
    fn plain(&self) -> String {
        self.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    }
}
impl Plain for Vec<String> {
    fn plain(&self) -> String {
        self.join("|")
    }
}
/// a key's value: read, taken out, and put in again
fn field<T, I>(r: Result<Option<T>, String>) -> Got
where
    T: VersionedToString + Clone + PartialEq + From<I>,
    I: From<T> + Plain,
{
    let bad = match &r {
        Ok(Some(x)) => {
            let again: T = I::from(x.clone()).into();
            if again == *x { None } else { Some("taking the value out and putting it in gives another value".to_string()) }
        }
        _ => None,
    };
    Got { bad, ..got(r, |x: &T| I::from(x.clone()).plain(), w) }
}
fn shown<T: VersionedFromStr>(t: &str, v: u8) -> Result<Option<T>, String>
where
    T::Err: std::fmt::Display,
{
    T::from_str(t, v).map_err(|e| format!("{e}"))
}
fn silent<T: VersionedFromStr<Err = ()>>(t: &str, v: u8) -> Result<Option<T>, String> {
    T::from_str(t, v).map_err(|_| format!("{Unit}"))
}

macro_rules! table {
    ($part:expr, $t:expr, $v:expr, $d:expr; $( $read:ident $key:literal $ty:ty, $inner:ty, $def:tt );* $(;)?) => {
        match $part {
            $( $key => if $d { table!(@d $def $ty, $inner, $v) } else { field::<$ty, $inner>($read::<$ty>($t, $v)) }, )*
            p => panic!("unknown part {p}"),
        }
    };
    (@d y $ty:ty, $inner:ty, $v:expr) => { field::<$ty, $inner>(Ok(<$ty as VersionedDefault>::default($v))) };
    (@d n $ty:ty, $inner:ty, $v:expr) => { panic!("no default") };
}

fn read(part: &str, t: &str, v: u8, d: bool) -> Got {
    use std::path::PathBuf;
    let sec = |x: Option<(String, Vec<Option<String>>)>| match x {
        None => Got { st: "none", msg: String::new(), obs: String::new(), w: none_all(), bad: None },
        Some((o, w)) => Got { st: "ok", msg: String::new(), obs: o, w: w.into_iter().map(|x| x.unwrap_or("-".into())).collect(), bad: None },
    };
    fn every<T: VersionedToString>(x: &T) -> Vec<Option<String>> {
        (3..=14).map(|v| w(x, v)).collect()
    }
    if d {
        match part {
            "Events" => return sec(<Events as VersionedDefault>::default(v).map(|x| (obs::events(&x), every(&x)))),
            "TimingPoints" => return sec(<TimingPoints as VersionedDefault>::default(v).map(|x| (obs::timing_points(&x), every(&x)))),
            "HitObjects" => return sec(<HitObjects as VersionedDefault>::default(v).map(|x| (obs::hitobjects(&x), every(&x)))),
            "Colours" => return sec(<Colours as VersionedDefault>::default(v).map(|x| (obs::colours(&x), every(&x)))),
            "HitSample" => {
                return sec(<ho::HitSample as VersionedDefault>::default(v).map(|x| (obs::hit_sample(&Some(x.clone())), every(&x))))
            }
            "new.General" => return sec(Some((obs::general(&General::new()), (3..=14).map(|v| General::new().to_string(v)).collect()))),
            "new.Editor" => return sec(Some((obs::editor(&Editor::new()), (3..=14).map(|v| Editor::new().to_string(v)).collect()))),
            "new.Metadata" => return sec(Some((obs::metadata(&Metadata::new()), (3..=14).map(|v| Metadata::new().to_string(v)).collect()))),
            "new.Difficulty" => {
                return sec(Some((obs::difficulty(&Difficulty::new()), (3..=14).map(|v| Difficulty::new().to_string(v)).collect())))
            }
            _ => {}
        }
    }
    match part {
        "rgb" => return text::<colours::Rgb>(t, v, |x| format!("{}|{}|{}", x.red, x.green, x.blue)),
        "edgeset" => {
            return text::<ho::EdgeSet>(t, v, |x| {
                let n = |s: &ho::SampleSet| <usize as VersionedFrom<ho::SampleSet>>::from(*s, v).unwrap();
                format!("{}:{}", n(&x.normal_set), n(&x.addition_set))
            })
        }
        "point" => return text::<ho::CurvePoint>(t, v, |x| format!("{}:{}", x.0.x, x.0.y)),
        "sample" => return text::<ho::HitSample>(t, v, |x| obs::hit_sample(&Some(x.clone()))),
        "trigger" => return text::<TriggerType>(t, v, obs::trigger),
        "variable" => return text::<Variable>(t, v, |x| format!("{}|{}", x.name, x.value)),
        _ => {}
    }
    table!(part, t, v, d;
        silent "General.AudioFilename" ge::AudioFilename, PathBuf, y;
        shown "General.AudioLeadIn" ge::AudioLeadIn, i32, y;
        silent "General.AudioHash" ge::AudioHash, String, y;
        shown "General.PreviewTime" ge::PreviewTime, i32, y;
        silent "General.StackLeniency" ge::StackLeniency, Decimal, y;
        shown "General.LetterboxInBreaks" ge::LetterboxInBreaks, bool, y;
        shown "General.StoryFireInFront" ge::StoryFireInFront, bool, y;
        shown "General.UseSkinSprites" ge::UseSkinSprites, bool, y;
        shown "General.AlwaysShowPlayfield" ge::AlwaysShowPlayfield, bool, y;
        silent "General.SkinPreference" ge::SkinPreference, String, y;
        shown "General.EpilepsyWarning" ge::EpilepsyWarning, bool, y;
        shown "General.CountdownOffset" ge::CountdownOffset, i32, y;
        shown "General.SpecialStyle" ge::SpecialStyle, bool, y;
        shown "General.WidescreenStoryboard" ge::WidescreenStoryboard, bool, y;
        shown "General.SamplesMatchPlaybackRate" ge::SamplesMatchPlaybackRate, bool, y;
        shown "General.EditorBookmarks" ge::EditorBookmarks, Vec<i32>, n;
        silent "General.EditorDistanceSpacing" ge::EditorDistanceSpacing, Decimal, n;
        shown "Editor.Bookmarks" ed::Bookmarks, Vec<i32>, n;
        silent "Editor.DistanceSpacing" ed::DistanceSpacing, Decimal, n;
        silent "Editor.BeatDivisor" ed::BeatDivisor, Decimal, n;
        shown "Editor.GridSize" ed::GridSize, i32, n;
        silent "Editor.TimelineZoom" ed::TimelineZoom, Decimal, n;
        shown "Editor.CurrentTime" ed::CurrentTime, i32, n;
        silent "Metadata.Title" me::Title, String, n;
        silent "Metadata.TitleUnicode" me::TitleUnicode, String, n;
        silent "Metadata.Artist" me::Artist, String, n;
        silent "Metadata.ArtistUnicode" me::ArtistUnicode, String, n;
        silent "Metadata.Creator" me::Creator, String, n;
        silent "Metadata.Version" me::Version, String, n;
        silent "Metadata.Source" me::Source, String, n;
        silent "Metadata.Tags" me::Tags, Vec<String>, y;
        shown "Metadata.BeatmapID" me::BeatmapID, i32, n;
        shown "Metadata.BeatmapSetID" me::BeatmapSetID, i32, n;
        silent "Difficulty.HPDrainRate" di::HPDrainRate, Decimal, n;
        silent "Difficulty.CircleSize" di::CircleSize, Decimal, n;
        silent "Difficulty.OverallDifficulty" di::OverallDifficulty, Decimal, n;
        silent "Difficulty.ApproachRate" di::ApproachRate, Decimal, n;
        silent "Difficulty.SliderMultiplier" di::SliderMultiplier, Decimal, n;
        silent "Difficulty.SliderTickRate" di::SliderTickRate, Decimal, n;
    )
}

pub fn check(x: &Value) -> Vec<(&'static str, String)> {
    let s = |k: &str| x[k].as_str().unwrap_or("");
    let g = std::panic::catch_unwind(|| read(s("part"), s("t"), x["v"].as_u64().unwrap() as u8, s("d") == "yes"));
    let g = match g {
        Ok(g) => g,
        Err(e) => return vec![("panic", crate::run::panic_text(e))],
    };
    let mut bad: Vec<(&'static str, String)> = vec![];
    if let Some(b) = g.bad {
        bad.push(("api", b));
    }
    for (k, a, b) in [("st", json!(g.st), &x["st"]), ("msg", json!(g.msg), &x["msg"]), ("obs", json!(g.obs), &x["obs"]), ("pr", json!(g.w), &x["w"])] {
        if a != *b {
            bad.push((k, format!("{k} is {a}, specified {b}")));
            break;
        }
    }
    bad
}
