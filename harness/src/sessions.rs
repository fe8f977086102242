//! Whole sections and files under edits (the calls of module Sessions).
use crate::api::{R, V};
use crate::obs;
use osu_file_parser::osb::Osb;
use osu_file_parser::*;

macro_rules! copy {
    ($x:expr, $from:expr, $key:expr, $( $f:ident = $k:literal ),* $(,)?) => {
        match $key { $( $k => $x.$f = $from.$f, )* k => panic!("unknown key {k}") }
    };
}
macro_rules! section {
    ($name:ident, $ty:ident, $( $f:ident = $k:literal ),* $(,)?) => {
        fn $name(v: &mut V, op: &str, a: &[&str]) -> R {
            match (op, v) {
                ("new", v) => {
                    *v = V::$ty($ty::new());
                    String::new()
                }
                ("parse", v) => match $ty::from_str(a[0], a[1].parse().unwrap()) {
                    Ok(x) => {
                        *v = V::$ty(x.expect("a section"));
                        String::new()
                    }
                    Err(e) => format!("!{}", e.error()),
                },
                ("clear", V::$ty(x)) => {
                    copy!(x, $ty::new(), a[0], $( $f = $k ),*);
                    String::new()
                }
                ("set", V::$ty(x)) => {
                    let one = $ty::from_str(&format!("{}: {}", a[0], a[1]), a[2].parse().unwrap()).unwrap().unwrap();
                    copy!(x, one, a[0], $( $f = $k ),*);
                    String::new()
                }
                _ => panic!("unknown call {op}"),
            }
        }
    };
}
section!(general, General, audio_filename = "AudioFilename", audio_lead_in = "AudioLeadIn", audio_hash = "AudioHash", preview_time = "PreviewTime", countdown = "Countdown", sample_set = "SampleSet", stack_leniency = "StackLeniency", mode = "Mode", letterbox_in_breaks = "LetterboxInBreaks", story_fire_in_front = "StoryFireInFront", use_skin_sprites = "UseSkinSprites", always_show_playfield = "AlwaysShowPlayfield", overlay_position = "OverlayPosition", skin_preference = "SkinPreference", epilepsy_warning = "EpilepsyWarning", countdown_offset = "CountdownOffset", special_style = "SpecialStyle", widescreen_storyboard = "WidescreenStoryboard", samples_match_playback_rate = "SamplesMatchPlaybackRate", editor_bookmarks = "EditorBookmarks", editor_distance_spacing = "EditorDistanceSpacing");
section!(editor, Editor, bookmarks = "Bookmarks", distance_spacing = "DistanceSpacing", beat_divisor = "BeatDivisor", grid_size = "GridSize", timeline_zoom = "TimelineZoom", current_time = "CurrentTime");
section!(metadata, Metadata, title = "Title", title_unicode = "TitleUnicode", artist = "Artist", artist_unicode = "ArtistUnicode", creator = "Creator", version = "Version", source = "Source", tags = "Tags", beatmap_id = "BeatmapID", beatmap_set_id = "BeatmapSetID");
section!(difficulty, Difficulty, hp_drain_rate = "HPDrainRate", circle_size = "CircleSize", overall_difficulty = "OverallDifficulty", approach_rate = "ApproachRate", slider_multiplier = "SliderMultiplier", slider_tickrate = "SliderTickRate");

pub fn keys(ty: &str, v: &mut V, op: &str, a: &[&str]) -> R {
    match ty {
        "General" => general(v, op, a),
        "Editor" => editor(v, op, a),
        "Metadata" => metadata(v, op, a),
        _ => difficulty(v, op, a),
    }
}

fn done<T>(r: Result<T, String>) -> R {
    match r {
        Ok(_) => String::new(),
        Err(e) => format!("!{e}"),
    }
}
fn say<E: std::fmt::Display + std::fmt::Debug>(e: Error<E>) -> String {
    e.error().to_string()
}
fn set(f: &mut OsuFile, section: &str, t: &str, w: u8) -> Result<(), String> {
    match section {
        "General" => f.general = General::from_str(t, w).map_err(say)?,
        "Editor" => f.editor = Editor::from_str(t, w).map_err(say)?,
        "Metadata" => f.metadata = Metadata::from_str(t, w).map_err(say)?,
        "Difficulty" => f.difficulty = Difficulty::from_str(t, w).map_err(say)?,
        "Events" => f.events = <Events as VersionedFromStr>::from_str(t, w).map_err(say)?,
        "TimingPoints" => f.timing_points = <TimingPoints as VersionedFromStr>::from_str(t, w).map_err(say)?,
        "Colours" => f.colours = <Colours as VersionedFromStr>::from_str(t, w).map_err(say)?,
        _ => f.hitobjects = <HitObjects as VersionedFromStr>::from_str(t, w).map_err(say)?,
    }
    Ok(())
}
fn drop(f: &mut OsuFile, section: &str) {
    match section {
        "General" => f.general = None,
        "Editor" => f.editor = None,
        "Metadata" => f.metadata = None,
        "Difficulty" => f.difficulty = None,
        "Events" => f.events = None,
        "TimingPoints" => f.timing_points = None,
        "Colours" => f.colours = None,
        _ => f.hitobjects = None,
    }
}
pub fn file(v: &mut V, op: &str, a: &[&str]) -> R {
    match (op, v) {
        ("new", v) => {
            let f = OsuFile::new(a[0].parse().unwrap());
            assert!(f == OsuFile::default(f.version));
            *v = V::File(f);
            String::new()
        }
        ("parse", v) => done(a[0].parse::<OsuFile>().map_err(say).map(|f| *v = V::File(f))),
        ("version", V::File(f)) => {
            f.version = a[0].parse().unwrap();
            String::new()
        }
        ("set", V::File(f)) => done(set(f, a[0], a[1], a[2].parse().unwrap())),
        ("drop", V::File(f)) => {
            drop(f, a[0]);
            String::new()
        }
        ("droposb", V::File(f)) => {
            f.osb = None;
            String::new()
        }
        ("append", V::File(f)) => done(f.append_osb(a[0]).map_err(say)),
        ("reload", V::File(f)) => {
            let osb: Option<Osb> = f.osb.take();
            let r = f.to_string().parse::<OsuFile>().map_err(say).map(|g| *f = g);
            let r = if r.is_ok() && f.osb.is_some() { Err("a storyboard out of nowhere".into()) } else { r };
            f.osb = osb;
            done(r)
        }
        ("reloadosb", V::File(f)) => match f.osb_to_string() {
            None => "none".into(),
            Some(t) => done(f.append_osb(&t).map_err(say)),
        },
        _ => panic!("unknown call {op}"),
    }
}

const SHOWN: [u8; 5] = [3, 5, 6, 10, 14];
fn shown(first: String, write: impl Fn(u8) -> Option<String>) -> String {
    std::iter::once(first).chain(SHOWN.iter().map(|w| write(*w).unwrap_or("?".into()))).collect::<Vec<_>>().join("\n=\n")
}
pub fn observe(v: &V) -> String {
    match v {
        V::General(x) => shown(obs::general(x), |w| x.to_string(w)),
        V::Editor(x) => shown(obs::editor(x), |w| x.to_string(w)),
        V::Metadata(x) => shown(obs::metadata(x), |w| x.to_string(w)),
        V::Difficulty(x) => shown(obs::difficulty(x), |w| x.to_string(w)),
        V::File(f) => [
            obs::doc(f),
            f.osb.as_ref().map_or("no osb".into(), obs::osb),
            f.to_string(),
            f.osb_to_string().unwrap_or("-".into()),
        ]
        .join("\n=\n"),
        _ => unreachable!(),
    }
}
