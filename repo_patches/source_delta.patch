From d3ae6b38baf22332e307bf4c686a8a812dc3026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 01/31] fix: do not underflow the line counter on a section
 without content

---
 src/osu_file/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
-- 
2.43.0


From fb737ab66acf38097973750b0eab5e9f9a85fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 02/31] fix: an empty section does not swallow the section
 after it

---
 src/parsers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..4282922 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,11 +5,11 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{eof, map_res, peek, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, preceded, terminated, tuple},
-    IResult,
+    IResult, Parser,
 };
 
 use crate::osu_file::{Version, VersionedFromStr};
@@ -139,7 +139,12 @@ pub fn square_section<'a>(
     let section_close = tag("]");
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
-    let section_until = alt((take_until("\n["), rest));
+    // a header right after this one means that the section is empty
+    let section_until = alt((
+        peek(tag("[")).map(|_| ""),
+        take_until("\n["),
+        rest,
+    ));
 
     tuple((multispace0, section_name, multispace0, section_until))
 }
-- 
2.43.0


From d6fb83e438f03df4ba4f84b22cac33fd9fc974dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 03/31] fix: report invalid beatmap ids as errors instead of
 panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 578f25e957d3247a1eb563d84b746d05072435c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 04/31] fix: an event line that only starts like a known event
 is an unknown event, not a panic

---
 src/osu_file/events/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..9202940 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -4,7 +4,7 @@ pub mod normal_event;
 pub mod storyboard;
 
 use nom::branch::alt;
-use nom::combinator::{cut, eof, peek, success};
+use nom::combinator::{eof, peek, success};
 use nom::sequence::tuple;
 use nom::Parser;
 use nom::{bytes::complete::tag, combinator::rest, sequence::preceded};
@@ -62,7 +62,7 @@ impl Events {
         let background = || {
             peek(tuple((
                 tag::<_, _, nom::error::Error<_>>(normal_event::BACKGROUND_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Background)
         };
@@ -72,7 +72,7 @@ impl Events {
                     tag(normal_event::VIDEO_HEADER),
                     tag(normal_event::VIDEO_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Video)
         };
@@ -82,35 +82,35 @@ impl Events {
                     tag(normal_event::BREAK_HEADER),
                     tag(normal_event::BREAK_HEADER_LONG),
                 )),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::Break)
         };
         let colour_transformation = || {
             peek(tuple((
                 tag(normal_event::COLOUR_TRANSFORMATION_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::ColourTransformation)
         };
         let sprite_legacy = || {
             peek(tuple((
                 tag(normal_event::SPRITE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SpriteLegacy)
         };
         let animation_legacy = || {
             peek(tuple((
                 tag(normal_event::ANIMATION_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::AnimationLegacy)
         };
         let sample_legacy = || {
             peek(tuple((
                 tag(normal_event::SAMPLE_LEGACY_HEADER),
-                cut(alt((eof, comma()))),
+                alt((eof, comma())),
             )))
             .map(|_| NormalEventType::SampleLegacy)
         };
-- 
2.43.0


From 5a65f31bfeb01a4272993a3bf80edd84c71aa36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 05/31] fix: report an invalid animation loop type instead of
 panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From 57940791dd713e889f0f8cbc16aaf06fe6267644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 06/31] fix: do not panic on the frame names of an animation
 without a file name

---
 src/osu_file/events/storyboard/sprites.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..8d0c919 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -246,7 +246,10 @@ impl Animation {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = filepath
+            .file_name()
+            .map(|name| name.to_string_lossy().to_string())
+            .unwrap_or_default();
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From 410424520da16fdd326a894fdad9e865abf2192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 07/31] fix: read trigger sample indexes of several digits and
 reject fields after them

---
 src/osu_file/events/storyboard/types.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..7d6ea5f 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -41,7 +41,10 @@ impl VersionedFromStr for TriggerType {
                             let mut builder = String::with_capacity(256);
 
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                let starts_field = ch.is_uppercase()
+                                    || (ch.is_numeric() && !builder.ends_with(char::is_numeric));
+
+                                if i != 0 && starts_field {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
@@ -89,7 +92,7 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType),
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From cfb2ebf1793da6fe55e2cba1b08e27c68355f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 08/31] fix: do not underflow when changing continuing fields
 with less than two items

---
 src/osu_file/events/storyboard/cmds/types.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..159001a 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -44,7 +44,7 @@ impl<T> ContinuingFields<T> {
             if last_continuing.1.is_none() {
                 // find last 1 field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -64,7 +64,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if self.continuing.len().checked_sub(1) != Some(index) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -139,7 +139,7 @@ impl Colours {
             if last_continuing.1.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -151,7 +151,7 @@ impl Colours {
             } else if last_continuing.2.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.continuing.iter().rev().nth(1)
                 {
                     last_continuing_with_2.2.as_ref()
                 } else {
@@ -171,7 +171,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = self.continuing.len().checked_sub(1) == Some(index);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From ff89e873dea0a1521d8e1cd12b1906b3c0152ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 09/31] fix: pushing a colour fills in both left out components
 of the previous one

---
 src/osu_file/events/storyboard/cmds/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 159001a..7a814b4 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -148,7 +148,10 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+        }
+        if let Some(last_continuing) = self.continuing.last() {
+            if last_continuing.2.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_2) =
                     self.continuing.iter().rev().nth(1)
-- 
2.43.0


From eb712d09b12d67a720c06921a412adcdf7266650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 10/31] fix: write sample indexes above the signed range as
 they are

---
 src/osu_file/timingpoints/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..50cd1d9 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -189,8 +189,13 @@ impl VersionedFrom<SampleIndex> for Integer {
 }
 
 impl VersionedToString for SampleIndex {
-    fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+    fn to_string(&self, _: Version) -> Option<String> {
+        let index = match self {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(sample_index) => sample_index.get(),
+        };
+
+        Some(index.to_string())
     }
 }
 
-- 
2.43.0


From 8a72fb856d628edb34e86028e354471ea58dd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 11/31] fix: no panic on the bpm or velocity of a beat length
 they cannot be calculated from

---
 src/osu_file/timingpoints/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..d5f7257 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal that the result can be calculated from.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)
+                            .and_then(|bpm| bpm.checked_mul(dec!(60000))),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal that the result can be calculated from.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -178,7 +180,7 @@ impl TimingPoint {
                 } else {
                     match self.beat_length.get() {
                         Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
+                            rust_decimal::Decimal::ONE.checked_div(value / dec!(-100))
                         }
                         Either::Right(_) => None,
                     }
-- 
2.43.0


From 79cb691d6c074fa111dc340afd853454bb749c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 12/31] fix: no overflow panic when old versions offset times
 at the ends of the number range

---
 src/osu_file/events/normal_event/mod.rs     |  2 +-
 src/osu_file/events/normal_event/parsers.rs | 14 +++++------
 src/osu_file/hitobjects/mod.rs              | 27 ++++++++++++---------
 src/osu_file/timingpoints/mod.rs            |  9 ++++---
 src/osu_file/types.rs                       | 11 +++++++++
 5 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/osu_file/events/normal_event/mod.rs b/src/osu_file/events/normal_event/mod.rs
index c77e49d..930032f 100644
--- a/src/osu_file/events/normal_event/mod.rs
+++ b/src/osu_file/events/normal_event/mod.rs
@@ -36,7 +36,7 @@ fn position_str(position: &Option<Position>) -> String {
 
 fn time_to_string(time: Integer, version: Version) -> String {
     let time = if (3..=4).contains(&version) {
-        time - OLD_VERSION_TIME_OFFSET
+        time.saturating_sub(OLD_VERSION_TIME_OFFSET)
     } else {
         time
     };
diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..ce166cd 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -201,9 +201,7 @@ impl VersionedFromStr for HitObject {
             // version 3 has a slight time delay of 24ms
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
+                    t.add_offset(OLD_VERSION_TIME_OFFSET);
                 }
 
                 t
@@ -379,9 +377,7 @@ impl VersionedFromStr for HitObject {
                 )
                 .map(|mut t: Decimal| {
                     if (3..=4).contains(&version) {
-                        if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
-                        }
+                        t.add_offset(OLD_VERSION_TIME_OFFSET);
                     }
 
                     t
@@ -420,9 +416,7 @@ impl VersionedFromStr for HitObject {
             )
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
+                    t.add_offset(OLD_VERSION_TIME_OFFSET);
                 }
 
                 t
@@ -459,7 +453,10 @@ impl VersionedToString for HitObject {
             self.position.y.to_string(),
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value
+                        .checked_sub(OLD_VERSION_TIME_OFFSET)
+                        .unwrap_or(*value)
+                        .to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
@@ -525,7 +522,10 @@ impl VersionedToString for HitObject {
             HitObjectParams::Spinner { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value
+                            .checked_sub(OLD_VERSION_TIME_OFFSET)
+                            .unwrap_or(*value)
+                            .to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
@@ -535,7 +535,10 @@ impl VersionedToString for HitObject {
             HitObjectParams::OsuManiaHold { end_time } => {
                 properties.push(if (3..=4).contains(&version) {
                     match end_time.get() {
-                        Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                        Either::Left(value) => value
+                            .checked_sub(OLD_VERSION_TIME_OFFSET)
+                            .unwrap_or(*value)
+                            .to_string(),
                         Either::Right(value) => value.to_string(),
                     }
                 } else {
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index d5f7257..58a94d0 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -288,9 +288,7 @@ impl VersionedFromStr for TimingPoint {
             )
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
+                    t.add_offset(OLD_VERSION_TIME_OFFSET);
                 }
 
                 t
@@ -450,7 +448,10 @@ impl VersionedToString for TimingPoint {
         let mut fields = vec![
             if (3..=4).contains(&version) {
                 match self.time.get() {
-                    Either::Left(value) => (value - OLD_VERSION_TIME_OFFSET).to_string(),
+                    Either::Left(value) => value
+                        .checked_sub(OLD_VERSION_TIME_OFFSET)
+                        .unwrap_or(*value)
+                        .to_string(),
                     Either::Right(value) => value.to_string(),
                 }
             } else {
diff --git a/src/osu_file/types.rs b/src/osu_file/types.rs
index 7463831..1777ead 100644
--- a/src/osu_file/types.rs
+++ b/src/osu_file/types.rs
@@ -297,6 +297,17 @@ impl Decimal {
         Ok(())
     }
 
+    /// Adds `offset` to the value if it's a `rust_decimal::Decimal`.
+    /// - If the result can't be represented, the value will be kept as a `String` which is written back as is.
+    pub(crate) fn add_offset(&mut self, offset: rust_decimal::Decimal) {
+        if let Either::Left(value) = &self.0 {
+            self.0 = match value.checked_add(offset) {
+                Some(value) => Either::Left(value),
+                None => Either::Right(value.to_string()),
+            };
+        }
+    }
+
     pub fn get(&self) -> &Either<rust_decimal::Decimal, String> {
         &self.0
     }
-- 
2.43.0


From eb04cbcdc526dd820250f6f99433f44592f882fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 13/31] fix: indentation is not a line of its own in error
 locations

---
 src/helper/macros.rs    | 4 ++--
 src/osu_file/mod.rs     | 6 +++---
 src/osu_file/osb/mod.rs | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..8f9f4dd 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -126,7 +126,7 @@ macro_rules! general_section_inner {
 
                 if !s.trim().is_empty() {
                     // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
+                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.matches('\n').count()).sum() };
 
                     return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
                 }
@@ -148,7 +148,7 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += ws_2.matches('\n').count();
                     parsed_fields.push(name);
                 }
 
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..e160004 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -246,17 +246,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = trailing_ws.matches('\n').count() + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "General" => {
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..49afefc 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -62,14 +62,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += ws.matches('\n').count();
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += ws2.matches('\n').count();
 
             match section_name {
                 "Variables" => {
-- 
2.43.0


From 1a79679e0b4f1022c25171380952085d4ea20649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 14/31] fix: count the lines above the version line in all
 error locations

---
 src/osu_file/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index e160004..76c2101 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -174,7 +174,13 @@ impl FromStr for OsuFile {
         );
         let version_number = map_res(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.parse());
 
-        let (s, (trailing_ws, version)) = match tuple((
+        let leading_lines = s
+            .chars()
+            .take_while(|c| [' ', '\t', '\r', '\n'].contains(c))
+            .filter(|c| *c == '\n')
+            .count();
+
+        let (s, (_, version)) = match tuple((
             multispace0,
             preceded(version_text, version_number),
         ))(s)
@@ -195,12 +201,12 @@ impl FromStr for OsuFile {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(Error::new(err, leading_lines));
             }
         };
 
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(ParseError::InvalidFileVersion, leading_lines));
         }
 
         let pre_section_count = s
@@ -222,7 +228,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, leading_lines + i));
         }
 
         let s = s
@@ -246,7 +252,7 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.matches('\n').count() + pre_section_count;
+        let mut line_number = leading_lines + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
             line_number += ws.matches('\n').count();
-- 
2.43.0


From 51813a7a8b96f23a04ac0819f2e785c2593bec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 15/31] fix: a comment above the sections may end with a
 bracket

---
 src/osu_file/mod.rs     | 2 +-
 src/osu_file/osb/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 76c2101..f54ffa1 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -213,7 +213,7 @@ impl FromStr for OsuFile {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || !s.starts_with('[') && !s.ends_with(']')
             })
             .count();
 
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 49afefc..c96fdca 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -28,7 +28,7 @@ impl VersionedFromStr for Osb {
             .lines()
             .take_while(|s| {
                 let s = s.trim();
-                !s.trim().starts_with('[') && !s.trim().ends_with(']')
+                s.starts_with("//") || !s.starts_with('[') && !s.ends_with(']')
             })
             .count();
 
-- 
2.43.0


From 0f1b0ecd0ea90eef6339e621a0076c15cd74c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 16/31] fix: reject section headers without a bracket instead
 of dropping the rest of the file

---
 src/osu_file/mod.rs     | 16 +++++++++++++++-
 src/osu_file/osb/mod.rs | 10 +++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index f54ffa1..b3d0486 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -237,7 +237,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unread, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -310,6 +310,20 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // a section header that isn't closed or opened stops the reading of sections
+        let header = unread.trim_start();
+        if let Some(line) = header.lines().next() {
+            line_number += unread[..unread.len() - header.len()].matches('\n').count();
+
+            let line = line.trim_end();
+            let err = match line.strip_prefix('[') {
+                Some(name) => ParseError::SectionNameNoCloseBracket(name.to_string()),
+                None => ParseError::SectionNameNoOpenBracket(line.to_string()),
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(OsuFile {
             version,
             general,
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index c96fdca..5a94f9c 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -54,7 +54,7 @@ impl VersionedFromStr for Osb {
 
         // we get sections
         // only valid sections currently are [Variables] [Events]
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (unread, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(2);
         let mut line_number = pre_section_count;
@@ -105,6 +105,14 @@ impl VersionedFromStr for Osb {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // a section header that isn't closed or opened stops the reading of sections
+        let header = unread.trim_start();
+        if !header.is_empty() {
+            line_number += unread[..unread.len() - header.len()].matches('\n').count();
+
+            return Err(Error::new(ParseError::UnknownSection, line_number));
+        }
+
         Ok(Some(Osb { events, variables }))
     }
 }
-- 
2.43.0


From 83201c4a13cfa616981556e1bbb732ed1b7bb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 17/31] fix: only write a variable in a command where it reads
 back as the same command

---
 src/osu_file/events/storyboard/cmds/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..5949ef2 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -74,15 +74,28 @@ impl Command {
         let end_time_to_string =
             |end_time: &Option<i32>| end_time.map_or("".to_string(), |t| t.to_string());
         let variable_replace = |header, cmd: String| {
-            let mut cmd = cmd;
+            // same as what happens to the line when parsing
+            let expand = |s: &str| {
+                variables
+                    .iter()
+                    .map(|variable| (format!("${}", variable.name), &variable.value))
+                    .filter(|(name, _)| s.contains(name))
+                    .fold(s.to_string(), |s, (name, value)| s.replace(&name, value))
+            };
+            let mut replaced = cmd.clone();
 
             for variable in variables {
-                if cmd.contains(&variable.value) {
-                    cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                if !variable.value.is_empty() && replaced.contains(&variable.value) {
+                    let with_name = replaced.replace(&variable.value, &format!("${}", variable.name));
+
+                    // names can clash with the values and names of other variables
+                    if expand(&with_name) == cmd {
+                        replaced = with_name;
+                    }
                 }
             }
 
-            format!("{header},{cmd}")
+            format!("{header},{replaced}")
         };
         let start_time = self.start_time.map_or(String::new(), |t| t.to_string());
 
-- 
2.43.0


From 8ff470b2a01721fec29735a59858bfa1b9a5919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 18/31] fix: name the right section in the metadata invalid key
 error

---
 src/osu_file/metadata/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/metadata/error.rs b/src/osu_file/metadata/error.rs
index a014604..1e17ce3 100644
--- a/src/osu_file/metadata/error.rs
+++ b/src/osu_file/metadata/error.rs
@@ -18,7 +18,7 @@ pub enum ParseError {
     #[error("Invalid colon set, expected format of `key: value`")]
     InvalidColonSet,
     /// Invalid key name was used.
-    #[error("The key doesn't exist in `General`")]
+    #[error("The key doesn't exist in `Metadata`")]
     InvalidKey,
 }
 
-- 
2.43.0


From 2d233d733bc9c7ec5c77cf84cbc19f0efac6ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 19/31] fix: spaces inside of values matter when comparing osu
 files

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6ed5bf4..f0c4f4c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -94,16 +94,19 @@ pub fn osu_str_trimmer(s: &str) -> String {
                 let line = line
                     .chars()
                     .filter(|c| {
-                        if !header && !value && *c == ':' {
+                        if header && *c == ':' {
                             header = false;
-                            value = true;
                             return true;
                         }
 
-                        if header && c.is_whitespace() {
+                        if !value && c.is_whitespace() {
                             return false;
                         }
 
+                        if !header {
+                            value = true;
+                        }
+
                         true
                     })
                     .collect::<String>();
-- 
2.43.0


From 1b09462fc92a0e662507b974d2418754cbed2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 20/31] fix: name the second item in errors of colon separated
 pairs

---
 src/osu_file/hitobjects/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..0d71d3b 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -81,7 +81,7 @@ impl VersionedFromStr for EdgeSet {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_versioned_type(version),
             ),
         ))(s)?;
@@ -120,7 +120,7 @@ impl VersionedFromStr for CurvePoint {
                 context(ParseColonSetError::MissingSeparator.into(), tag(":")),
             ),
             context(
-                ParseColonSetError::InvalidFirstItem.into(),
+                ParseColonSetError::InvalidSecondItem.into(),
                 consume_rest_type(),
             ),
         ))(s)?;
-- 
2.43.0


From f84b2bdbd72fa05c866094498211d445f0bc40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 21/31] fix: write the inheritance of a timing point whenever
 its effects follow

---
 src/osu_file/timingpoints/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 58a94d0..ba2bc12 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -471,7 +471,7 @@ impl VersionedToString for TimingPoint {
                 Some(value) => fields.push((value as u8).to_string()),
                 None => {
                     if self.effects.is_some() {
-                        fields.push(String::new())
+                        fields.push((self.uninherited() as u8).to_string())
                     }
                 }
             }
-- 
2.43.0


From b43f098f8976b889f33c27c8dfe3bcd9acb7b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 22/31] fix: write effects of timing points for versions that
 require them

---
 src/osu_file/timingpoints/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index ba2bc12..e46a471 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -477,6 +477,9 @@ impl VersionedToString for TimingPoint {
             }
             if let Some(value) = self.effects {
                 fields.push(value.to_string(version).unwrap())
+            } else if version > 5 && self.uninherited.is_some() {
+                // effects can't be left out after uninherited since version 6
+                fields.push("0".to_string())
             }
         }
 
-- 
2.43.0


From 52fd9d2717098f4f67f1aef367e9548d353baa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 23/31] fix: reject fields after the beat length of version 3
 timing points

---
 src/osu_file/timingpoints/error.rs |  3 +++
 src/osu_file/timingpoints/mod.rs   | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/osu_file/timingpoints/error.rs b/src/osu_file/timingpoints/error.rs
index 81d40f5..30a335d 100644
--- a/src/osu_file/timingpoints/error.rs
+++ b/src/osu_file/timingpoints/error.rs
@@ -19,6 +19,9 @@ pub enum ParseTimingPointError {
     /// Missing `beat_length` field.
     #[error("Missing `beat_length` field")]
     MissingBeatLength,
+    /// Invalid `beat_length` value.
+    #[error("Invalid `beat_length` value")]
+    InvalidBeatLength,
     /// Missing `meter` field.
     #[error("Missing `meter` field")]
     MissingMeter,
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index e46a471..1ad0742 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -5,9 +5,9 @@ use crate::osu_file::types::Decimal;
 use either::Either;
 use nom::{
     branch::alt,
-    combinator::{cut, map_res, success, verify, rest},
+    combinator::{cut, eof, map_res, success, verify, rest},
     error::context,
-    sequence::{preceded, tuple},
+    sequence::{preceded, terminated, tuple},
     Parser,
 };
 use rust_decimal_macros::dec;
@@ -296,7 +296,14 @@ impl VersionedFromStr for TimingPoint {
             preceded(
                 context(ParseTimingPointError::MissingBeatLength.into(), comma()),
                 alt((
-                    preceded(verify(success(0), |_| version <= 3), consume_rest_type()).map(
+                    preceded(
+                        verify(success(0), |_| version <= 3),
+                        cut(context(
+                            ParseTimingPointError::InvalidBeatLength.into(),
+                            terminated(comma_field_type(), eof),
+                        )),
+                    )
+                    .map(
                         |beat_length| {
                             (
                                 beat_length,
-- 
2.43.0


From 6882e67a7581a5037f5b4b589c8eb69be7bdbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 24/31] fix: do not write a game mode to versions that do not
 have it

---
 src/osu_file/general/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/general/types.rs b/src/osu_file/general/types.rs
index 577ef7a..7b6632b 100644
--- a/src/osu_file/general/types.rs
+++ b/src/osu_file/general/types.rs
@@ -172,8 +172,13 @@ impl VersionedFromStr for Mode {
 }
 
 impl VersionedToString for Mode {
-    fn to_string(&self, _: Version) -> Option<String> {
-        Some((*self as usize).to_string())
+    fn to_string(&self, version: Version) -> Option<String> {
+        match version {
+            3..=4 if *self != Mode::Osu => None,
+            5..=6 if *self != Mode::Osu && *self != Mode::Taiko => None,
+            7..=9 if *self == Mode::Mania => None,
+            _ => Some((*self as usize).to_string()),
+        }
     }
 }
 
-- 
2.43.0


From b749972981f69653a1dd745a5185a52a01b5908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 25/31] fix: adding a command without indentation is an error
 instead of a panic

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 9202940..4131165 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -479,7 +479,7 @@ pub trait EventWithCommands {
                 };
             }
 
-            unreachable!();
+            Err(CommandPushError::InvalidIndentation(1, indentation))
         }
     }
 
-- 
2.43.0


From 328bb26251db4866d10789fbda6c6c6aa7bcacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 26/31] fix: no panic on a command that has non ASCII text in
 front of its first comma

---
 src/osu_file/events/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 4131165..ba2d7b2 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
-- 
2.43.0


From 34ca4c6eb90ef974fa6c8722db282ce666d766fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 27/31] fix: pushing a colour with only green left out fills in
 the green instead of writing the blue in its place

---
 src/osu_file/events/storyboard/cmds/types.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 7a814b4..a7e90ed 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -165,6 +165,18 @@ impl Colours {
                 self.continuing.last_mut().unwrap().2 = last_field.copied();
             }
         }
+        // a missing green can't be left out before a blue, it's the equivalent of having the previous green
+        let continuing_fields = match continuing_fields {
+            (red, None, Some(blue)) => {
+                let last_field = match self.continuing.last() {
+                    Some(last_continuing) => last_continuing.1,
+                    None => Some(self.start.1),
+                };
+
+                (red, last_field, Some(blue))
+            }
+            _ => continuing_fields,
+        };
         self.continuing.push(continuing_fields);
     }
 
-- 
2.43.0


From 945cf9b02d9169db7a1000d887b6277eef3fda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 28/31] fix: comparing texts ignores byte order marks next to
 white space

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f0c4f4c..0209e40 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,7 +55,8 @@ pub fn osu_str_trimmer(s: &str) -> String {
         };
 
     for line in s.lines() {
-        let line = line.trim().replace('\u{feff}', "");
+        let line = line.replace('\u{feff}', "");
+        let line = line.trim().to_string();
 
         if line.is_empty() {
             continue;
-- 
2.43.0


From b1789b84ce1883501f541103c2388e6cf7839f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 29/31] fix: count blank lines at the end of .osb sections in
 error locations

---
 src/osu_file/osb/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index 5a94f9c..6e739a0 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -102,7 +102,7 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += section.matches('\n').count();
         }
 
         // a section header that isn't closed or opened stops the reading of sections
-- 
2.43.0


From c0bf497889264aef5b6807fa2d369d04df0a95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 30/31] fix: derive bpm and slider velocity with one division

---
 src/osu_file/timingpoints/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 1ad0742..c09a8a6 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -97,12 +97,12 @@ impl TimingPoint {
     pub fn beat_duration_ms_to_bpm(
         beat_duration_ms: rust_decimal::Decimal,
     ) -> rust_decimal::Decimal {
-        rust_decimal::Decimal::ONE / beat_duration_ms * dec!(60000)
+        dec!(60000) / beat_duration_ms
     }
 
     /// Converts BPM to beat duration in milliseconds.
     pub fn bpm_to_beat_duration_ms(bpm: rust_decimal::Decimal) -> rust_decimal::Decimal {
-        rust_decimal::Decimal::ONE / (bpm / dec!(60000))
+        dec!(60000) / bpm
     }
 
     /// New instance of `TimingPoint` that is inherited.
@@ -115,7 +115,7 @@ impl TimingPoint {
         volume: Volume,
         effects: Effects,
     ) -> Self {
-        let beat_length = (rust_decimal::Decimal::ONE / slider_velocity_multiplier) * dec!(-100);
+        let beat_length = dec!(-100) / slider_velocity_multiplier;
 
         Self {
             time: time.into(),
@@ -158,9 +158,7 @@ impl TimingPoint {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => rust_decimal::Decimal::ONE
-                            .checked_div(*value)
-                            .and_then(|bpm| bpm.checked_mul(dec!(60000))),
+                        Either::Left(value) => dec!(60000).checked_div(*value),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -180,7 +178,7 @@ impl TimingPoint {
                 } else {
                     match self.beat_length.get() {
                         Either::Left(value) => {
-                            rust_decimal::Decimal::ONE.checked_div(value / dec!(-100))
+                            dec!(-100).checked_div(*value)
                         }
                         Either::Right(_) => None,
                     }
-- 
2.43.0


From d6d7be7c9bfd167e05549351ea0ba0087763edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 31/31] fix: keep a slider of version 3 readable when its
 position holds a | or a carriage return

---
 src/osu_file/hitobjects/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index ce166cd..90287b3 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -486,7 +486,14 @@ impl VersionedToString for HitObject {
 
                 if version == 3 {
                     let mut curve_points = curve_points.clone();
-                    curve_points.insert(0, CurvePoint(self.position.clone()));
+                    let mut first_point = self.position.clone();
+                    // a coordinate that isn't a number can contain what ends a curve point
+                    for coordinate in [&mut first_point.x, &mut first_point.y] {
+                        if coordinate.to_string().contains(&['|', '\r'][..]) {
+                            *coordinate = Decimal::default();
+                        }
+                    }
+                    curve_points.insert(0, CurvePoint(first_point));
                     properties_2.push(pipe_vec_to_string(&curve_points, version));
                 } else if has_curve_points {
                     properties_2.push(pipe_vec_to_string(curve_points, version));
-- 
2.43.0

