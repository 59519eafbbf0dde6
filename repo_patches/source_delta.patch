From 6c79e1eb9afa7fb740ff363b1f4a40093d305b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/40] fix: format coordinates with carries into minutes and
 degrees

Seconds rounding up to 60.000, minutes carried to 60 and degrees above 255
gave coordinates that do not denote the value.
---
 src/lib.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..c92b796 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,14 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, f64, char) {
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
+    // round once to the precision that is written, so that carries propagate correctly
+    let total_millis = (decimal.abs() * 3_600_000.0).round() as u64;
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    let degrees = total_millis / 3_600_000;
+    let minutes = total_millis / 60_000 % 60;
+    let seconds = (total_millis % 60_000) as f64 / 1000.0;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,21 +106,13 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.y, true);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.x, false);
+        format!("{hemi}{deg:03}.{min:02}.{sec:06.3}")
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From 18cbacd6ec4cce9b51a2b0a5754123cc90cba246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 02/40] fix: keep the records of all sections when a .sct
 section is repeated

---
 src/sct.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..c1c8a3d 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1,6 +1,9 @@
 use std::fmt::Formatter;
 use std::io;
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{hash_map::Entry, HashMap},
+    fmt::Display,
+};
 
 use geo::{Coord, Point};
 use itertools::Itertools as _;
@@ -504,6 +507,30 @@ enum Section {
     Unsupported,
 }
 
+impl Section {
+    /// Add the records of another section with the same heading
+    fn extend(&mut self, other: Section) {
+        match (self, other) {
+            (Section::Airport(records), Section::Airport(more)) => records.extend(more),
+            (Section::Fixes(records), Section::Fixes(more)) => records.extend(more),
+            (Section::HighAirways(records), Section::HighAirways(more))
+            | (Section::LowAirways(records), Section::LowAirways(more)) => records.extend(more),
+            (Section::NDBs(records), Section::NDBs(more)) => records.extend(more),
+            (Section::VORs(records), Section::VORs(more)) => records.extend(more),
+            (Section::Runways(records), Section::Runways(more)) => records.extend(more),
+            (Section::Sid(records), Section::Sid(more)) => records.extend(more),
+            (Section::Star(records), Section::Star(more)) => records.extend(more),
+            (Section::ArtccHigh(records), Section::ArtccHigh(more))
+            | (Section::Artcc(records), Section::Artcc(more))
+            | (Section::ArtccLow(records), Section::ArtccLow(more)) => records.extend(more),
+            (Section::Regions(records), Section::Regions(more)) => records.extend(more),
+            (Section::Labels(records), Section::Labels(more)) => records.extend(more),
+            (Section::Geo(records), Section::Geo(more)) => records.extend(more),
+            (section, other) => *section = other,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Eq, Hash)]
 enum SectionName {
     Info,
@@ -1073,7 +1100,18 @@ impl Sct {
                         Some(parse_independent_section(pair, &mut colours))
                     }
                 })
-                .collect::<HashMap<_, _>>()
+                .fold(
+                    HashMap::<_, Section>::new(),
+                    |mut sections, (name, section)| {
+                        match sections.entry(name) {
+                            Entry::Occupied(mut entry) => entry.get_mut().extend(section),
+                            Entry::Vacant(entry) => {
+                                entry.insert(section);
+                            }
+                        }
+                        sections
+                    },
+                )
         })?;
 
         let info = match sections.remove_entry(&SectionName::Info) {
-- 
2.43.0


From ae0ceecfe66769d5f4657b8e7ac333d5749c114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 03/40] fix: recognise the end of a .sct drawing name before
 any valid first line

A first line mixing a fix and a coordinate, followed by a comment, or at the
end of the file was swallowed into the name or rejected the whole file.
---
 src/pest/sct.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..103f95c 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -83,8 +83,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ sct_coordinate){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
-    | ((WHITESPACE+ ~ airway_fix){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ WHITESPACE* ~ COMMENT? ~ (NL | EOI))
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From e8efa1be5b79e8c665d52fd7a4a7f3009f1f1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 04/40] fix: do not accept coordinates whose degrees or minutes
 do not fit their type

---
 src/pest/asr.pest  | 4 ++--
 src/pest/base.pest | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pest/asr.pest b/src/pest/asr.pest
index 77bb8a9..1d8dcfb 100644
--- a/src/pest/asr.pest
+++ b/src/pest/asr.pest
@@ -119,8 +119,8 @@ value = @{ (!NL ~ ANY)* }
 multivalue = @{ (!(NL|":") ~ ANY)* }
 multivalue_backslash = @{ (!"\\" ~ ANY)* }
 
-deg = @{ ASCII_DIGIT+ }
-min = @{ ASCII_DIGIT+ }
+deg = @{ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 4} }
+min = @{ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 2} }
 sec = @{ DECIMAL }
 hemi = @{ "N" | "S" | "W" | "E" }
 
diff --git a/src/pest/base.pest b/src/pest/base.pest
index b4cd78e..63622ce 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -7,8 +7,8 @@ pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
 coordinate     =  { coord_part ~ ":" ~ coord_part }
 coord_part     =  { sct_coord_part | decimal }
 sct_coord_part = ${ hemi ~ deg ~ "." ~ min ~ "." ~ sec }
-deg            = @{ ASCII_DIGIT+ }
-min            = @{ ASCII_DIGIT+ }
+deg            = @{ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 4} }
+min            = @{ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 2} }
 sec            = @{ decimal }
 hemi           = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 direction      = @{ "<" | ">" }
-- 
2.43.0


From ff76d8b7c3005ce20ac364f82a00b5444239cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 05/40] fix: skip .sct runways and colours whose numbers do not
 fit instead of panicking

---
 src/sct.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index c1c8a3d..1db03fe 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -769,22 +769,26 @@ fn parse_vor(pair: Pair<Rule>) -> VOR {
     }
 }
 
-fn parse_runway(pair: Pair<Rule>) -> Runway {
+fn parse_runway(pair: Pair<Rule>) -> Option<Runway> {
     let mut runway = pair.into_inner();
     let designator1 = runway.next().unwrap().as_str().to_string();
     let designator2 = runway.next().unwrap().as_str().to_string();
-    let heading1 = runway.next().unwrap().as_str().parse().unwrap();
-    let heading2 = runway.next().unwrap().as_str().parse().unwrap();
+    let heading1 = runway.next().unwrap().as_str().parse();
+    let heading2 = runway.next().unwrap().as_str().parse();
+    let (Ok(heading1), Ok(heading2)) = (heading1, heading2) else {
+        warn!("Could not parse headings of runway {designator1}/{designator2}");
+        return None;
+    };
     let loc1 = parse_coordinate(runway.next().unwrap()).into();
     let loc2 = parse_coordinate(runway.next().unwrap()).into();
     let aerodrome = runway.next().unwrap().as_str().to_string();
 
-    Runway {
+    Some(Runway {
         designators: (designator1, designator2),
         headings: (heading1, heading2),
         location: (loc1, loc2),
         aerodrome,
-    }
+    })
 }
 
 fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -> SctInfo {
@@ -820,7 +824,14 @@ fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -
 fn parse_colour_definition(pair: Pair<Rule>) -> Option<(String, Colour)> {
     let mut pairs = pair.into_inner();
     let colour_name = pairs.next().unwrap().as_str().to_string();
-    match Colour::from_euroscope(pairs.next().unwrap().as_str().parse().unwrap()) {
+    let colour_num = match pairs.next().unwrap().as_str().parse() {
+        Ok(colour_num) => colour_num,
+        Err(e) => {
+            warn!("Could not parse colour {colour_name}: {e}");
+            return None;
+        }
+    };
+    match Colour::from_euroscope(colour_num) {
         Ok(colour_value) => Some((colour_name, colour_value)),
         Err(e) => {
             warn!("Could not parse colour {colour_name}: {e}");
@@ -917,7 +928,7 @@ fn parse_independent_section(
                             store_colour(colours, pair);
                             None
                         } else {
-                            Some(parse_runway(pair))
+                            parse_runway(pair)
                         }
                     })
                     .collect(),
-- 
2.43.0


From 41e5c76609d932eb0d6712e265cecac3a37016aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 06/40] fix: do not accept airway levels that do not fit their
 type

---
 src/pest/airway.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 605d6cb..5c4bfa8 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -16,7 +16,7 @@ no_neighbour = {
 }
 
 bool = _{ TRUE | FALSE }
-level = { ASCII_DIGIT+ }
+level = @{ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 9} }
 not_established = { "NESTB" | "" }
 
 designator = { (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
-- 
2.43.0


From ec069af46517cba65e90faae8be7a93093374e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 07/40] fix: do not panic on .ese levels and squawk codes that
 do not fit their type

---
 src/ese.rs        | 6 +++---
 src/pest/ese.pest | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..5b8c3cd 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -258,7 +258,7 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
 fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::level => Some(pair.as_str().parse().unwrap()),
         rule => unreachable!("{rule:?}"),
     }
 }
@@ -449,8 +449,8 @@ fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
     maybe_pair.and_then(|pair| match pair.as_rule() {
         Rule::squawk_range => {
             let mut squawk_range = pair.into_inner();
-            let squawk_begin = squawk_range.next().unwrap().as_str().parse().unwrap();
-            let squawk_end = squawk_range.next().unwrap().as_str().parse().unwrap();
+            let squawk_begin = squawk_range.next().unwrap().as_str().parse().ok()?;
+            let squawk_end = squawk_range.next().unwrap().as_str().parse().ok()?;
             Some((squawk_begin, squawk_end))
         }
         _ => None,
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index c2a029e..bed27eb 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -38,9 +38,10 @@ arr_rwy = _{ wildcard | designator }
 cop_def = _{ wildcard | colon_delimited_text }
 sctx = _{ colon_delimited_text }
 sctn = _{ colon_delimited_text }
-alt_clb = _{ wildcard | integer }
-alt_des = _{ wildcard | integer }
+alt_clb = _{ wildcard | level }
+alt_des = _{ wildcard | level }
 cop_description = _{ colon_delimited_text }
+level = @{ "+"? ~ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 9} }
 
 sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ NL ~ ((display | coord) ~ NL)* }
 display = { "DISPLAY:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text }
@@ -52,7 +53,7 @@ circle_sectorline = {
 
 display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ NL }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ integer ~ ":" ~ integer ~ NL ~ (sector_subsettings ~ NL)* }
+sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ level ~ ":" ~ level ~ NL ~ (sector_subsettings ~ NL)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
 owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
 altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
@@ -65,7 +66,7 @@ sct = _{ colon_delimited_text }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ integer ~ NL ~ (coord ~ NL)+ }
+msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ level ~ NL ~ (coord ~ NL)+ }
 
 sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
 star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
-- 
2.43.0


From a48bdf25e24f1c29756b6af043c4ec34c2825b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 08/40] fix: parse decimal coordinates in .ese files instead of
 panicking

---
 src/ese.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 5b8c3cd..f28aacd 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -397,8 +397,8 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+fn parse_deg_min_sec(pair: Pair<Rule>) -> DegMinSec {
+    let mut coordinate_part = pair.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = coordinate_part
@@ -414,12 +414,25 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     (sign, degrees, min, sec)
 }
 
+/// Decimal degrees of a single latitude or longitude
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::decimal => coordinate_part.as_str().parse().unwrap(),
+        Rule::sct_coord_part => {
+            let deg_min_sec = parse_deg_min_sec(coordinate_part);
+            Coord::from_deg_min_sec(deg_min_sec, DegMinSec::default()).y
+        }
+        rule => unreachable!("{rule:?}"),
+    }
+}
+
 // TODO generalise this and other similar into trait
 fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = parse_coordinate_part(coordinate.next().unwrap());
-    let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 enum SectorRule {
-- 
2.43.0


From deee47a3824fd39dded09bc2f10514ebf02d6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 09/40] fix: keep the first visibility point of an .ese
 position without squawk range

---
 src/ese.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index f28aacd..0777a95 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -458,16 +458,11 @@ fn parse_airspace(pair: Pair<Rule>) -> SectorRule {
     }
 }
 
-fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
-    maybe_pair.and_then(|pair| match pair.as_rule() {
-        Rule::squawk_range => {
-            let mut squawk_range = pair.into_inner();
-            let squawk_begin = squawk_range.next().unwrap().as_str().parse().ok()?;
-            let squawk_end = squawk_range.next().unwrap().as_str().parse().ok()?;
-            Some((squawk_begin, squawk_end))
-        }
-        _ => None,
-    })
+fn parse_squawk_range(pair: Pair<Rule>) -> Option<(u16, u16)> {
+    let mut squawk_range = pair.into_inner();
+    let squawk_begin = squawk_range.next().unwrap().as_str().parse().ok()?;
+    let squawk_end = squawk_range.next().unwrap().as_str().parse().ok()?;
+    Some((squawk_begin, squawk_end))
 }
 
 fn parse_position(pair: Pair<Rule>) -> (String, Position) {
@@ -480,8 +475,11 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    // the squawk range may be missing and directly followed by the visibility points
+    let squawk_range = position
+        .next_if(|pair| matches!(pair.as_rule(), Rule::squawk_range))
+        .and_then(parse_squawk_range);
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0


From aa953dda3494c7c8e93ee75123a68250a8174d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 10/40] fix: keep the content of all sections when an .ese
 section is repeated

---
 src/ese.rs | 98 ++++++++++++++++--------------------------------------
 1 file changed, 28 insertions(+), 70 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 0777a95..d658455 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -381,22 +381,6 @@ pub struct Ese {
 
 pub type EseResult = Result<Ese, EseError>;
 
-#[derive(Debug)]
-enum Section {
-    Positions(HashMap<String, Position>),
-    Sectors((HashMap<String, Sector>, Vec<Constraint>)),
-    SidsStars(Vec<SidStar>),
-    Unsupported,
-}
-
-#[derive(Debug, PartialEq, Eq, Hash)]
-enum SectionName {
-    Position,
-    Airspace,
-    SidsStars,
-    Unsupported,
-}
-
 fn parse_deg_min_sec(pair: Pair<Rule>) -> DegMinSec {
     let mut coordinate_part = pair.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
@@ -607,63 +591,37 @@ fn parse_sid_star(pair: Pair<Rule>) -> SidStar {
     }
 }
 
-fn parse_section(pair: Pair<Rule>) -> (SectionName, Section) {
-    match pair.as_rule() {
-        Rule::position_section => (
-            SectionName::Position,
-            Section::Positions(pair.into_inner().map(parse_position).collect()),
-        ),
-        Rule::airspace_section => (
-            SectionName::Airspace,
-            Section::Sectors({
-                combine_sectors_with_borders(
-                    pair.into_inner()
-                        .map(parse_airspace)
-                        // TODO combine sectors with lines
-                        .fold(
-                            (
-                                HashMap::new(),
-                                HashMap::new(),
-                                HashMap::new(),
-                                HashMap::new(),
-                                vec![],
-                            ),
-                            collect_sectors,
-                        ),
-                )
-            }),
-        ),
-        Rule::sidsstars_section => (
-            SectionName::SidsStars,
-            Section::SidsStars(pair.into_inner().map(parse_sid_star).collect()),
-        ),
-        _ => (SectionName::Unsupported, Section::Unsupported),
-    }
-}
-
 impl Ese {
     pub fn parse(content: &[u8]) -> EseResult {
         let unparsed_file = read_to_string(content)?;
-        let mut sections = EseParser::parse(Rule::ese, &unparsed_file).map(|mut pairs| {
-            pairs
-                .next()
-                .unwrap()
-                .into_inner()
-                .map(parse_section)
-                .collect::<HashMap<_, _>>()
-        })?;
-        let positions = match sections.remove_entry(&SectionName::Position) {
-            Some((_, Section::Positions(positions))) => positions,
-            _ => HashMap::new(),
-        };
-        let (sectors, constraints) = match sections.remove_entry(&SectionName::Airspace) {
-            Some((_, Section::Sectors(sectors))) => sectors,
-            _ => (HashMap::new(), vec![]),
-        };
-        let sids_stars = match sections.remove_entry(&SectionName::SidsStars) {
-            Some((_, Section::SidsStars(sids_stars))) => sids_stars,
-            _ => vec![],
-        };
+        let sections = EseParser::parse(Rule::ese, &unparsed_file)?
+            .next()
+            .unwrap()
+            .into_inner();
+
+        let mut positions = HashMap::new();
+        let mut airspace = SectorsLinesBorders::default();
+        let mut sids_stars = vec![];
+        // sections might occur several times, e.g. in combined files
+        for section in sections {
+            match section.as_rule() {
+                Rule::position_section => {
+                    positions.extend(section.into_inner().map(parse_position));
+                }
+                Rule::airspace_section => {
+                    airspace = section
+                        .into_inner()
+                        .map(parse_airspace)
+                        .fold(airspace, collect_sectors);
+                }
+                Rule::sidsstars_section => {
+                    sids_stars.extend(section.into_inner().map(parse_sid_star));
+                }
+                _ => (),
+            }
+        }
+        // TODO combine sectors with lines
+        let (sectors, constraints) = combine_sectors_with_borders(airspace);
 
         Ok(Ese {
             positions,
-- 
2.43.0


From ff055fb0505243868d94bc5115d3b349908e5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 11/40] fix: ignore .asr numbers that do not fit and read DMS
 window areas instead of panicking

---
 src/asr.rs | 57 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..0abac20 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -1,4 +1,6 @@
 use std::io;
+use std::num::ParseIntError;
+use std::str::FromStr;
 
 use geo::Coord;
 use pest::{iterators::Pair, Parser};
@@ -7,7 +9,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{DegMinSec, DegMinSecExt as _, Sign, TwoKeyMap};
 
 use super::read_to_string;
 
@@ -214,6 +216,31 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+/// Invalid numbers are ignored, i.e. the setting keeps its default
+fn parse_number<T: FromStr<Err = ParseIntError>>(setting: &str, pair: &Pair<Rule>) -> Option<T> {
+    pair.as_str()
+        .parse()
+        .inspect_err(|e| warn!("Could not parse {setting} {}: {e}", pair.as_str()))
+        .ok()
+}
+
+/// Decimal degrees of a single latitude or longitude
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::DECIMAL => coordinate_part.as_str().parse().unwrap(),
+        Rule::sct_coord_part => {
+            let mut deg_min_sec = coordinate_part.into_inner();
+            let sign = Sign::from(deg_min_sec.next().unwrap().as_str());
+            let deg = deg_min_sec.next().unwrap().as_str().parse().unwrap();
+            let min = deg_min_sec.next().unwrap().as_str().parse().unwrap();
+            let sec = deg_min_sec.next().unwrap().as_str().parse().unwrap();
+            Coord::from_deg_min_sec((sign, deg, min, sec), DegMinSec::default()).y
+        }
+        rule => unreachable!("{rule:?}"),
+    }
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -241,7 +268,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_number("ABOVE", &inner.next().unwrap())?;
             Some(if filter == 0 {
                 AsrData::Above(None)
             } else {
@@ -249,7 +276,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_number("BELOW", &inner.next().unwrap())?;
             Some(if filter == 0 {
                 AsrData::Below(None)
             } else {
@@ -257,19 +284,21 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
+            let leader: i16 = parse_number("LEADER", &inner.next().unwrap())?;
+            let length = u8::try_from(leader.unsigned_abs())
+                .inspect_err(|e| warn!("Could not parse LEADER {leader}: {e}"))
+                .ok()?;
             Some(if leader > 0 {
-                #[allow(clippy::cast_sign_loss)]
-                AsrData::Leader(Leader::Miles(leader as u8))
+                AsrData::Leader(Leader::Miles(length))
             } else {
-                AsrData::Leader(Leader::Minutes(leader.unsigned_abs()))
+                AsrData::Leader(Leader::Minutes(length))
             })
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => {
+            parse_number("HISTORY_DOTS", &inner.next().unwrap()).map(AsrData::HistoryDots)
+        }
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
@@ -290,10 +319,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coordinate_part(inner.next().unwrap());
+            let lng1 = parse_coordinate_part(inner.next().unwrap());
+            let lat2 = parse_coordinate_part(inner.next().unwrap());
+            let lng2 = parse_coordinate_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0


From 97241d1e1166f721e159bb8b24f32139156b7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 12/40] fix: do not panic on symbol and symbology numbers that
 do not fit their type

---
 src/adaptation/symbols.rs | 12 ++++++++++
 src/symbology.rs          | 50 +++++++++++++++++++++++----------------
 src/topsky/symbol.rs      | 29 ++++++++++-------------
 3 files changed, 53 insertions(+), 38 deletions(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..1ef8e2e 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -20,6 +20,18 @@ pub enum SymbolRule {
     Polygon(Vec<(f64, f64)>),
 }
 
+/// Angle within a full circle (-360°..360°) of a decimal integer of any length
+pub(crate) fn parse_angle(angle: &str) -> i64 {
+    let (sign, digits) = match angle.strip_prefix('-') {
+        Some(digits) => (-1, digits),
+        None => (1, angle),
+    };
+    sign * digits
+        .bytes()
+        .filter(u8::is_ascii_digit)
+        .fold(0, |acc, digit| (acc * 10 + i64::from(digit - b'0')) % 360)
+}
+
 type Symbol = Vec<SymbolRule>;
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct Symbols {
diff --git a/src/symbology.rs b/src/symbology.rs
index 4648226..6c74bcf 100644
--- a/src/symbology.rs
+++ b/src/symbology.rs
@@ -12,7 +12,10 @@ use tracing::warn;
 use crate::adaptation::line_styles::LineStyle;
 use crate::adaptation::{Alignment, HorizontalAlignment, VerticalAlignment};
 use crate::{
-    adaptation::{colours::Colour, symbols::SymbolRule},
+    adaptation::{
+        colours::Colour,
+        symbols::{parse_angle, SymbolRule},
+    },
     TwoKeyMap,
 };
 
@@ -117,13 +120,20 @@ impl Item {
         let mut item = pair.into_inner();
         let folder = item.next().unwrap().as_str().to_string();
         let name = item.next().unwrap().as_str().to_string();
-        let colour_str = item.next().unwrap().as_str();
-        let colour_num = colour_str.parse::<i32>().unwrap();
+        let colour_num = item.next().unwrap().as_str().parse::<i32>();
         let font_size_symbol_scale = item.next().unwrap().as_str().parse().unwrap();
         let line_style = parse_linestyle(&item.next().unwrap());
-        let line_weight = item.next().unwrap().as_str().parse().unwrap();
+        let line_weight = item.next().unwrap().as_str().parse();
         let text_alignment = parse_alignment(&item.next().unwrap());
 
+        let (colour_num, line_weight) = match (colour_num, line_weight) {
+            (Ok(colour_num), Ok(line_weight)) => (colour_num, line_weight),
+            (Err(e), _) | (_, Err(e)) => {
+                warn!("Could not parse item {folder}.{name}: {e}");
+                return None;
+            }
+        };
+
         match Colour::from_euroscope(colour_num) {
             Ok(colour) => Some(Self {
                 folder,
@@ -152,7 +162,13 @@ fn parse_point(pair: Pair<Rule>) -> (f64, f64) {
 // TODO similar to topsky symbol parsing, generalise?
 fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)> {
     let mut symbol = pair.into_inner();
-    let maybe_symbol_type = SymbolType::from_u32(symbol.next().unwrap().as_str().parse().unwrap());
+    let maybe_symbol_type = symbol
+        .next()
+        .unwrap()
+        .as_str()
+        .parse()
+        .ok()
+        .and_then(SymbolType::from_u32);
     let symbol_rules = symbol
         .map(|pair| {
             let ruletype = pair.as_rule();
@@ -164,20 +180,16 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                 Rule::arc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::Arc(pos, radius, start_angle, end_angle)
                 }
                 Rule::arc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::Arc(pos, radius_x, start_angle, end_angle)
                     } else {
@@ -187,20 +199,16 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                 Rule::fillarc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::FilledArc(pos, radius, start_angle, end_angle)
                 }
                 Rule::fillarc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::FilledArc(pos, radius_x, start_angle, end_angle)
                     } else {
diff --git a/src/topsky/symbol.rs b/src/topsky/symbol.rs
index bad01bc..2aa8f3e 100644
--- a/src/topsky/symbol.rs
+++ b/src/topsky/symbol.rs
@@ -6,7 +6,10 @@ use pest::{
 };
 use serde::Serialize;
 
-use crate::{adaptation::symbols::SymbolRule, read_to_string};
+use crate::{
+    adaptation::symbols::{parse_angle, SymbolRule},
+    read_to_string,
+};
 
 use super::{parse_point, Rule, TopskyError, TopskyParser};
 
@@ -28,20 +31,16 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                 Rule::arc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::Arc(pos, radius, start_angle, end_angle)
                 }
                 Rule::arc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::Arc(pos, radius_x, start_angle, end_angle)
                     } else {
@@ -51,20 +50,16 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                 Rule::fillarc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::FilledArc(pos, radius, start_angle, end_angle)
                 }
                 Rule::fillarc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::FilledArc(pos, radius_x, start_angle, end_angle)
                     } else {
-- 
2.43.0


From 47f52c23a7dd61ff9e64190c9c3b431792d44663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 13/40] fix: do not panic on mixed coordinates and invalid
 colours in topsky maps

---
 src/topsky/map/mod.rs | 76 ++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..0239f9b 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -22,46 +22,35 @@ use super::{
     Rule, TopskyError, TopskyParser,
 };
 
-enum CoordinatePart {
-    Decimal(f64),
-    DegMinSec(DegMinSec),
-}
-impl CoordinatePart {
-    fn parse(pair: Pair<Rule>) -> Self {
-        let coordinate_part = pair.into_inner().next().unwrap();
-        match coordinate_part.as_rule() {
-            Rule::decimal => Self::Decimal(coordinate_part.as_str().parse().unwrap()),
-            Rule::sct_coord_part => {
-                let mut sct_coord_part = coordinate_part.into_inner();
-                let hemi = sct_coord_part.next().unwrap().as_str();
-                let sign = Sign::from(hemi);
-                let degrees = sct_coord_part
-                    .next()
-                    .unwrap()
-                    .as_str()
-                    .parse::<u16>()
-                    .unwrap();
-                let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-                let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-
-                Self::DegMinSec((sign, degrees, min, sec))
-            }
-            rule => unreachable!("{rule:?}"),
+/// Decimal degrees of a single latitude or longitude
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::decimal => coordinate_part.as_str().parse().unwrap(),
+        Rule::sct_coord_part => {
+            let mut sct_coord_part = coordinate_part.into_inner();
+            let hemi = sct_coord_part.next().unwrap().as_str();
+            let sign = Sign::from(hemi);
+            let degrees = sct_coord_part
+                .next()
+                .unwrap()
+                .as_str()
+                .parse::<u16>()
+                .unwrap();
+            let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+            let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+
+            Coord::from_deg_min_sec((sign, degrees, min, sec), DegMinSec::default()).y
         }
+        rule => unreachable!("{rule:?}"),
     }
 }
 
 fn parse_coord(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = CoordinatePart::parse(coordinate.next().unwrap());
-    let lng = CoordinatePart::parse(coordinate.next().unwrap());
-    match (lat, lng) {
-        (CoordinatePart::Decimal(y), CoordinatePart::Decimal(x)) => Coord { x, y },
-        (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
-            Coord::from_deg_min_sec(lat, lng)
-        }
-        _ => panic!("Consistency!"),
-    }
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 impl Location {
@@ -376,13 +365,18 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
-            Some(ColourDef {
-                name,
-                colour: Colour::from_rgb(r, g, b),
-            })
+            let r = colour.next().unwrap().as_str().parse();
+            let g = colour.next().unwrap().as_str().parse();
+            let b = colour.next().unwrap().as_str().parse();
+            if let (Ok(r), Ok(g), Ok(b)) = (r, g, b) {
+                Some(ColourDef {
+                    name,
+                    colour: Colour::from_rgb(r, g, b),
+                })
+            } else {
+                warn!("Could not parse colour {name}");
+                None
+            }
         }
         Rule::EOI => None,
         rule => unreachable!("{rule:?}"),
-- 
2.43.0


From 530fe5cb8e003ba20c448c17f0e1bbf2501f0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 14/40] fix: split the names of topsky AUP and NOTAM
 activations

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From e44e00a6758445996bb80546a45357780b9ce189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 15/40] fix: report missing profile settings instead of
 panicking when loading an adaptation

---
 src/adaptation/mod.rs |  1 +
 src/prf.rs            | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/adaptation/mod.rs b/src/adaptation/mod.rs
index 73144f5..1d24a70 100644
--- a/src/adaptation/mod.rs
+++ b/src/adaptation/mod.rs
@@ -213,6 +213,7 @@ pub struct Adaptation {
 
 impl Adaptation {
     pub fn from_prf(prf: &Prf) -> AdaptationResult {
+        prf.check_required_settings()?;
         // TODO parallelise/asyncify where able
         let sct = Sct::parse(&fs_err::read(prf.sct_path())?)?;
         let ese = Ese::parse(&fs_err::read(prf.ese_path())?)?;
diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..8555d73 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -20,6 +20,8 @@ pub enum PrfError {
     FileRead(#[from] io::Error),
     #[error("failed to parse .prf file: {0}")]
     Parse(#[from] pest::error::Error<Rule>),
+    #[error("missing setting in .prf file: {0}")]
+    MissingSetting(&'static str),
 }
 
 #[derive(Parser)]
@@ -35,6 +37,28 @@ pub struct Prf {
 pub type PrfResult = Result<Prf, PrfError>;
 
 impl Prf {
+    const REQUIRED_SETTINGS: [&'static str; 7] = [
+        "sector",
+        "airways",
+        "airportcoords",
+        "airlines",
+        "aircraft",
+        "airports",
+        "SettingsfileSYMBOLOGY",
+    ];
+
+    /// All files needed to create an adaptation have to be configured
+    pub(crate) fn check_required_settings(&self) -> Result<(), PrfError> {
+        Self::REQUIRED_SETTINGS
+            .into_iter()
+            .find(|key| {
+                !self
+                    .settings
+                    .contains_key(&("Settings".to_string(), (*key).to_string()))
+            })
+            .map_or(Ok(()), |key| Err(PrfError::MissingSetting(key)))
+    }
+
     fn join_settings_path(&self, path: &str) -> PathBuf {
         let normalised_path = path.trim_end().replace('\\', "/");
         if let Some(rel_path) = normalised_path.strip_prefix('/') {
-- 
2.43.0


From d02c9954ba1beb8b4b9322cb145c2157bd66f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 16/40] fix: do not panic on waypoint names with digits outside
 ASCII

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fd5f74d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From a14531fafa57a998a4ae9a0dd5098a035c02bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 17/40] fix: find navigation elements among all of the same
 name

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fd5f74d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From 9431cbe3e0c946041350166b1098ca7c38363a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 18/40] fix: write lines without length to .sct files

---
 src/sct.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index 1db03fe..4cb25ff 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -267,7 +267,13 @@ impl ToEuroscope for Location {
 impl ToEuroscope for ColouredLines {
     fn to_euroscope(&self) -> String {
         let mut lines = self.lines.iter().flat_map(|line| {
-            line.points.iter().tuple_windows().map(|(start, end)| {
+            // a line without length consists of a single point
+            let single_point = match line.points.as_slice() {
+                [point] => Some((point, point)),
+                _ => None,
+            };
+            let segments = line.points.iter().tuple_windows().chain(single_point);
+            segments.map(|(start, end)| {
                 format!(
                     "{} {}{}",
                     start.to_euroscope(),
-- 
2.43.0


From 5554adc226fad9e1bac0814a3b8156e8e94f3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 19/40] fix: do not write an empty INFO section to .sct files

---
 src/sct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sct.rs b/src/sct.rs
index 4cb25ff..5fbde64 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -1221,7 +1221,10 @@ impl Sct {
 }
 impl Display for Sct {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        writeln!(f, "{}", self.info)?;
+        // an empty section would not be readable
+        if self.info != SctInfo::default() {
+            writeln!(f, "{}", self.info)?;
+        }
         writeln!(
             f,
             "{}\n",
-- 
2.43.0


From 8f1775b2a22cefc2c96ac21b88f839c24832429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 20/40] fix: read .prf values without their carriage return and
 accept empty ones

---
 src/pest/prf.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/prf.pest b/src/pest/prf.pest
index b2a7236..48ba53c 100644
--- a/src/pest/prf.pest
+++ b/src/pest/prf.pest
@@ -6,7 +6,7 @@ setting = {
 
 category = @{ LETTER+ }
 key = @{ (LETTER | ASCII_DIGIT | "_")+ }
-value = @{ (!"\n" ~ ANY)+ }
+value = @{ (!NEWLINE ~ ANY)* }
 
 NL = _{ NEWLINE+ }
 WHITESPACE = _{ " "| "\t" }
-- 
2.43.0


From 0986d5f8dbf38dde4486364b2913c7147352e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 21/40] fix: read the last line of .ese, airway and fix
 database files without line break

---
 src/pest/airway.pest |  2 +-
 src/pest/ese.pest    | 29 ++++++++++++++++-------------
 src/pest/isec.pest   |  2 +-
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index 5c4bfa8..b162933 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -3,7 +3,7 @@ airways = { SOI ~ NL? ~ airway+ ~ EOI}
 airway = {
   designator ~ "\t" ~ coord ~ "\t" ~ "14" ~ "\t" ~ designator ~ "\t" ~ airway_type
   ~ (no_neighbour | neighbour)
-  ~ (no_neighbour | neighbour) ~ NL
+  ~ (no_neighbour | neighbour) ~ (NL | &EOI)
 }
 
 airway_type = { "B" | "H" | "L" | "" }
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index bed27eb..d4b3955 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -7,14 +7,16 @@ section = _{
   | unparsed_section
 }
 
-line = _{ broken ~ NL }
+line = _{ (broken ~ NL) | (unterminated ~ &EOI) }
+// the last line might not be terminated
+eol = _{ NL | &EOI }
 
 section_header = _{ "[" ~ header_name ~ "]" }
 
-position_section = { "[POSITIONS]" ~ NL ~ (position ~ NL)* }
-airspace_section = { "[AIRSPACE]" ~ NL ~ (sectorline | circle_sectorline | display_sectorline | sector | cop | fir_cop | msaw)* }
-sidsstars_section = { "[SIDSSTARS]" ~ NL ~ ((sid | star) ~ NL)* }
-unparsed_section = { (section_header ~ NL ~ line*) }
+position_section = { "[POSITIONS]" ~ eol ~ (position ~ eol)* }
+airspace_section = { "[AIRSPACE]" ~ eol ~ (sectorline | circle_sectorline | display_sectorline | sector | cop | fir_cop | msaw)* }
+sidsstars_section = { "[SIDSSTARS]" ~ eol ~ ((sid | star) ~ eol)* }
+unparsed_section = { (section_header ~ eol ~ line*) }
 
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
@@ -25,11 +27,11 @@ squawk_range = { integer ~ ":" ~ integer }
 
 cop = {
   "COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
-  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ NL
+  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ eol
 }
 fir_cop = {
   "FIR_COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
-  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ NL
+  ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ eol
 }
 prev = _{ wildcard | colon_delimited_text }
 dep_rwy = _{ wildcard | designator }
@@ -43,17 +45,17 @@ alt_des = _{ wildcard | level }
 cop_description = _{ colon_delimited_text }
 level = @{ "+"? ~ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 9} }
 
-sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ NL ~ ((display | coord) ~ NL)* }
+sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ eol ~ ((display | coord) ~ eol)* }
 display = { "DISPLAY:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text }
 
 circle_sectorline = {
-  "CIRCLE_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ fix_designator ~ ":" ~ decimal ~ NL
-  ~ (display ~ NL)*
+  "CIRCLE_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ fix_designator ~ ":" ~ decimal ~ eol
+  ~ (display ~ eol)*
 }
 
-display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ NL }
+display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ eol }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ level ~ ":" ~ level ~ NL ~ (sector_subsettings ~ NL)* }
+sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ level ~ ":" ~ level ~ eol ~ (sector_subsettings ~ eol)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
 owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
 altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
@@ -66,7 +68,7 @@ sct = _{ colon_delimited_text }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ level ~ NL ~ (coord ~ NL)+ }
+msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ level ~ eol ~ (coord ~ eol)+ }
 
 sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
 star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
@@ -74,6 +76,7 @@ star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_d
 wildcard = { "*" }
 
 broken = @{ !("[") ~ (!NL ~ ANY)* }
+unterminated = @{ !("[") ~ (!NL ~ ANY)+ }
 
 coord = _{ "COORD:" ~ coordinate }
 
diff --git a/src/pest/isec.pest b/src/pest/isec.pest
index 9920c56..23f5b99 100644
--- a/src/pest/isec.pest
+++ b/src/pest/isec.pest
@@ -1,7 +1,7 @@
 wpts = { SOI ~ NL? ~ wpt+ ~ EOI}
 
 wpt = {
-  designator ~ coord ~ "15" ~ NL
+  designator ~ coord ~ "15" ~ (NL | &EOI)
 }
 
 designator = ${ (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
-- 
2.43.0


From 5cc1be592f872333d2a2b47d844b1cd98f39338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 22/40] fix: do not read comments behind the last field of .ese
 lines as part of it

---
 src/ese.rs        |  2 +-
 src/pest/ese.pest | 42 ++++++++++++++++++++++--------------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index d658455..0751305 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -250,7 +250,7 @@ impl Sector {
 fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::colon_delimited_text | Rule::designator => Some(pair.as_str().to_string()),
+        Rule::field | Rule::designator => Some(pair.as_str().to_string()),
         rule => unreachable!("{rule:?}"),
     }
 }
diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index d4b3955..7b4caec 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -19,10 +19,12 @@ sidsstars_section = { "[SIDSSTARS]" ~ eol ~ ((sid | star) ~ eol)* }
 unparsed_section = { (section_header ~ eol ~ line*) }
 
 position = {
-  colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
-  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ squawk_range? ~ ":"?
+  field ~ ":" ~ field ~ ":" ~ frequency ~ ":" ~ field ~ ":" ~ field ~ ":" ~ field ~ ":"
+  ~ field ~ ":" ~ field ~ ":" ~ field ~ ":" ~ squawk_range? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
+// like colon_delimited_text, but not including a comment at the end of the line
+field = @{ (!(NL | ":" | ((" " | "\t")* ~ ";")) ~ ANY)* }
 squawk_range = { integer ~ ":" ~ integer }
 
 cop = {
@@ -33,45 +35,45 @@ fir_cop = {
   "FIR_COPX:" ~ prev ~ ":" ~ dep_rwy ~ ":" ~ cop_def ~ ":" ~ after ~ ":" ~ arr_rwy ~ ":" ~ sctx ~ ":"
   ~ sctn ~ ":" ~ alt_clb ~ ":" ~ alt_des ~ ":" ~ cop_description ~ eol
 }
-prev = _{ wildcard | colon_delimited_text }
+prev = _{ wildcard | field }
 dep_rwy = _{ wildcard | designator }
-after = _{ wildcard | colon_delimited_text }
+after = _{ wildcard | field }
 arr_rwy = _{ wildcard | designator }
-cop_def = _{ wildcard | colon_delimited_text }
-sctx = _{ colon_delimited_text }
-sctn = _{ colon_delimited_text }
+cop_def = _{ wildcard | field }
+sctx = _{ field }
+sctn = _{ field }
 alt_clb = _{ wildcard | level }
 alt_des = _{ wildcard | level }
-cop_description = _{ colon_delimited_text }
+cop_description = _{ field }
 level = @{ "+"? ~ ("0" ~ &ASCII_DIGIT)* ~ ASCII_DIGIT{1, 9} }
 
-sectorline = { "SECTORLINE:" ~ colon_delimited_text ~ eol ~ ((display | coord) ~ eol)* }
-display = { "DISPLAY:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text }
+sectorline = { "SECTORLINE:" ~ field ~ eol ~ ((display | coord) ~ eol)* }
+display = { "DISPLAY:" ~ field ~ ":" ~ field ~ ":" ~ field }
 
 circle_sectorline = {
-  "CIRCLE_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ fix_designator ~ ":" ~ decimal ~ eol
+  "CIRCLE_SECTORLINE:" ~ field ~ ":" ~ fix_designator ~ ":" ~ decimal ~ eol
   ~ (display ~ eol)*
 }
 
-display_sectorline = { "DISPLAY_SECTORLINE:" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ eol }
+display_sectorline = { "DISPLAY_SECTORLINE:" ~ field ~ ":" ~ field ~ ":" ~ field ~ ":" ~ field ~ eol }
 
-sector = { "SECTOR:" ~ colon_delimited_text ~ ":" ~ level ~ ":" ~ level ~ eol ~ (sector_subsettings ~ eol)* }
+sector = { "SECTOR:" ~ field ~ ":" ~ level ~ ":" ~ level ~ eol ~ (sector_subsettings ~ eol)* }
 sector_subsettings = _{ owner | altowner | border | guest | active | depapt | arrapt }
-owner = { "OWNER" ~ (":" ~ colon_delimited_text)+ }
-altowner = { "ALTOWNER:" ~ colon_delimited_text ~ (":" ~ colon_delimited_text)+ }
-border = { "BORDER" ~ (":" ~ colon_delimited_text)+ }
+owner = { "OWNER" ~ (":" ~ field)+ }
+altowner = { "ALTOWNER:" ~ field ~ (":" ~ field)+ }
+border = { "BORDER" ~ (":" ~ field)+ }
 guest = { "GUEST" ~ ":" ~ sct ~ ":" ~ adep ~ ":" ~ ades  }
 active = { "ACTIVE:" ~ designator ~ ":" ~ designator }
 depapt = { "DEPAPT" ~ (":" ~ designator)+ }
 arrapt = { "ARRAPT" ~ (":" ~ designator)+ }
-sct = _{ colon_delimited_text }
+sct = _{ field }
 adep = _{ wildcard | designator }
 ades = _{ wildcard | designator }
 
-msaw = { "MSAW:" ~ colon_delimited_text ~ ":" ~ level ~ eol ~ (coord ~ eol)+ }
+msaw = { "MSAW:" ~ field ~ ":" ~ level ~ eol ~ (coord ~ eol)+ }
 
-sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
-star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ colon_delimited_text ~ ":" ~ route }
+sid = { "SID:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ field ~ ":" ~ route }
+star = { "STAR:" ~ designator ~ ":" ~ (runway_designator | none) ~ ":" ~ field ~ ":" ~ route }
 
 wildcard = { "*" }
 
-- 
2.43.0


From e908ddd6833acac909b990911d247c7166851ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 23/40] fix: accept four visibility points of .ese positions
 without squawk range

---
 src/pest/ese.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index 7b4caec..6913774 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -20,7 +20,7 @@ unparsed_section = { (section_header ~ eol ~ line*) }
 
 position = {
   field ~ ":" ~ field ~ ":" ~ frequency ~ ":" ~ field ~ ":" ~ field ~ ":" ~ field ~ ":"
-  ~ field ~ ":" ~ field ~ ":" ~ field ~ ":" ~ squawk_range? ~ ":"?
+  ~ field ~ ":" ~ field ~ ":" ~ field ~ ":" ~ squawk_range? ~ ":"{0, 2}
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
 // like colon_delimited_text, but not including a comment at the end of the line
-- 
2.43.0


From bdc85fee09e0e3f7ab2291be8aa6ddc18396572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 24/40] fix: start the outlines of volumes at their first
 border line

---
 src/adaptation/sectors.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..bfc24a6 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -77,20 +77,17 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
             })
         })
         .collect();
-    let (mut adj_list, edge_count, points) = lines.iter().fold(
+    let (mut adj_list, edge_count) = lines.iter().fold(
         (
             HashMap::<Coord<i64>, Vec<Coord<i64>>>::new(),
             HashMap::<Coord<i64>, usize>::new(),
-            HashSet::<Coord<i64>>::new(),
         ),
-        |(mut adj_list, mut edge_count, mut points), line| {
+        |(mut adj_list, mut edge_count), line| {
             adj_list.entry(line.start).or_default().push(line.end);
             adj_list.entry(line.end).or_default().push(line.start);
             *edge_count.entry(line.start).or_insert(0) += 1;
             *edge_count.entry(line.end).or_insert(0) += 1;
-            points.insert(line.start);
-            points.insert(line.end);
-            (adj_list, edge_count, points)
+            (adj_list, edge_count)
         },
     );
 
@@ -99,10 +96,11 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
-        let mut stack = vec![*start_point];
+    // always start at the first line, the same content has to result in the same ring
+    let line_ring = if let Some(start_point) = lines.first().map(|line| line.start) {
+        let mut stack = vec![start_point];
         let mut line_ring = vec![];
-        let mut current = *start_point;
+        let mut current = start_point;
 
         while !stack.is_empty() {
             if let Some(neighbours) = adj_list.get_mut(&current) {
-- 
2.43.0


From 85910809291b2db385e23013b3fd579948fb2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 25/40] fix: name sectors after the first of their volumes by
 id

---
 src/adaptation/sectors.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index bfc24a6..8390f85 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -5,6 +5,7 @@ use std::{
 
 use bevy_derive::Deref;
 use geo::{Coord, Line, LineString, Polygon, Winding};
+use itertools::Itertools as _;
 use multimap::MultiMap;
 use serde::{Deserialize, Serialize};
 use tracing::warn;
@@ -137,7 +138,9 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
 
 impl Sectors {
     pub fn from_ese(ese: &Ese) -> (HashMap<String, Volume>, Sectors) {
-        let (by_priorities_filters, volumes) = ese.sectors.iter().fold(
+        // in a stable order, sectors are named after their first volume
+        let ordered = ese.sectors.iter().sorted_by_key(|(id, _)| *id);
+        let (by_priorities_filters, volumes) = ordered.fold(
             (TwoKeyMultiMap(MultiMap::new()), HashMap::new()),
             |(mut sectors, mut volumes), (id, sector)| {
                 if let Some(polygon) = polygon_from_ese(sector) {
-- 
2.43.0


From c54ce56cae22ef871afa35513cef9fe821a16b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:36 +0000
Subject: [PATCH 26/40] fix: keys of coordination agreements are unique

Names containing the separator, or a literal * as a name, gave the key of
another agreement, which then replaced it when loading.
---
 src/ese.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 0751305..759d86a 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -339,8 +339,16 @@ impl Constraint {
     /// This allows indexing in `HashMap`, to be able to override easily.
     #[must_use]
     pub fn key(&self) -> String {
-        fn opt(f: Option<&str>) -> &str {
-            f.unwrap_or("*")
+        // fields may contain the separator or be the wildcard's text
+        fn escape(f: &str) -> String {
+            f.replace('\\', r"\\").replace('#', r"\#")
+        }
+        fn opt(f: Option<&str>) -> String {
+            match f {
+                None => "*".to_string(),
+                Some("*") => r"\*".to_string(),
+                Some(f) => escape(f),
+            }
         }
         format!(
             "{}#{}#{}#{}#{}#{}#{}",
@@ -349,8 +357,8 @@ impl Constraint {
             opt(self.subsequent_fix.as_deref()),
             opt(self.arrival_runway.as_deref()),
             opt(self.fix.as_deref()),
-            self.exit_sector,
-            self.entry_sector,
+            escape(&self.exit_sector),
+            escape(&self.entry_sector),
         )
     }
 }
-- 
2.43.0


From aea4b60122e32c5acb572be16e176860291c9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 27/40] fix: airports of the navigation data keep their runways

Runways of the sector file whose aerodrome only the navigation data knows
were dropped, and their thresholds could not be used as waypoints.
---
 src/adaptation/locations/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 6dfc1de..d407fef 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -203,11 +203,16 @@ impl Locations {
                     }
                     Entry::Vacant(entry) => {
                         entry.insert(Airport {
+                            runways: sct
+                                .runways
+                                .iter()
+                                .filter(|r| r.aerodrome == designator)
+                                .cloned()
+                                .collect(),
                             designator,
                             coordinate: navdata_ap.location,
                             name: Some(navdata_ap.name),
                             country: None,
-                            runways: vec![],
                         });
                     }
                 }
-- 
2.43.0


From 345edc08d93b5b5e19a41e36594bd4544af1f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:46 +0000
Subject: [PATCH 28/40] fix: the plugin folders of a profile with several such
 plugins are the same at every load

The settings were searched in the order of a hash map.
---
 src/prf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prf.rs b/src/prf.rs
index 8555d73..ab4f1d7 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -4,6 +4,7 @@ use std::ffi::OsStr;
 use std::io;
 use std::path::{Path, PathBuf};
 
+use itertools::Itertools as _;
 use pest::{iterators::Pair, Parser};
 use pest_derive::Parser;
 use serde::Serialize;
@@ -113,6 +114,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
@@ -130,6 +132,7 @@ impl Prf {
         self.settings
             .0
             .iter()
+            .sorted()
             .find_map(|(_, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-- 
2.43.0


From bdf551a0102631a3399d477ad5c14e1d535257ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 29/40] fix: names of high airways and symbols of VORs have
 their own settings

---
 src/adaptation/colours.rs | 2 +-
 src/adaptation/symbols.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 1ef8e2e..348bd3a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -202,7 +202,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From 142e98b4967148dad804d571cc355d89a5810dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 30/40] fix: topsky settings may start with a blank line or an
 indented setting

---
 src/pest/topsky_settings.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/topsky_settings.pest b/src/pest/topsky_settings.pest
index 1a2c671..d1867b6 100644
--- a/src/pest/topsky_settings.pest
+++ b/src/pest/topsky_settings.pest
@@ -1,4 +1,4 @@
-settings = { SOI? ~ ((SOI | NL) ~ setting)* ~ ((SOI | NL) ~ section)* ~ NL? ~ EOI}
+settings = { SOI ~ NL? ~ ((setting | section) ~ (NL ~ (setting | section))*)? ~ NL? ~ EOI }
 
 setting = _{
   (colour_setting | other_setting)
-- 
2.43.0


From 17c53fedb1936de8120cdf74dbb27a7917f1d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 31/40] fix: one-letter topsky texts do not include a comment
 after them

---
 src/pest/topsky.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/topsky.pest b/src/pest/topsky.pest
index fec6908..0abb4dd 100644
--- a/src/pest/topsky.pest
+++ b/src/pest/topsky.pest
@@ -101,7 +101,7 @@ maplinecoordinates = { coordinate ~ ":" ~ coordinate }
 maplinewpts        = { colon_delimited_text ~ ":" ~ colon_delimited_text }
 
 text         = { "TEXT" ~ ("/" ~ textalign_config)? ~ ":" ~ (coordinate | colon_delimited_text) ~ ":" ~ text_content }
-text_content = { (!NL ~ ANY)+ }
+text_content = @{ (!(NL | COMMENT) ~ ANY)+ }
 
 textalign        = { "TEXTALIGN:" ~ textalign_config }
 textalign_config = { horizontalalign? ~ verticalalign? }
-- 
2.43.0


From 1e3a3a5078a06509282cd8cd8a1050f9d9b30f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 32/40] fix: map lines do not bridge points that cannot be
 resolved

---
 src/adaptation/maps/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..2404dcb 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -126,17 +126,24 @@ impl MapGroup {
         }
     }
     fn add_topsky_lines(&mut self, lines: &[MapLine], locations: &Locations) {
-        self.lines.0.extend(lines.iter().map(|line| {
-            line.points
+        self.lines.0.extend(lines.iter().flat_map(|line| {
+            let coords = line
+                .points
                 .iter()
-                .filter_map(|loc| {
+                .map(|loc| {
                     let coord = locations.convert_location(loc);
                     if coord.is_none() {
                         warn!("Could not convert {:?}", loc);
                     }
                     coord
                 })
-                .collect()
+                .collect::<Vec<_>>();
+            // no line to or from a point that could not be converted
+            coords
+                .split(Option::is_none)
+                .filter(|points| !points.is_empty())
+                .map(|points| points.iter().copied().flatten().collect())
+                .collect::<Vec<_>>()
         }));
     }
     fn add_topsky_polygon(&mut self, coords: &[Location], locations: &Locations) {
-- 
2.43.0


From 8c132aaf62baa5e13fc9ede16c09aae36ddece21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 33/40] fix: a configuration change does not alter polygons
 drawn before it

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 2404dcb..c5a85ba 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From 68a7cd597a457d9593a71252324d9e1e7ab45783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 34/40] fix: line styles whose names differ only in case are
 the same at every load

---
 src/adaptation/line_styles.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/line_styles.rs b/src/adaptation/line_styles.rs
index 4c5ba16..a75d733 100644
--- a/src/adaptation/line_styles.rs
+++ b/src/adaptation/line_styles.rs
@@ -39,8 +39,11 @@ pub fn line_styles_from_topsky(topsky: &Option<Topsky>) -> HashMap<String, Optio
     topsky
         .as_ref()
         .map(|t| {
-            t.line_styles
-                .iter()
+            // names may only differ in case
+            let mut line_styles = t.line_styles.iter().collect::<Vec<_>>();
+            line_styles.sort_by_key(|(name, _)| *name);
+            line_styles
+                .into_iter()
                 .map(|(name, style)| {
                     (
                         name.to_uppercase(),
-- 
2.43.0


From ba83f68f7aa30c3c7251020773e3ce9874496cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:52 +0000
Subject: [PATCH 35/40] fix: airways of the sector file are drawn with their
 lines instead of as points

---
 src/adaptation/sct_items.rs | 61 ++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..56466b3 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -72,30 +72,28 @@ impl ColouredLines {
 }
 
 fn build_linestring(
-    point: Coord,
-    visited: HashSet<String>,
+    start: Coord,
+    visited: &mut HashSet<String>,
     adjacency: &MultiMap<String, Line>,
-) -> (LineString, std::collections::HashSet<String>) {
-    adjacency
+) -> LineString {
+    let mut path = vec![start];
+    let mut point = start;
+    while let Some(next_line) = adjacency
         .get_vec(&coord_hash(point))
         .and_then(|connected_lines| {
             connected_lines
                 .iter()
-                .find(|line| !visited.contains(&line_hash(**line)))
+                .find(|line| visited.insert(line_hash(**line)))
         })
-        .map(|next_line| {
-            let next_point = if next_line.start == point {
-                next_line.end
-            } else {
-                next_line.start
-            };
-            let mut tmp_visited = visited.clone();
-            tmp_visited.insert(line_hash(*next_line));
-            let (mut path, new_visited) = build_linestring(next_point, tmp_visited, adjacency);
-            path.0.insert(0, point);
-            (path, new_visited)
-        })
-        .unwrap_or((LineString::new(vec![point]), visited))
+    {
+        point = if coord_hash(next_line.start) == coord_hash(point) {
+            next_line.end
+        } else {
+            next_line.start
+        };
+        path.push(point);
+    }
+    LineString::new(path)
 }
 
 fn airway_to_multi_line_string(
@@ -109,7 +107,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
@@ -128,27 +126,14 @@ fn airway_to_multi_line_string(
         })
         .collect();
 
+    let mut visited = HashSet::new();
     lines
         .iter()
-        .fold(
-            (
-                MultiLineString::new(vec![]),
-                std::collections::HashSet::new(),
-            ),
-            |(mut acc, mut visited), line| {
-                if visited.contains(&line_hash(*line)) {
-                    (acc, visited)
-                } else {
-                    visited.insert(line_hash(*line));
-                    let (linestring, new_visited) =
-                        build_linestring(line.start, visited, &adjacency);
-                    acc.0.push(linestring);
-
-                    (acc, new_visited)
-                }
-            },
-        )
-        .0
+        .filter_map(|line| {
+            (!visited.contains(&line_hash(*line)))
+                .then(|| build_linestring(line.start, &mut visited, &adjacency))
+        })
+        .collect()
 }
 
 #[derive(Clone, Debug, Default, Serialize, Deserialize)]
-- 
2.43.0


From cd68f213a49ec4ca1cc82f9d096d9b2bc1f1880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:54 +0000
Subject: [PATCH 36/40] fix: drawings of the sector file do not bridge points
 that cannot be resolved

---
 src/adaptation/sct_items.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index 56466b3..f4fdded 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -42,21 +42,24 @@ impl ColouredLines {
         let lines: MultiLineString = line_group
             .lines
             .iter()
-            .filter_map(|loc_line| {
-                let line: LineString = loc_line
+            .flat_map(|loc_line| {
+                let points = loc_line
                     .points
                     .iter()
-                    .filter_map(|loc| {
+                    .map(|loc| {
                         let point = locations.convert_location(loc);
                         if point.is_none() {
                             warn!("Could not convert {:?} in .sct {typ} {name}", loc);
                         }
                         point
                     })
-                    .dedup()
-                    .collect();
-
-                (!line.is_empty()).then_some(line)
+                    .collect::<Vec<_>>();
+                // no line to or from a point that could not be converted
+                points
+                    .split(Option::is_none)
+                    .filter(|points| !points.is_empty())
+                    .map(|points| points.iter().copied().flatten().dedup().collect())
+                    .collect::<Vec<LineString>>()
             })
             .collect();
 
-- 
2.43.0


From 2a1adbfddc974b6cbda9fedd9d9dbfd48abcdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 37/40] fix: drawings without a known colour have the default
 colour of their kind

---
 src/adaptation/sct_items.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index f4fdded..58030ff 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -36,6 +36,7 @@ impl ColouredLines {
         locations: &Locations,
         colours: &Colours,
         settings: &Settings,
+        default_colour: Colour,
         name: &str,
         typ: &str,
     ) -> Option<Self> {
@@ -68,7 +69,7 @@ impl ColouredLines {
                 .colour_name
                 .as_ref()
                 .and_then(|colour_name| colours.get(colour_name, settings))
-                .unwrap_or(colours.map.sid),
+                .unwrap_or(default_colour),
             lines,
         })
     }
@@ -175,6 +176,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.sid,
                                 &sid.name,
                                 "SID",
                             )
@@ -195,6 +197,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.star,
                                 &star.name,
                                 "STAR",
                             )
@@ -239,6 +242,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_high_boundary,
                                 &artcc.name,
                                 "ARTCC High",
                             )
@@ -260,6 +264,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_boundary,
                                 &artcc.name,
                                 "ARTCC",
                             )
@@ -281,6 +286,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.artcc_low_boundary,
                                 &artcc.name,
                                 "ARTCC Low",
                             )
@@ -301,6 +307,7 @@ impl SctItems {
                                 locations,
                                 colours,
                                 settings,
+                                colours.map.geo,
                                 &geo.name,
                                 "Geo",
                             )
-- 
2.43.0


From 009d00651d5501c050f4fd5427b8c159306ecefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:53 +0000
Subject: [PATCH 38/40] fix: numbers no floating-point type can represent are
 not decimals

They became infinite, which an exported adaptation stored as null and
could not be imported with.
---
 src/pest/airway.pest | 4 +++-
 src/pest/base.pest   | 4 +++-
 src/pest/isec.pest   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pest/airway.pest b/src/pest/airway.pest
index b162933..d838940 100644
--- a/src/pest/airway.pest
+++ b/src/pest/airway.pest
@@ -27,7 +27,9 @@ FALSE = { "N" }
 coord = { coord_part ~ "\t" ~ coord_part }
 coord_part = ${ DECIMAL }
 
-DECIMAL = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
+DECIMAL = @{ "-"? ~ !too_large ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
+// more digits than any floating-point type can represent
+too_large = _{ "0"* ~ ASCII_NONZERO_DIGIT ~ ASCII_DIGIT{38} }
 
 NL = _{ NEWLINE+ }
 COMMENT = _{ (";" | "//") ~ (!NEWLINE ~ ANY)* }
diff --git a/src/pest/base.pest b/src/pest/base.pest
index 63622ce..9dc4193 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -1,6 +1,8 @@
 point       =  { decimal ~ ":" ~ decimal }
 NL          = _{ ((" " | "\t")* ~ NEWLINE)+ }
-decimal     = @{ ("-" | "+")? ~ ((ASCII_DIGIT* ~ "." ~ ASCII_DIGIT+) | ASCII_DIGIT+) }
+decimal     = @{ ("-" | "+")? ~ !too_large ~ ((ASCII_DIGIT* ~ "." ~ ASCII_DIGIT+) | ASCII_DIGIT+) }
+// more digits than any floating-point type can represent
+too_large   = _{ "0"* ~ ASCII_NONZERO_DIGIT ~ ASCII_DIGIT{38} }
 integer     = @{ ("-" | "+")? ~ ASCII_DIGIT+ }
 pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
 
diff --git a/src/pest/isec.pest b/src/pest/isec.pest
index 23f5b99..ee55ab4 100644
--- a/src/pest/isec.pest
+++ b/src/pest/isec.pest
@@ -9,7 +9,9 @@ designator = ${ (ASCII_ALPHA_UPPER | ASCII_DIGIT)+ }
 coord = { coord_part ~ coord_part }
 coord_part = ${ DECIMAL }
 
-DECIMAL = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
+DECIMAL = @{ "-"? ~ !too_large ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
+// more digits than any floating-point type can represent
+too_large = _{ "0"* ~ ASCII_NONZERO_DIGIT ~ ASCII_DIGIT{38} }
 
 NL = _{ NEWLINE+ }
 COMMENT = _{ (";" | "//") ~ (!NEWLINE ~ ANY)* }
-- 
2.43.0


From 75d7be3e772b696e36dc7b97f3bb98c8dd792295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:53 +0000
Subject: [PATCH 39/40] fix: ignore infinite numbers of TopSky settings and
 maps

They were exported as null, which cannot be imported.
---
 src/adaptation/maps/mod.rs       |  5 ++++-
 src/adaptation/settings/mod.rs   | 11 +++++++----
 src/adaptation/settings/track.rs |  5 +++++
 src/topsky/map/mod.rs            | 22 ++++++++++++++++++----
 4 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index c5a85ba..9e13a40 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -256,12 +256,15 @@ pub fn from_topsky(
                             }
                             MapRule::FontSize(font_size_mod) => {
                                 map.config_change(settings, colour, |map_group| {
-                                    map_group.font_size = match font_size_mod {
+                                    let font_size = match font_size_mod {
                                         FontSize::Exact(fs) => *fs,
                                         FontSize::Add(fs) => map_group.font_size + fs,
                                         FontSize::Subtract(fs) => map_group.font_size - fs,
                                         FontSize::Multiply(fs) => map_group.font_size * fs,
                                         FontSize::Default => settings.maps.font_size,
+                                    };
+                                    if font_size.is_finite() {
+                                        map_group.font_size = font_size;
                                     }
                                 });
                             }
diff --git a/src/adaptation/settings/mod.rs b/src/adaptation/settings/mod.rs
index d4bea18..4ee3c2c 100644
--- a/src/adaptation/settings/mod.rs
+++ b/src/adaptation/settings/mod.rs
@@ -314,10 +314,13 @@ impl MapsSettings {
 
     pub fn from_euroscope(symbology: &Symbology, topsky: Option<&Topsky>) -> Self {
         Self {
-            font_size: topsky.map_or(Self::DEFAULT_FONT_SIZE, |t| {
-                t.settings
-                    .parse_with_default("Maps_FontSize", Self::DEFAULT_FONT_SIZE)
-            }),
+            font_size: topsky
+                .map(|t| {
+                    t.settings
+                        .parse_with_default("Maps_FontSize", Self::DEFAULT_FONT_SIZE)
+                })
+                .filter(|font_size| font_size.is_finite())
+                .unwrap_or(Self::DEFAULT_FONT_SIZE),
             line_styles: LineSettings::from_euroscope(symbology),
             labels: LabelSettings::from_euroscope(symbology),
             ..Default::default()
diff --git a/src/adaptation/settings/track.rs b/src/adaptation/settings/track.rs
index bb390a6..6a71455 100644
--- a/src/adaptation/settings/track.rs
+++ b/src/adaptation/settings/track.rs
@@ -51,6 +51,11 @@ impl VectorSettings {
         let topsky_length = topsky
             .settings
             .parse_with_default("Track_PredictionLine", DEFAULT_VECTOR_LENGTH);
+        let topsky_length = if topsky_length.is_finite() {
+            topsky_length
+        } else {
+            DEFAULT_VECTOR_LENGTH
+        };
         Self {
             length: if topsky_length == 0.0 {
                 DEFAULT_VECTOR_LENGTH
diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 0239f9b..d2e479e 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -22,6 +22,18 @@ use super::{
     Rule, TopskyError, TopskyParser,
 };
 
+/// Definitions with a number too large to be represented are ignored
+fn parse_number(pair: &Pair<Rule>) -> Option<f32> {
+    pair.as_str()
+        .parse()
+        .ok()
+        .filter(|number: &f32| number.is_finite())
+        .or_else(|| {
+            warn!("Could not parse number {}", pair.as_str());
+            None
+        })
+}
+
 /// Decimal degrees of a single latitude or longitude
 fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
     let coordinate_part = pair.into_inner().next().unwrap();
@@ -260,9 +272,9 @@ impl MapRule {
                     })),
                     Rule::active => Some(MapRule::Active(Active::parse(pair))),
                     Rule::andactive => Some(MapRule::AndActive(Active::parse(pair))),
-                    Rule::layer => Some(MapRule::Layer(
-                        pair.into_inner().next().unwrap().as_str().parse().unwrap(),
-                    )),
+                    Rule::layer => {
+                        parse_number(&pair.into_inner().next().unwrap()).map(MapRule::Layer)
+                    }
                     Rule::mapsymbol => Some(MapRule::Symbol(MapSymbol::parse(pair))),
                     Rule::fontsize => Some(MapRule::FontSize(FontSize::parse(pair))),
                     Rule::zoom => Some(MapRule::Zoom(
@@ -347,7 +359,9 @@ pub(super) fn parse_linestyle(pair: Pair<Rule>) -> Option<LineStyleDef> {
             let name = colour.next().unwrap().as_str().to_string();
             let brush = colour.next().unwrap().as_str().to_string();
             let hatch = colour.next().unwrap().as_str().to_string();
-            let dash_lengths = colour.map(|pair| pair.as_str().parse().unwrap()).collect();
+            let dash_lengths = colour
+                .map(|pair| parse_number(&pair))
+                .collect::<Option<_>>()?;
             Some(LineStyleDef {
                 name,
                 brush,
-- 
2.43.0


From a61b292c6944e2274084bf428beb503bfe593215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:53 +0000
Subject: [PATCH 40/40] fix: ignore rotations and window areas no f64 can
 represent

They became infinite, which was exported as null and cannot be imported.
---
 src/asr.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 0abac20..aea0c40 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -312,9 +312,12 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::disable_zooming => {
             to_bool(inner.next().unwrap().as_str()).map(AsrData::DisableZooming)
         }
-        Rule::display_rotation => Some(AsrData::DisplayRotation(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::display_rotation => {
+            let rotation: f64 = inner.next().unwrap().as_str().parse().unwrap();
+            rotation
+                .is_finite()
+                .then_some(AsrData::DisplayRotation(rotation))
+        }
         Rule::tag_family => Some(AsrData::TagFamily(
             inner.next().unwrap().as_str().to_string(),
         )),
@@ -323,10 +326,13 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             let lng1 = parse_coordinate_part(inner.next().unwrap());
             let lat2 = parse_coordinate_part(inner.next().unwrap());
             let lng2 = parse_coordinate_part(inner.next().unwrap());
-            Some(AsrData::WindowArea((
-                Coord { x: lng1, y: lat1 },
-                Coord { x: lng2, y: lat2 },
-            )))
+            [lat1, lng1, lat2, lng2]
+                .iter()
+                .all(|degrees| degrees.is_finite())
+                .then_some(AsrData::WindowArea((
+                    Coord { x: lng1, y: lat1 },
+                    Coord { x: lng2, y: lat2 },
+                )))
         }
         Rule::plugin => {
             let plugin = inner.next().unwrap().as_str().to_string();
-- 
2.43.0

