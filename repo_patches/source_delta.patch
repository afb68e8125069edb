From 43f04a47ada9aebf22751321b353a074e3ddea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:44 +0000
Subject: [PATCH 01/16] fix: reject a cel whose layer index equals the layer
 count

Indexing the per-frame cel table panicked for layer_index == layers.len().
---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From d7ba5faa9eec9b9191f1cd3cb044f35cb390a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 02/16] fix: reject a properties maps size smaller than its own
 header

A declared size below 8 underflowed and panicked (or asked for a huge slice).
---
 src/binary/chunks/user_data.rs | 7 +++++--
 src/binary/errors.rs           | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..91c3eef 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -144,8 +144,11 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes the two DWORDs which have already been read.
+    let size_maps = size_maps
+        .checked_sub(8)
+        .ok_or(nom::Err::Failure(ParseError::InvalidPropertiesMapsSize))?;
+    let (input, input_maps) = take(size_maps)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index ce6dced..90e585a 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -31,6 +31,9 @@ pub enum ParseError<'a> {
     /// This variant is used when a unsupported property
     /// type is found in the user data.
     InvalidPropertyType(Word),
+    /// This variant is used when the size of the properties
+    /// maps in the user data is <8
+    InvalidPropertiesMapsSize,
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0


From 8aef05d8c84f411005ad26ae9bba48c1c4d10bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 03/16] fix: keep the code of unknown enum values

from_repr also generated an arm for the Unknown variant itself, so the
first unassigned code was reported as Unknown(0).
---
 src/binary/blend_mode.rs            | 1 +
 src/binary/chunks/cel.rs            | 1 +
 src/binary/chunks/color_profile.rs  | 1 +
 src/binary/chunks/external_files.rs | 1 +
 src/binary/chunks/tags.rs           | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..29f9a6d 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -26,6 +26,7 @@ pub enum BlendMode {
     Addition,
     Subtract,
     Divide,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..d6595ca 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -37,6 +37,7 @@ enum CelType {
     CompressedImage,
     /// 3 - Compressed Tilemap
     CompressedTilemap,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..e3658e7 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -22,6 +22,7 @@ pub enum ColorProfileType {
     NoColorProfile,
     Srgb,
     EmbeddedICC,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..ede2b17 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -29,6 +29,7 @@ pub enum ExternalFileType {
     ExternalPalette,
     ExternalTileset,
     ExtensionNameForProperties,
+    #[strum(disabled)]
     Unknown(Byte),
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..fe39017 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -33,6 +33,7 @@ pub enum AnimationDirection {
     Reverse,
     PingPong,
     PingPongReverse,
+    #[strum(disabled)]
     Unknown(Byte),
 }
 
-- 
2.43.0


From c211fdceb659c9b42b83e32b2080bf5b7164e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 04/16] fix: layer flag bits are 16, 32 and 64, not 0x16, 0x32
 and 0x64

---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From d86afbae67cbdca19ea8ac8e9154a2ea9c85f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 05/16] fix: tilemap cels store the X flip bitmask before the Y
 flip bitmask

---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index d6595ca..8db9d9f 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -118,8 +118,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From a37e1c1bb89b8655583d03809fe6f9f24655b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 06/16] fix: read one palette entry per color in the declared
 index range

The palette size is the total size of the palette, a chunk changing only
some of the colors carries fewer entries.
---
 src/binary/chunks/palette.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..fb63fa4 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -7,7 +7,7 @@ use crate::binary::{
     errors::{ParseError, ParseResult},
     palette::PaletteError,
     scalars::{
-        parse_color, parse_dword_as_u8, parse_dword_as_usize, parse_string, word, Color, Word,
+        dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word,
     },
 };
 
@@ -30,7 +30,7 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    let (input, _palette_size) = dword(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +45,10 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    // The chunk contains one entry per changed color, the palette size
+    // is the total number of colors after applying the change.
+    let entry_count = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, entry_count).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From e55b9ab3bde7c080d0198f5eb8437e92e3a95142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 07/16] fix: limit the nesting depth of user data values

Vectors and properties maps are parsed recursively, a file nesting them a
few thousand levels deep overflowed the stack.
---
 src/binary/chunks/user_data.rs | 63 ++++++++++++++++++++++++++++------
 src/binary/errors.rs           |  3 ++
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 91c3eef..172eb1e 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -19,6 +19,11 @@ use crate::binary::{
     },
 };
 
+/// Maximum nesting depth of vectors and properties maps. The values are
+/// parsed recursively, so the depth has to be limited to something that
+/// is known to fit on the stack.
+const MAX_NESTING_DEPTH: usize = 64;
+
 bitflags! {
     pub struct UserDataFlags: Dword {
         const HAS_TEXT = 0x1;
@@ -156,9 +161,24 @@ pub fn parse_properties_maps(
 }
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+    parse_properties_map_at(input, 0)
+}
+
+/// Returns the depth of the values inside a vector or properties map
+/// found at the given depth.
+fn nested_depth<'a>(depth: usize) -> Result<usize, nom::Err<ParseError<'a>>> {
+    if depth < MAX_NESTING_DEPTH {
+        Ok(depth + 1)
+    } else {
+        Err(nom::Err::Failure(ParseError::NestingTooDeep))
+    }
+}
+
+fn parse_properties_map_at(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    let depth = nested_depth(depth)?;
     let (input, extension_entry_id) = dword(input)?;
     let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) = count(|input| parse_property_at(input, depth), num_props).parse(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -169,12 +189,20 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_property_at(input, 0)
+}
+
+fn parse_property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_value_at(input, 0)
+}
+
+fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -196,19 +224,32 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
-        PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+        PropertyType::Vector => {
+            map(|input| parse_vector_at(input, depth), Value::Vector).parse(input)?
         }
+        PropertyType::PropertiesMap => map(
+            |input| parse_properties_map_at(input, depth),
+            Value::PropertiesMap,
+        )
+        .parse(input)?,
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_vector_at(input, 0)
+}
+
+fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    let depth = nested_depth(depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -234,11 +275,13 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| parse_vector_at(input, depth), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(|input| parse_properties_map_at(input, depth), len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index 90e585a..a796ee2 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -34,6 +34,9 @@ pub enum ParseError<'a> {
     /// This variant is used when the size of the properties
     /// maps in the user data is <8
     InvalidPropertiesMapsSize,
+    /// This variant is used when the vectors and properties
+    /// maps in the user data are nested too deeply.
+    NestingTooDeep,
     /// This variant is used when the nom combinators return
     /// an error.
     Nom(nom::error::Error<&'a [u8]>),
-- 
2.43.0


From 35fd65eadb0c276c9edde7157d5991c426598c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 08/16] fix: nested properties maps have no extension entry id

Only the maps listed directly in the user data chunk start with a key, a
nested map starts with its number of properties.
---
 src/binary/chunks/palette.rs   |  4 +---
 src/binary/chunks/user_data.rs | 36 +++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index fb63fa4..4f0a339 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -6,9 +6,7 @@ use nom::{bytes::complete::take, combinator::cond, multi::count, Parser};
 use crate::binary::{
     errors::{ParseError, ParseResult},
     palette::PaletteError,
-    scalars::{
-        dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word,
-    },
+    scalars::{dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word},
 };
 
 #[derive(Debug)]
diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 172eb1e..83e0dff 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -161,7 +161,15 @@ pub fn parse_properties_maps(
 }
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
-    parse_properties_map_at(input, 0)
+    let (input, extension_entry_id) = dword(input)?;
+    let (input, properties) = parse_properties(input, 0)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id,
+            properties,
+        },
+    ))
 }
 
 /// Returns the depth of the values inside a vector or properties map
@@ -174,20 +182,27 @@ fn nested_depth<'a>(depth: usize) -> Result<usize, nom::Err<ParseError<'a>>> {
     }
 }
 
-fn parse_properties_map_at(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
-    let depth = nested_depth(depth)?;
-    let (input, extension_entry_id) = dword(input)?;
-    let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(|input| parse_property_at(input, depth), num_props).parse(input)?;
+/// Only the outermost properties maps start with an extension entry id,
+/// it is 0 for properties maps nested inside another value.
+fn parse_nested_properties_map(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input, depth)?;
     Ok((
         input,
         PropertiesMap {
-            extension_entry_id,
+            extension_entry_id: 0,
             properties,
         },
     ))
 }
 
+fn parse_properties(input: &[u8], depth: usize) -> ParseResult<'_, Vec<Property<'_>>> {
+    let depth = nested_depth(depth)?;
+    let (input, num_props) = parse_dword_as_usize(input)?;
+    let (input, properties) =
+        count(|input| parse_property_at(input, depth), num_props).parse(input)?;
+    Ok((input, properties))
+}
+
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
     parse_property_at(input, 0)
 }
@@ -228,7 +243,7 @@ fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
             map(|input| parse_vector_at(input, depth), Value::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            |input| parse_properties_map_at(input, depth),
+            |input| parse_nested_properties_map(input, depth),
             Value::PropertiesMap,
         )
         .parse(input)?,
@@ -281,7 +296,10 @@ fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
         )
         .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(|input| parse_properties_map_at(input, depth), len_elements),
+            count(
+                |input| parse_nested_properties_map(input, depth),
+                len_elements,
+            ),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From fd572dd8219d530ef8c54e05bf45737323353298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 09/16] fix: render_frame reports undecodable cels instead of
 panicking

---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..849354a 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From f6dfd7a6aca932d9be6448fcb7098768d55556b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 10/16] fix: report raw RGBA cels with a wrong data length
 instead of panicking

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 849354a..a547959 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if image.data.len() != target_size {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From 363cff2726e1fcca4235061e3357ddc586083a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 11/16] fix: report compressed cels holding less data than
 their size requires

The remaining pixels kept whatever the target buffer contained before.
---
 src/loader/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index a547959..3d8ceed 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -456,6 +456,10 @@ pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError>
     let mut decompressor = Decompress::new(true);
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
+        // A short stream would leave the end of `target` untouched.
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() != target.len() as u64 => {
+            Err(LoadImageError::InvalidImageData)
+        }
         Ok(flate2::Status::StreamEnd) => Ok(()),
         Err(_) => Err(LoadImageError::DecompressError),
     }
-- 
2.43.0


From 84dda96dbd033938dfbc6c70ac4cf5f660d1e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 12/16] fix: report unknown blend modes instead of panicking

---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 3d8ceed..11a5e3b 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode)?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -441,6 +442,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// A layer uses an unsupported blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From 8c1ee7587104e8a9e224534c4284eedfcfcd3f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 13/16] fix: HSL blend modes work on channels scaled to 0..=1

The result is multiplied by 255 when converted back, so every HSL blend
of visible pixels failed the range check or wrapped.
---
 src/loader/blend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..446415d 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,16 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
+        f64::from(self.b) / 255.0
     }
     fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.a) / 255.0
     }
 }
 
-- 
2.43.0


From 585657a668b167bfa5133e52a53358d7f346f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 14/16] fix: soft light blends the blue channel with the front
 color

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 446415d..1ca7109 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From 2c5371db2155d58d125e4e3a07dbe0e2c19bd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 15/16] fix: keep all layers so that cels refer to the right
 one

Cels use the layer index of the file. Dropping tilemap layers shifted the
layers following them, their cels were rendered with the wrong layer.
---
 src/loader/mod.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 11a5e3b..efc56eb 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -134,18 +134,12 @@ impl AsepriteFile<'_> {
         let layers: Vec<_> = file
             .layers
             .iter()
-            .filter_map(|layer| {
-                if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
-                    Some(Layer {
-                        name: layer.name.to_string(),
-                        opacity: layer.opacity,
-                        blend_mode: layer.blend_mode,
-                        visible: layer.flags.contains(LayerFlags::VISIBLE),
-                        layer_type: layer.layer_type,
-                    })
-                } else {
-                    None
-                }
+            .map(|layer| Layer {
+                name: layer.name.to_string(),
+                opacity: layer.opacity,
+                blend_mode: layer.blend_mode,
+                visible: layer.flags.contains(LayerFlags::VISIBLE),
+                layer_type: layer.layer_type,
             })
             .collect();
 
@@ -303,7 +297,8 @@ impl AsepriteFile<'_> {
             let Some(layer) = self.layers.get(cel.layer_index) else {
                 continue;
             };
-            if layer.layer_type == LayerType::Group || !layers.is_selected(cel.layer_index, layer) {
+            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
+            {
                 continue;
             }
 
-- 
2.43.0


From 392534d892152325add566ea6308eb88a9a2844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 16/16] fix: scale the 6 bit colors of old palette chunks
 (0x0011) to 8 bits

The channels of this chunk range from 0 to 63, the palette was far too dark.
---
 src/binary/palette.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..7f97776 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            &mut palette,
+            |value| value,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,13 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        // The colors of this chunk use 6 bits per channel.
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            &mut palette,
+            |value| (value << 2) | (value >> 4),
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -101,6 +112,7 @@ fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
     palette: &mut Palette,
+    scale: fn(u8) -> u8,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
     for chunk in chunks.iter() {
@@ -112,9 +124,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale(color.red),
+                    green: scale(color.green),
+                    blue: scale(color.blue),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0

