From 2a4d158e18cbf6800198129e25b755b8a23be7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 01/59] fix: keep number to rational conversions in range

Signed conversions overflowed for values whose approximation has a nominator
above i32::MAX, numbers at or above u32::MAX were replaced by i32::MAX, and
integers took the detour over the approximation.
---
 src/rational.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 870aeed..5134ff2 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -83,7 +83,7 @@ f64_to_rational64s
 )
 -> iR64
 {
-    let best_approximation = f64_to_rational64u(real_number);
+    let best_approximation = f64_to_rational(real_number, i32::MAX as u32);
     return iR64 {
         nominator: if real_number < 0.0 
             { 0-best_approximation.nominator as i32 } 
@@ -99,6 +99,19 @@ f64_to_rational64u
     real_number:     f64,
 )
 -> uR64
+{
+    f64_to_rational(real_number, u32::MAX)
+}
+
+/// Approximates the absolute value of the given number. The nominator of the
+/// result does not exceed `max_nominator`, the denominator not `i32::MAX`
+fn
+f64_to_rational
+(
+    real_number:     f64,
+    max_nominator:   u32,
+)
+-> uR64
 {
     // Make sure that we are dealing with positive real numbers
     let real_number = real_number.abs();
@@ -110,9 +123,9 @@ f64_to_rational64u
     }
     
     // Check if real number is too large for us to handle
-    if real_number > u32::MAX as f64 - 0.5
+    if real_number > max_nominator as f64
     {
-        return uR64 { nominator: i32::MAX as u32, denominator: 1};
+        return uR64 { nominator: max_nominator, denominator: 1};
     }
 
     let mut reciprocal_residual     = real_number;
@@ -122,7 +135,8 @@ f64_to_rational64u
     let mut convergent          = uR64 { nominator: continued_fraction_term as u32, denominator: 1u32 };
 
 
-    let mut n = 0;
+    let mut n             = 0;
+    let mut limit_reached = false;
     for _ in 2..MAX_TERM_COUNT
     {
         // Basically the value after the decimal point
@@ -143,12 +157,16 @@ f64_to_rational64u
         if convergent.nominator > 0
         {
             n = std::cmp::min(
-                (u32::MAX - previous_convergent.nominator) / convergent.nominator, 
+                (max_nominator - previous_convergent.nominator) / convergent.nominator, 
                 n
             );	
         }
 
-        if continued_fraction_term >= n as f64 { break; }
+        if continued_fraction_term >= n as f64 
+        {
+            limit_reached = true;
+            break; 
+        }
 
         let next_convergent = add_next_fraction_term(&(continued_fraction_term as u32), &convergent, &previous_convergent);
         previous_convergent = convergent;
@@ -160,7 +178,7 @@ f64_to_rational64u
     // Add a final term if a semiconvergent further improves the approximation
     let lower_bound = continued_fraction_term / 2.0;
 
-    if n as f64 >= lower_bound
+    if limit_reached && n as f64 >= lower_bound
     {
         if n as f64 > continued_fraction_term 
         { 
@@ -195,9 +213,9 @@ f64_to_rational64u
 impl From<f64> for uR64 { fn from (val: f64) -> Self { f64_to_rational64u(val) } }
 impl From<f64> for iR64 { fn from (val: f64) -> Self { f64_to_rational64s(val) } }
 
-impl From<u32> for uR64 { fn from (val: u32) -> Self { f64_to_rational64u(val as f64) } }
-impl From<u32> for iR64 { fn from (val: u32) -> Self { f64_to_rational64s(val as f64) } }
-impl From<i32> for iR64 { fn from (val: i32) -> Self { f64_to_rational64s(val as f64) } }
+impl From<u32> for uR64 { fn from (val: u32) -> Self { uR64 { nominator: val, denominator: 1 } } }
+impl From<u32> for iR64 { fn from (val: u32) -> Self { iR64 { nominator: i32::try_from(val).unwrap_or(i32::MAX), denominator: 1 } } }
+impl From<i32> for iR64 { fn from (val: i32) -> Self { iR64 { nominator: val, denominator: 1 } } }
 
 
 impl From<uR64> for f64 { fn from (val: uR64) -> Self { rational64u_to_f64(&val) } }
-- 
2.43.0


From d5589c71fb2248b31a0ad9ca82dac7bad743928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 02/59] fix: report raw tag data of a length that does not fit
 as an error

from_u16_with_data returns a Result but panicked if the length of the given
raw data was no multiple of the size of the tag's format.
---
 src/exif_tag/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/exif_tag/mod.rs b/src/exif_tag/mod.rs
index d11f305..16f1a14 100644
--- a/src/exif_tag/mod.rs
+++ b/src/exif_tag/mod.rs
@@ -174,32 +174,32 @@ macro_rules! build_tag_enum {
 				{
 					$(
 						($hex_value, ExifTagGroup::$group) => Ok(ExifTag::$tag(
-							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec(raw_data, endian)
+							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?
 						)),
 					)*
 
-					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?,           )),
 
-					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(&raw_data, endian).map_err(|e| e.to_string())?,           )),
 
 					_ => {
 						// In this case, the given hex_value represents a tag that is unknown
 						match *format
 						{
-							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
+							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
 						}
 					},
 				}
-- 
2.43.0


From 4a2541d47199c1461ee618ce119bf3dfc7f40b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 03/59] fix: count only tags that were actually removed

remove_tag and remove_tag_by_hex_group are documented to return zero if
nothing was removed, but counted the visited directories.
---
 src/metadata/set.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/metadata/set.rs b/src/metadata/set.rs
index 736261b..d2f1c6c 100644
--- a/src/metadata/set.rs
+++ b/src/metadata/set.rs
@@ -63,16 +63,13 @@ Metadata
 	{
 		let mut removed_count = 0;
 
-		// Traverse all IFD numbers up to the max. known one
-		for ifd_number in 0..=self.get_max_generic_ifd_number()
+		// Traverse all IFDs of this group
+		for ifd in self.image_file_directories.iter_mut().filter(|ifd| ifd.get_ifd_type() == tag_group)
 		{
-			// Does this IFD exist?
-			if self.get_ifd(tag_group, ifd_number).is_some()
+			// Only count IFDs that actually contain the tag
+			if ifd.get_tags().iter().any(|tag| tag.as_u16() == tag_hex)
 			{
-				// If so, get it as mutable and call remove_tag on it
-				self.get_ifd_mut(
-					tag_group, ifd_number
-				).remove_tag(tag_hex);
+				ifd.remove_tag(tag_hex);
 
 				removed_count += 1;
 			}
-- 
2.43.0


From f820f5808713278f934037bd626a2b8acd1c1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 04/59] fix: encode directory entries in order and without
 stale offset tags

The tags of a directory were not sorted when the offset tags of sub
directories were added, an offset tag set by the user resulted in a second
entry or in the whole directory being dropped, as errors during encoding were
ignored.
---
 src/ifd/mod.rs      |  8 +++++++-
 src/metadata/mod.rs | 19 +++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..f9517d6 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -493,7 +493,12 @@ ImageFileDirectory
 
         // Store all relevant tags (IFD tags + offset tags) in a temporary 
         // location and sort them there
-        let mut all_relevant_tags = self.tags.clone();
+        // The value of an IFD offset tag set by the user is of no use, these get
+        // provided by the IFDs that actually exist
+        let mut all_relevant_tags = self.tags.iter()
+            .filter(|tag| !matches!(tag.get_tag_type(), TagType::IFD_OFFSET(_)))
+            .cloned()
+            .collect::<Vec<ExifTag>>();
         if let Some(ifd_with_offset_info_only) = ifds_with_offset_info_only
             .iter()
             .find(|ifd| 
@@ -503,6 +508,7 @@ ImageFileDirectory
         {
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
 
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..529de51 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -192,22 +192,21 @@ Metadata
 
             let Some(last_ifd) = filter_result.last() else { continue; };
 
-            if let Ok((next_link_section, link_vec)) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
                 &mut current_offset
-            )
-            {
-                if let Some(index) = index_of_previous_ifds_link_section
-                {
-                    let mut cursor = Cursor::new(&mut encode_vec);
-                    cursor.set_position(index);
-                    cursor.write_all(&link_vec)?;
-                }
+            )?;
 
-                index_of_previous_ifds_link_section = Some(next_link_section);
+            if let Some(index) = index_of_previous_ifds_link_section
+            {
+                let mut cursor = Cursor::new(&mut encode_vec);
+                cursor.set_position(index);
+                cursor.write_all(&link_vec)?;
             }
+
+            index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
         Ok(encode_vec)
-- 
2.43.0


From 58a6f100ae18e61ccb2337e00d22bb7b8e810be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 05/59] fix: encode the number of components a tag really has

A tag without any value was encoded with its predefined number of components
but without the data for them, which corrupted all offsets that follow.
---
 src/ifd/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index f9517d6..3b4dcbb 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -635,7 +635,9 @@ ImageFileDirectory
             encode_vec.extend(to_u8_vec_macro!(u16, &tag.format().as_u16(), &data.get_endian()).iter());
 
             // Add number of components /                                       4 bytes
-            let number_of_components: u32 = tag.number_of_components();
+            // Derived from the actual value, as e.g. a tag without any values
+            // reports its predefined number of components instead of zero
+            let number_of_components: u32 = value.len() as u32 / tag.format().bytes_per_component();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
             // Optional string padding (i.e. string is shorter than it should be)
-- 
2.43.0


From 1d28fae797fd50f63decbb10d05445b924c10fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 06/59] fix: encode metadata without any tags as an empty
 directory

The offset in the header pointed behind the end of the encoded data.
---
 src/metadata/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 529de51..a661247 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -209,6 +209,14 @@ Metadata
             index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
+        // Without any IFD the offset in the header would point to nothing, so
+        // provide an IFD0 that has neither entries nor a link to another IFD
+        // (entry count, link and padding, same as `encode_ifd` would write)
+        if current_offset == 8
+        {
+            encode_vec.extend([0u8; 8]);
+        }
+
         Ok(encode_vec)
     }
 
-- 
2.43.0


From b74253886296514471af9d89c66f2d11b81f1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 07/59] fix: report tag values that cannot be converted as an
 error

Decoding panicked on INT16U values out of range for an INT8U tag and on an
empty GPSAltitudeRef string.
---
 src/exif_tag/decode.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..e1f5a96 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -74,8 +74,11 @@ decode_tag_with_format_exceptions
 				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
 				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
 				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
+					// Check that the int16u data is within int8u range
+					if *element_u16 != *element_u8 as u16
+					{
+						return io_error!(InvalidData, format!("Value {} out of range for tag {:?}", element_u16, raw_tag));
+					}
 				}
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
@@ -96,11 +99,11 @@ decode_tag_with_format_exceptions
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
 					// otherwise we panic and tell the user to open a ticket.
 
-					let first_char = raw_data[0];
+					let first_char = raw_data.first();
 					let int8u_data = match first_char
 					{
-						0x00 | 0x30 => vec![0u8],
-						0x01 | 0x31 => vec![1u8],
+						Some(0x00 | 0x30) => vec![0u8],
+						Some(0x01 | 0x31) => vec![1u8],
 						_ => io_error!(InvalidData, "Problem while decoding GPSAltitudeRef. Please open a new issue for little_exif!")?
 					};
 
-- 
2.43.0


From 94e0f22a4b23a301dfb89a4d983e15c58b53cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 08/59] fix: decode malformed directories without panic,
 endless loop or huge allocation

Links between directories that form a loop were followed forever, a second
offset tag for the same sub directory caused a panic when sorting, and memory
was allocated for claimed lengths before checking that the data exists.
---
 src/ifd/mod.rs      | 67 +++++++++++++++++++++++++++++++++++++++------
 src/metadata/mod.rs | 11 +++++++-
 2 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 3b4dcbb..f63e877 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -94,6 +94,48 @@ ImageFileDirectory
         self.tags.sort_by_key(|tag| tag.as_u16());
     }
 
+    /// Reads the given number of bytes at the current position, but only if
+    /// these bytes exist. As different entries may refer to the same bytes, 
+    /// the total amount of data is limited as well.
+    fn
+    read_data
+    (
+        data_cursor:    &mut Cursor<&Vec<u8>>,
+        byte_count:          u32,
+        remaining_data: &mut usize,
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
+        let byte_count = byte_count as usize;
+        let available  = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
+
+        if byte_count as u64 > available
+        {
+            return io_error!(UnexpectedEof, format!("Not enough data to decode value! Required: {} Available: {}", byte_count, available));
+        }
+
+        Self::account_for(byte_count, remaining_data)?;
+
+        let mut data = vec![0u8; byte_count];
+        data_cursor.read_exact(&mut data)?;
+        return Ok(data);
+    }
+
+    fn
+    account_for
+    (
+        byte_count:          usize,
+        remaining_data: &mut usize,
+    )
+    -> Result<(), std::io::Error>
+    {
+        match remaining_data.checked_sub(byte_count)
+        {
+            Some(remaining) => { *remaining_data = remaining; Ok(()) },
+            None            => io_error!(InvalidData, "The entries refer to the same data too often!")
+        }
+    }
+
     /// If everything goes Ok and there is enough data to unpack, this returns
     /// the offset to the next generic IFD that needs to be processed.
     pub(crate) fn
@@ -105,6 +147,7 @@ ImageFileDirectory
         group:               &    ExifTagGroup,
         generic_ifd_nr:           u32,                                          // Reuse value for recursive calls; only gets incremented by caller
         insert_into:         &mut Vec<ImageFileDirectory>,                      // Stays the same for all calls to this function while decoding
+        remaining_data:      &mut usize,                                        // How many bytes may still be decoded, see `read_data`
     )
     -> Result<Option<u32>, std::io::Error>
     {
@@ -139,6 +182,8 @@ ImageFileDirectory
             return io_error!(Other, format!("Not enough data to decode IFD! Required: {} Available: {}", required, available));
         }
 
+        Self::account_for(required, remaining_data)?;
+
         // Temporarily storing specific tags that have been decoded
         // This has to do with data offset tags that are interconnected with
         // other tags.
@@ -203,9 +248,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
-                let mut raw_data_buffer = vec![0u8; byte_count as usize];
-                data_cursor.read_exact(&mut raw_data_buffer)?;
-                raw_data = raw_data_buffer.to_vec();
+                raw_data = Self::read_data(data_cursor, byte_count, remaining_data)?;
             
                 // Rewind the cursor to the start of the next entry
                 data_cursor.set_position(backup_position);
@@ -258,6 +301,15 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There can be only one such SubIFD
+                if insert_into.iter().rev()
+                    .take_while(|ifd| ifd.get_generic_ifd_nr() == generic_ifd_nr)
+                    .any(|ifd| ifd.get_ifd_type() == subifd_group)
+                {
+                    log::warn!("Ignoring further SubIFD {subifd_group:?}!");
+                    continue;
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
@@ -273,6 +325,7 @@ ImageFileDirectory
                     &subifd_group,
                     generic_ifd_nr,
                     insert_into,
+                    remaining_data,
                 );
 
                 // Check that this actually worked
@@ -382,9 +435,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
-                    let mut data_buffer = vec![0u8; *byte_count as usize];
-                    data_cursor.read_exact(&mut data_buffer)?;
-                    strip_data.push(data_buffer);
+                    strip_data.push(Self::read_data(data_cursor, *byte_count, remaining_data)?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -417,12 +468,10 @@ ImageFileDirectory
 
                 if offset.len() == 1 && length.len() == 1
                 {
-                    let mut thumbnail_data = vec![0u8; length[0] as usize];
-
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    data_cursor.read_exact(&mut thumbnail_data)?;
+                    let thumbnail_data = Self::read_data(data_cursor, length[0], remaining_data)?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index a661247..61d983b 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -7,6 +7,7 @@ pub mod edit;
 pub mod get;
 pub mod set;
 
+use std::collections::HashSet;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -311,8 +312,15 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut visited_offsets = HashSet::new();
+        let mut remaining_data  = data_cursor.get_ref().len().saturating_mul(16);
         while let Some(ifd_offset) = ifd_offset_option
         {
+            if !visited_offsets.insert(ifd_offset)
+            {
+                return io_error!(InvalidData, "The links between the IFDs form a loop!");
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
@@ -322,7 +330,8 @@ Metadata
                 &endian,
                 &ExifTagGroup::GENERIC,
                 generic_ifd_nr,
-                &mut ifds
+                &mut ifds,
+                &mut remaining_data
             );
 
             ifd_offset_option = decode_result?;
-- 
2.43.0


From d061692fcc5fa4f6d0a06c3bb6e4687d6c7e0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 09/59] fix: decode a sub directory at the end of the data that
 has no link

The missing link is handled after decoding the entries, but the check for
enough data before that did not allow for it.
---
 src/ifd/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index f63e877..2b556c1 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -177,7 +177,8 @@ ImageFileDirectory
             + data_cursor.get_ref().len() as i64 
             - data_cursor_entry_position  as i64) as usize;
 
-        if required > available
+        // The link to the next IFD may be missing (see below)
+        if required - IFD_END_NO_LINK.len() > available
         {
             return io_error!(Other, format!("Not enough data to decode IFD! Required: {} Available: {}", required, available));
         }
-- 
2.43.0


From 6e51460579bf807abbf50548b6789ff17ef7a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 10/59] fix: keep the tags of a decoded directory in order

Strip and thumbnail tags were always added at the end.
---
 src/ifd/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 2b556c1..f53d9aa 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -495,6 +495,9 @@ ImageFileDirectory
         // At this point we are done with decoding the tags of this IFD and its
         // associated SubIFDs! 
 
+        // The data offset tags got added at the end
+        tags.sort_by_key(|tag| tag.as_u16());
+
         // Put the current IFD into the given, referenced vector
         insert_into.push(ImageFileDirectory { 
             tags:                       tags, 
-- 
2.43.0


From 2e7b4a6a5843dbc0f9306a65c7a3add0511367fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 11/59] fix: read WebP Exif chunks that start with the Exif
 identifier

---
 src/webp/file.rs | 6 ++++++
 src/webp/vec.rs  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..acccb55 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -331,6 +331,12 @@ read_metadata
             // Otherwise the result would directly start with the Endianness
             // information, leading to a failed EXIF header signature check in 
             // the function `decode_metadata_general`
+            // Some encoders already include the prefix in the chunk
+            if payload_buffer.starts_with(&EXIF_HEADER)
+            {
+                return Ok(payload_buffer);
+            }
+
             let mut raw_exif_data = EXIF_HEADER.to_vec();
             raw_exif_data.append(&mut payload_buffer);
 
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..09bb787 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -318,6 +318,12 @@ read_metadata
             // Otherwise the result would directly start with the Endianness
             // information, leading to a failed EXIF header signature check in 
             // the function `decode_metadata_general`
+            // Some encoders already include the prefix in the chunk
+            if payload_buffer.starts_with(&EXIF_HEADER)
+            {
+                return Ok(payload_buffer);
+            }
+
             let mut raw_exif_data = EXIF_HEADER.to_vec();
             raw_exif_data.append(&mut payload_buffer);
 
-- 
2.43.0


From fda0276e361819d8a7e8e9397b26821bb0423476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 12/59] fix: report metadata that does not fit in a JPG segment

---
 src/jpg.rs                  | 17 ++++++++++-------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..e84c85a 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,17 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    let Ok(length) = u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len()) else
+    {
+        return io_error!(InvalidInput, "Metadata is too large for a JPG segment!");
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +46,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -284,7 +287,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -299,12 +302,12 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From 0d014ac1e8303936b8d2fcd2a198e90cbda3ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 13/59] fix: cut off the rest of a JPG file that became shorter
 when writing

---
 src/jpg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index e84c85a..e2d009b 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -340,6 +340,7 @@ file_write_metadata
     // Seek back to start & write the file
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
-- 
2.43.0


From 988af7a5cbafba40a888ab8e4d9d7f4e0286c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 14/59] fix: report JPG segments with an impossible length when
 clearing

---
 src/jpg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index e2d009b..99feedd 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -156,6 +156,11 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
-- 
2.43.0


From e98581fe452c65e9942c953030a41e4441c0be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 15/59] fix: do not look for the Exif identifier behind the end
 of a short JPG segment

---
 src/jpg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 99feedd..507f78d 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -173,7 +173,8 @@ clear_segment
                 // If we are given prefix bytes to check for, read them in
                 if let Some(prefix) = prefix_bytes
                 {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
+                    // (a shorter segment contains less than the prefix)
+                    let mut prefix_buffer = vec![0u8; prefix.len().min(remaining_length)];
                     cursor.read_exact(&mut prefix_buffer)?;
                     cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
 
-- 
2.43.0


From 0702f1b8f36e3e92fe5c6244e8514390cce9eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 16/59] fix: skip JPG APP1 segments without Exif data when
 reading

---
 src/jpg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 507f78d..74fcb69 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -478,11 +478,15 @@ generic_read_metadata
             match byte_buffer[0]
             {
                 0xe1 => {                                                       // APP1 marker
-                    // Read in & return the remaining data
+                    // Read in & return the remaining data, unless this is
+                    // something else than EXIF data, e.g. XMP data
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From f84da474a20335afb1e06df71a617bb81429cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 17/59] fix: handle fill bytes and markers without a segment in
 JPG files

---
 src/jpg.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 74fcb69..8d7073f 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -149,6 +149,18 @@ clear_segment
                 return Ok(());
             }
 
+            // A further 0xFF is a fill byte, the actual marker is yet to come
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            if is_marker_without_segment(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Read in the length of the segment
             // (which follows immediately after the marker)
             let mut length_buffer = [0u8; 2];
@@ -380,6 +392,18 @@ file_read_metadata
     return generic_read_metadata(&mut buffered_file);
 }
 
+/// Tells if there is no segment (i.e. no length and data) after a marker. This
+/// is the case for TEM (0x01), RST0 to RST7 and SOI. 0x00 is not a marker.
+fn
+is_marker_without_segment
+(
+    marker: u8
+)
+-> bool
+{
+    matches!(marker, 0x00 | 0x01 | 0xd0..=0xd8)
+}
+
 /// Skips the entropy-coded segment (ECS) that is followed by a start of scan
 /// segment (SOS) and positions the cursor at the start of the next segment,
 /// i.e. a 0xFF byte that is followed by a marker that is NOT 0xD0-0xD7 or 0x00.
@@ -461,6 +485,18 @@ generic_read_metadata
                 return io_error!(Other, "No EXIF data found!");
             }
 
+            // A further 0xFF is a fill byte, the actual marker is yet to come
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            if is_marker_without_segment(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Read in the length of the segment
             // (which follows immediately after the marker)
             let mut length_buffer = [0u8; 2];
-- 
2.43.0


From 3891ed8922709fa115499a8a23f778dc6cca8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 18/59] fix: remove exif XMP elements together with all
 elements inside them

---
 src/xmp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..18b57e7 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -40,11 +40,12 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                // Everything inside an element that gets removed is removed too
+                if skip_depth > 0 || event_name.starts_with("exif:")
                 {
                     skip_depth += 1;
                 }
-                else if skip_depth == 0
+                else
                 {
                     writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
                 }
-- 
2.43.0


From 24ce3b10b8519498b55f806ff74e9028391aba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 19/59] fix: report malformed XMP data instead of cutting it
 short

---
 src/xmp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 18b57e7..aa7aaaf 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -77,7 +77,10 @@ remove_exif_from_xmp
             }
 
             Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+                if skip_depth != 0
+                {
+                    return Err("Unexpected end of XMP data inside an exif element".into());
+                }
                 break;
             }
 
@@ -108,7 +111,7 @@ remove_exif_from_xmp
                     reader.buffer_position(), 
                     error_message
                 );
-                break;
+                return Err(error_message.into());
             }
         };
 
-- 
2.43.0


From 85fc547c39e0643daee9a3f99906cb0f8ddd7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 20/59] fix: keep XMP attributes with other quotes and report
 malformed ones

---
 src/xmp.rs | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index aa7aaaf..0bb5636 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -128,26 +128,31 @@ get_exif_filtered_event<'a>
 )
 -> Result<BytesStart<'a>, Box<dyn std::error::Error>>
 {
-    let mut new_event = BytesStart::new(
-        std::str::from_utf8(event.name().0)?
-    );
-
-    new_event.extend_attributes(
-        event.attributes()
-            .filter_map(Result::ok)
-            .filter(|attribute| 
-                {
-                    if let Ok(key) = std::str::from_utf8(
-                        attribute.key.as_ref()
-                    ) 
-                    {
-                        !key.starts_with("exif:")
-                    } else {
-                        true
-                    }
-                }
-            ),
-    );
+    let     event_name = std::str::from_utf8(event.name().0)?;
+    let mut content    = event_name.to_string();
+
+    for attribute_result in event.attributes()
+    {
+        let attribute = attribute_result?;
+        let key       = std::str::from_utf8(attribute.key.as_ref())?;
+        let value     = std::str::from_utf8(&attribute.value)?;
+
+        if key.starts_with("exif:")
+        {
+            continue;
+        }
+
+        // The value is still escaped, but only as far as required for the 
+        // quotes it was enclosed by
+        let quote = if value.contains('"') { '\'' } else { '"' };
+
+        content.push(' ');
+        content.push_str(key);
+        content.push('=');
+        content.push(quote);
+        content.push_str(value);
+        content.push(quote);
+    }
 
-    return Ok(new_event);
+    return Ok(BytesStart::from_content(content, event_name.len()));
 }
\ No newline at end of file
-- 
2.43.0


From 555e4880474f8a42c7b05c61162fb8aba3dafb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 21/59] fix: skip only newlines that follow a removed XMP
 element

---
 src/xmp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 0bb5636..b469f1e 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -35,6 +35,9 @@ remove_exif_from_xmp
         // Read in the event
         let read_event = reader.read_event_into(&mut read_buffer);
 
+        // Only a newline directly after a removed element may be skipped
+        let skip_this_nl = std::mem::replace(&mut skip_next_nl, false);
+
         match read_event
         {
             Ok(Event::Start(ref event)) => {
@@ -91,9 +94,9 @@ remove_exif_from_xmp
                     .filter(|c| *c == '\n' || !c.is_whitespace())
                     .collect::<Vec<char>>();
 
-                if characters == vec!['\n'] && skip_next_nl
+                if characters == vec!['\n'] && skip_this_nl
                 {
-                    skip_next_nl = false;
+                    // do nothing
                 }
                 else if skip_depth == 0 
                 {
-- 
2.43.0


From 07534fb7e08988c840ca1f6b9b712129e3e09ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 22/59] fix: leave PNG chunks alone that contain XMP data
 without exif parts

---
 src/png/mod.rs |  9 +++++++--
 src/xmp.rs     | 25 ++++++++++++++++++-------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..39d0007 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -531,8 +531,13 @@ clear_exif_from_xmp_metadata
     )?;
     let clean_xmp_data = match remove_exif_from_xmp(&text_chunk_data)
     {
-        Ok(data) => data,
-        Err(e)   => {
+        Ok(Some(data)) => data,
+        Ok(None)       => {
+            // Nothing to remove, so keep the chunk and skip it
+            cursor.seek(SeekFrom::Current(chunk_data.len() as i64 + 12))?;
+            return Ok(());
+        },
+        Err(e)         => {
             return io_error!(Other, 
                 format!("Failed to remove EXIF from XMP data: {}", e)
             );
diff --git a/src/xmp.rs b/src/xmp.rs
index b469f1e..b34b261 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -11,13 +11,14 @@ use std::io::Cursor;
 /// that is simply a duplicate from e.g. the eXIf chunk in a PNG.
 /// This function takes in the raw XMP information and removes EXIF attributes,
 /// while maintaining other XMP information so that the result can be 
-/// written back to the image data.
+/// written back to the image data. If there is nothing to remove, no new XMP
+/// data is returned.
 pub(crate) fn
 remove_exif_from_xmp
 (
     data: &[u8]
 )
--> Result<Vec<u8>, Box<dyn std::error::Error>>
+-> Result<Option<Vec<u8>>, Box<dyn std::error::Error>>
 {
     let mut reader = Reader::from_reader(data);
     let mut writer = Writer::new(Cursor::new(Vec::new()));
@@ -30,6 +31,8 @@ remove_exif_from_xmp
     let mut skip_depth   = 0u32;
     let mut skip_next_nl = false;
 
+    let mut removed_something = false;
+
     loop 
     {
         // Read in the event
@@ -47,10 +50,11 @@ remove_exif_from_xmp
                 if skip_depth > 0 || event_name.starts_with("exif:")
                 {
                     skip_depth += 1;
+                    removed_something = true;
                 }
                 else
                 {
-                    writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
+                    writer.write_event(Event::Start(get_exif_filtered_event(event, &mut removed_something)?))?;
                 }
             }
 
@@ -59,11 +63,11 @@ remove_exif_from_xmp
 
                 if event_name.starts_with("exif:")
                 {
-                    // do nothing
+                    removed_something = true;
                 }
                 else if skip_depth == 0
                 {
-                    writer.write_event(Event::Empty(get_exif_filtered_event(event)?))?;
+                    writer.write_event(Event::Empty(get_exif_filtered_event(event, &mut removed_something)?))?;
                 }
             }
 
@@ -121,13 +125,19 @@ remove_exif_from_xmp
         read_buffer.clear();
     }
 
-    return Ok(writer.into_inner().into_inner());
+    if !removed_something
+    {
+        return Ok(None);
+    }
+
+    return Ok(Some(writer.into_inner().into_inner()));
 }
 
 fn
 get_exif_filtered_event<'a>
 (
-    event: &'a BytesStart<'a>
+    event:             &'a BytesStart<'a>,
+    removed_something: &mut bool
 )
 -> Result<BytesStart<'a>, Box<dyn std::error::Error>>
 {
@@ -142,6 +152,7 @@ get_exif_filtered_event<'a>
 
         if key.starts_with("exif:")
         {
+            *removed_something = true;
             continue;
         }
 
-- 
2.43.0


From 6be342be4c553b901443e30d9c0bfc11778c3378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 23/59] fix: write the compression method of a rebuilt zTXt
 chunk

---
 src/png/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..7cdeefc 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -167,6 +167,8 @@ construct_similar_with_new_data
                 );
             }
 
+            // Compression method and data
+            new_chunk_data.push(0x00);
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0


From 44964273829849809e01cf532b66dd19c0d989cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 24/59] fix: read PNG text chunks that are too short without
 panic

---
 src/png/text.rs | 83 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 28 deletions(-)

diff --git a/src/png/text.rs b/src/png/text.rs
index 7cdeefc..4983961 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -25,6 +25,22 @@ get_keyword_from_text_chunk
     return String::from_utf8_lossy(&keyword_buffer).into_owned()
 }
 
+/// Gets the part of the chunk data from the given position onwards
+fn
+get_data_from
+(
+    chunk_data: &[u8],
+    data_start: usize,
+)
+-> Result<&[u8], std::io::Error>
+{
+    match chunk_data.get(data_start..)
+    {
+        Some(data) => Ok(data),
+        None       => io_error!(InvalidData, "Text chunk ends before its data!"),
+    }
+}
+
 pub(crate) fn
 get_data_from_text_chunk
 (
@@ -44,7 +60,7 @@ get_data_from_text_chunk
             // For this we take the keyword length and add 1 for the NUL byte
             let data_start = keyword_length + 1;
             
-            return Ok(chunk_data[data_start..].to_vec());
+            return get_data_from(chunk_data, data_start).map(|data| data.to_vec());
         },
 
         "zTXt" => {
@@ -54,7 +70,7 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
+            if chunk_data.get(keyword_length + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -64,7 +80,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_data_from(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -86,7 +102,7 @@ get_data_from_text_chunk
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             let data_start = keyword_length // keyword
                 + 3                         // NUL, compression flag & method
@@ -98,7 +114,7 @@ get_data_from_text_chunk
             if compression_flag == 0x00
             {
                 // No compression, simply return the data
-                return Ok(chunk_data[data_start..].to_vec());
+                return get_data_from(chunk_data, data_start).map(|data| data.to_vec());
             }
             
             if compression_method != 0x00
@@ -111,7 +127,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_data_from(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -159,7 +175,7 @@ construct_similar_with_new_data
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
+            if old_chunk_data.get(keyword.len() + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -180,16 +196,16 @@ construct_similar_with_new_data
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Push compression information
             new_chunk_data.push(compression_flag);
             new_chunk_data.push(compression_method);
 
             // Add the language tag and translated keyword
-            new_chunk_data.extend(language_tag.bytes());
+            new_chunk_data.extend(language_tag);
             new_chunk_data.push(0x00);
-            new_chunk_data.extend(translated_keyword.bytes());
+            new_chunk_data.extend(translated_keyword);
             new_chunk_data.push(0x00);
 
             // Check compression
@@ -239,14 +255,25 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
-    u8,     // compression flag
-    u8,     // compression method
-    String, // keyword
-    String, // language tag
-    String, // translated keyword
-)
+-> Result<(
+    u8,      // compression flag
+    u8,      // compression method
+    Vec<u8>, // keyword
+    Vec<u8>, // language tag
+    Vec<u8>, // translated keyword
+), std::io::Error>
 {
+    // All the accesses below have to be within the chunk, i.e. there have to be
+    // the separators and the compression information 
+    let byte_at = |index: usize| -> Result<u8, std::io::Error>
+    {
+        match chunk_data.get(index)
+        {
+            Some(byte) => Ok(*byte),
+            None       => io_error!(InvalidData, "iTXt chunk is too short!"),
+        }
+    };
+
     // Tells us where we currently are in the chunk data
     let mut chunk_counter = 0;
 
@@ -255,7 +282,7 @@ get_info_about_iTXt_chunk
 
     loop
     {
-        if chunk_data[chunk_counter] != 0x00
+        if byte_at(chunk_counter)? != 0x00
         {
             keyword_buffer.push(chunk_data[chunk_counter]);
             chunk_counter += 1;
@@ -266,16 +293,16 @@ get_info_about_iTXt_chunk
         }
     }
 
-    let _null_separator_1  = chunk_data[chunk_counter + 0];
-    let compression_flag   = chunk_data[chunk_counter + 1];
-    let compression_method = chunk_data[chunk_counter + 2];
+    let _null_separator_1  = byte_at(chunk_counter + 0)?;
+    let compression_flag   = byte_at(chunk_counter + 1)?;
+    let compression_method = byte_at(chunk_counter + 2)?;
 
     chunk_counter += 3;
     let mut language_tag_buffer = Vec::new();
 
     loop 
     {
-        if chunk_data[chunk_counter] != 0x00
+        if byte_at(chunk_counter)? != 0x00
         {
             language_tag_buffer.push(chunk_data[chunk_counter]);
             chunk_counter += 1;
@@ -291,7 +318,7 @@ get_info_about_iTXt_chunk
 
     loop 
     {
-        if chunk_data[chunk_counter] != 0x00
+        if byte_at(chunk_counter)? != 0x00
         {
             translated_keyword_buffer.push(chunk_data[chunk_counter]);
             chunk_counter += 1;
@@ -302,11 +329,11 @@ get_info_about_iTXt_chunk
         }
     }
 
-    return (
+    return Ok((
         compression_flag,
         compression_method,
-        String::from_utf8(keyword_buffer           ).unwrap_or_default(),
-        String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
-        String::from_utf8(translated_keyword_buffer).unwrap_or_default()
-    );
+        keyword_buffer,
+        language_tag_buffer,
+        translated_keyword_buffer
+    ));
 }
\ No newline at end of file
-- 
2.43.0


From 6e67894a99b9137f6c0952f880176a1cde97b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 25/59] fix: report mangled PNG raw profiles instead of
 panicking

---
 src/png/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 39d0007..0e3aaab 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -799,7 +799,7 @@ decode_metadata_png
         let mut counter = 0;
         for header_value in &EXIF_HEADER
         {
-            if *header_value != exif_all[counter]
+            if Some(header_value) != exif_all.get(counter)
             {
                 break;
             }
@@ -819,7 +819,7 @@ decode_metadata_png
         // with the endian information? See issue #54
         for endian_info in &LITTLE_ENDIAN_INFO
         {
-            if *endian_info != exif_all[counter]
+            if Some(endian_info) != exif_all.get(counter)
             {
                 break;
             }
@@ -836,7 +836,7 @@ decode_metadata_png
         // And the same check for big endian
         for endian_info in &BIG_ENDIAN_INFO
         {
-            if *endian_info != exif_all[counter]
+            if Some(endian_info) != exif_all.get(counter)
             {
                 break;
             }
@@ -869,7 +869,10 @@ decode_metadata_png
     //    that will now get extracted
     // Consider this part optional as it might be removed in the future and
     // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
+    if pop_storage.is_empty()
+    {
+        return io_error!(InvalidData, "Missing EXIF size info");
+    }
 
     // Using the encode_byte function re-encode the bytes regarding the size
     // information and construct its value using decimal based shifting
@@ -895,7 +898,10 @@ decode_metadata_png
         given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
+    if given_exif_len != exif_all.len() as u64
+    {
+        return io_error!(InvalidData, "EXIF size info does not match the EXIF data");
+    }
     // End optional part
 
     return Ok(Vec::from(exif_all));
-- 
2.43.0


From 83460c819d007b8a1ae688399ef3b14e5539e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 26/59] fix: do not allocate memory for the claimed length of a
 PNG chunk

---
 src/png/read.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..f7fd6d3 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -50,8 +50,11 @@ read_chunk_data
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
+    // Do not allocate memory for data that might not exist
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor
+        .take(chunk_length as u64)
+        .read_to_end(&mut chunk_data_buffer)?;
     
     if bytes_read != chunk_length
     {
-- 
2.43.0


From 192089478acc2cfc4dfe5e239a22484a613ed803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 27/59] fix: report metadata that does not fit in a PNG raw
 profile

---
 src/metadata/metadata_io.rs |  2 +-
 src/png/mod.rs              | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 06bb2bf..f927f00 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -387,7 +387,7 @@ Metadata
         Ok(match for_file_type
         {
             FileExtension::PNG { as_zTXt_chunk } 
-                =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
+                =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk)?,
             FileExtension::JPEG 
                 =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
diff --git a/src/png/mod.rs b/src/png/mod.rs
index 0e3aaab..99dcb33 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -678,7 +678,7 @@ generic_write_metadata
     }
 
     // Encode the data specifically for PNG and open the image file
-    let encoded_metadata = encode_metadata_png(&metadata.encode()?);
+    let encoded_metadata = encode_metadata_png(&metadata.encode()?)?;
     let seek_start = 0u64         // Skip ...
     + PNG_SIGNATURE.len() as u64  // PNG Signature
     + IHDR_length         as u64  // IHDR data section
@@ -702,7 +702,7 @@ encode_metadata_png
 (
     exif_vec: &Vec<u8>
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // The size of the EXIF data area, consists of
     // - length of EXIF header (follows after ssss)
@@ -714,6 +714,11 @@ encode_metadata_png
         + 1
     ).to_string();
 
+    if ssss.len() > 8
+    {
+        return io_error!(InvalidInput, "Metadata is too large for a PNG raw profile!");
+    }
+
     // Construct final vector with the bytes as they will be sent to the encoder
     //                               \n       e     x     i     f     \n
     let mut png_exif: Vec<u8> = vec![NEWLINE, 0x65, 0x78, 0x69, 0x66, NEWLINE];
@@ -739,7 +744,7 @@ encode_metadata_png
     png_exif.push(0x30);
     png_exif.push(NEWLINE);
 
-    return png_exif;
+    return Ok(png_exif);
 }
 
 fn
@@ -916,19 +921,19 @@ as_u8_vec
     general_encoded_metadata: &Vec<u8>,
     as_zTXt_chunk:            bool
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
-    let basic_png_encode_result = encode_metadata_png(general_encoded_metadata);
+    let basic_png_encode_result = encode_metadata_png(general_encoded_metadata)?;
 
     if !as_zTXt_chunk
     {
-        return basic_png_encode_result;
+        return Ok(basic_png_encode_result);
     }
 
-    return construct_zTXt_chunk_data(
+    return Ok(construct_zTXt_chunk_data(
         &[0x7a, 0x54, 0x58, 0x74], 
         &basic_png_encode_result
-    );
+    ));
 }
 
 
-- 
2.43.0


From b3a037e3bab549aa72dbdf431e655b6cc4e6a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 28/59] fix: restore the buffer if modifying the image in it
 fails

---
 src/metadata/metadata_io.rs | 45 +++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index f927f00..744adc7 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -18,6 +18,27 @@ use crate::webp;
 
 use super::Metadata;
 
+/// Runs an operation that modifies the given buffer. As such an operation might
+/// fail after it already changed something, the buffer gets restored then.
+fn
+restore_on_error
+(
+    file_buffer: &mut Vec<u8>,
+    operation:   impl FnOnce(&mut Vec<u8>) -> Result<(), std::io::Error>
+)
+-> Result<(), std::io::Error>
+{
+    let backup = file_buffer.clone();
+    let result = operation(file_buffer);
+
+    if result.is_err()
+    {
+        *file_buffer = backup;
+    }
+
+    return result;
+}
+
 impl
 Metadata
 {
@@ -192,7 +213,7 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        restore_on_error(file_buffer, |file_buffer| match file_type
         {
             FileExtension::HEIF
                 => heif::clear_metadata(file_buffer),
@@ -207,14 +228,14 @@ Metadata
             FileExtension::WEBP
                 => webp::vec::clear_metadata(file_buffer),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP12 segment in a JPEG file that contains data resulting
@@ -230,19 +251,19 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        restore_on_error(file_buffer, |file_buffer| match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::clear_segment(file_buffer, 0xec, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_app12_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP13 segment in a JPEG file that contains data resulting
@@ -258,19 +279,19 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        restore_on_error(file_buffer, |file_buffer| match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::clear_segment(file_buffer, 0xed, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_app13_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP12 segment in a JPEG file that contains data resulting
@@ -418,7 +439,7 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        restore_on_error(file_buffer, |file_buffer| match file_type
         {
             FileExtension::HEIF
                 => heif::write_metadata(file_buffer, self),
@@ -433,14 +454,14 @@ Metadata
             FileExtension::WEBP
                 => webp::vec::write_metadata(file_buffer, self),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'file_clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Writes the metadata to the specified file.
-- 
2.43.0


From 613de42b44539eb00150f99c0e86f9eefcac3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 29/59] fix: handle WebP chunks with a huge claimed length

---
 src/webp/vec.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 09bb787..82ebd67 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -67,14 +67,15 @@ get_next_chunk
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)? as u64;
 
     // Account for the possible padding byte
     chunk_length += chunk_length % 2;
 
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = cursor.read(&mut chunk_data_buffer)?;
+    // Read RIFF chunk data (without allocating memory for data that might not
+    // exist)
+    let mut chunk_data_buffer = Vec::new();
+    bytes_read = cursor.take(chunk_length).read_to_end(&mut chunk_data_buffer)?;
     if bytes_read != chunk_length as usize
     {
         return io_error!(
-- 
2.43.0


From 29236c140bb1b01fe2f03f82860511766d103284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 30/59] fix: remove the right bytes when clearing a WebP buffer

---
 src/webp/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 82ebd67..50b035f 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -549,8 +549,8 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Skip the RIFF signature, file size and WEBP signature
+    cursor.set_position(12);
 
     for parsed_chunk in parse_webp_result
     {
-- 
2.43.0


From 89557adebcf0fb5fd0ddb931243c6186400a012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 31/59] fix: report WebP files with an impossible size or
 without flags

---
 src/webp/vec.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 50b035f..d980f2b 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -365,14 +365,15 @@ update_file_size_information
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
     // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    let Ok(new_file_size) = u32::try_from(old_file_size as i64 + delta as i64) else
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
+        return io_error!(InvalidData, "WebP file size out of range!");
+    };
 
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    if old_file_size % 2 != 0 || new_file_size % 2 != 0
+    {
+        return io_error!(InvalidData, "WebP file size is not even!");
+    }
 
     // ...and writing back to file...
     cursor.set_position(4);
@@ -502,13 +503,18 @@ set_exif_flag
     // Mask the old flag by either or-ing with 1 at the EXIF flag position for
     // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
     // to set it to false
-    cursor.get_mut()[20] = if exif_flag_value
+    let Some(flags) = cursor.get_mut().get_mut(20) else
+    {
+        return io_error!(InvalidData, "VP8X chunk of WebP file has no flags!");
+    };
+
+    *flags = if exif_flag_value
     {
-        cursor.get_ref()[20] | 0x08
+        *flags | 0x08
     }
     else
     {
-        cursor.get_ref()[20] & 0b11110111
+        *flags & 0b11110111
     };
 
     Ok(())
-- 
2.43.0


From 2fa464ec532b15a5406f141730457c8b646416b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 32/59] fix: clear WebP Exif chunks even if the Exif flag is
 not set

---
 src/webp/vec.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index d980f2b..2d35e72 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -529,28 +529,23 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut cursor, parse_webp_result) = match check_exif_in_file(file_buffer) 
+    // Check the file signature, parse it and check that it has a VP8X chunk
+    // The EXIF flag there is not relevant, an EXIF chunk gets removed anyways
+    let parse_webp_result = parse_webp(file_buffer)?;
+
+    match parse_webp_result.first().map(|first_chunk| first_chunk.header()).as_deref()
     {
-        Ok((_file, parse_webp_result)) => (
-            Cursor::new(file_buffer), 
-            parse_webp_result
-        ),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
+        Some("VP8X")
+            => (),
+        Some("VP8 ") | Some("VP8L")
+            => return Ok(()), // Simple File Format without EXIF metadata
+        Some(header)
+            => return io_error!(Other, format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {header}!")),
+        None
+            => return io_error!(Other, "Could not read first chunk descriptor of WebP file!"),
+    }
+
+    let mut cursor = Cursor::new(file_buffer);
 
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
-- 
2.43.0


From 8aa75335c00e660336b8fe8c17755ed00d1d905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 33/59] fix: convert simple lossy WebP buffers to the extended
 format

---
 src/webp/mod.rs | 10 ++++++----
 src/webp/vec.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..62075c0 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -155,10 +155,7 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
-    let header_magic = payload[3..=5].to_vec();
-    if 
-        header_magic.len() != 3 || 
-        !matches!(header_magic.as_slice(), &[0x9d, 0x01, 0x2a]) 
+    if payload.len() < 10 || payload[3..=5] != [0x9d, 0x01, 0x2a]
     {
         return io_error!(Other, "Invalid VP8 Frame Header Magic");
     }
@@ -174,5 +171,10 @@ get_dimension_info_from_vp8_chunk
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(InvalidData, "VP8 frame without width or height");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
 }
\ No newline at end of file
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 2d35e72..51f9feb 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -405,7 +405,7 @@ convert_to_extended_format
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
-- 
2.43.0


From 7c94a521b320b6bd2148f73d838f8442df0cc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 34/59] fix: read the dimensions of lossless WebP images in the
 right bit order

---
 src/webp/file.rs | 23 +++++++++--------------
 src/webp/vec.rs  | 23 +++++++++--------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index acccb55..6f528c5 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -476,25 +476,20 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
+    if payload.len() < 5 || payload[0] != 0x2f
+    {
+        return io_error!(InvalidData, "Invalid VP8L signature");
+    }
+
     let width_height_info_buffer = payload[1..5].to_vec();
     
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The bits are stored starting with the least significant one: 14 bits for
+    // the width and 14 bits for the height (both reduced by one)
+    let width  =  width_height_info        & 0x3fff;
+    let height = (width_height_info >> 14) & 0x3fff;
 
     return Ok((width, height));
 }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 51f9feb..f03b51c 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -447,25 +447,20 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
+    if payload.len() < 5 || payload[0] != 0x2f
+    {
+        return io_error!(InvalidData, "Invalid VP8L signature");
+    }
+
     let width_height_info_buffer = payload[1..5].to_vec();
     
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The bits are stored starting with the least significant one: 14 bits for
+    // the width and 14 bits for the height (both reduced by one)
+    let width  =  width_height_info        & 0x3fff;
+    let height = (width_height_info >> 14) & 0x3fff;
 
     return Ok((width, height));
 }
-- 
2.43.0


From 7df33335438ddea462e3eda3d12f88a6b7b97e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 35/59] fix: keep the alpha flag when converting lossless WebP
 images

---
 src/webp/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index f03b51c..a61aa89 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -421,6 +421,12 @@ convert_to_extended_format
         0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
     ];
 
+    // Set the alpha flag if the bit after the dimensions of a VP8L chunk is set
+    if first_chunk.descriptor().header() == "VP8L" && first_chunk.payload()[4] & 0x10 != 0
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     // Add the two 24 bits for width and height information
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-- 
2.43.0


From 2996bd336c113c7ce70dbedaafe500065f347cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 36/59] fix: insert the WebP Exif chunk between image data and
 the other chunks

---
 src/webp/vec.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index a61aa89..9caf958 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -615,14 +615,16 @@ write_metadata
     let encoded_metadata_len = encoded_metadata.len() as i32;
 
     // Find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
+    // This is right behind the last chunk that is both known and should be
+    // located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
+        "ALPH",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF"
     ];
 
     // Clippy wrongly needs this allowance, otherwise it states that this call
@@ -633,6 +635,8 @@ write_metadata
     // I guess there is a less messy solution to this?
     #[allow(clippy::useless_asref)]
     let mut read_cursor = Cursor::new(file_buffer.as_ref());
+    read_cursor.set_position(12);
+    let mut insert_position = 12;
 
     loop
     {
@@ -652,9 +656,9 @@ write_metadata
                     chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
                 }
 
-                if !chunk_type_found_in_pre_exif_chunks
+                if chunk_type_found_in_pre_exif_chunks
                 {
-                    break;
+                    insert_position = read_cursor.position() as usize;
                 }
             },
             Err(e) => {
@@ -670,7 +674,7 @@ write_metadata
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
+    insert_multiple_at(file_buffer, insert_position, &mut encoded_metadata);
 
     // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
-- 
2.43.0


From 270751416bfe25e6cafe0c1f5086868b7a03fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 37/59] fix: let WebP files be read, cleared and written like
 buffers

The separate implementation for files modified the file before it had found
out whether the operation succeeds, and differed from the one for buffers
---
 src/general_file_io.rs |  15 +
 src/webp/file.rs       | 706 +----------------------------------------
 src/webp/mod.rs        |  12 +-
 src/webp/vec.rs        |   2 +-
 4 files changed, 26 insertions(+), 709 deletions(-)

diff --git a/src/general_file_io.rs b/src/general_file_io.rs
index b93d70b..0633349 100644
--- a/src/general_file_io.rs
+++ b/src/general_file_io.rs
@@ -34,6 +34,7 @@ macro_rules! io_error_plain {
 
 use std::fs::File;
 use std::fs::OpenOptions;
+use std::io::Write;
 use std::path::Path;
 
 pub(crate) fn
@@ -72,4 +73,18 @@ open_write_file
 		.open(path)
 }
 
+/// Replaces the content of an already existing file
+pub(crate) fn
+overwrite_file
+(
+	path:    &Path,
+	content: &[u8]
+)
+-> Result<(), std::io::Error>
+{
+	let mut file = open_write_file(path)?;
+	file.write_all(content)?;
+	file.set_len(content.len() as u64)
+}
+
 pub(crate) use io_error;
\ No newline at end of file
diff --git a/src/webp/file.rs b/src/webp/file.rs
index 6f528c5..1e6e7c3 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -1,258 +1,11 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
-use std::io::Read;
-use std::io::Write;
-use std::io::Seek;
-use std::io::SeekFrom;
 use std::path::Path;
 
-use crate::endian::*;
+use crate::general_file_io::overwrite_file;
 use crate::metadata::Metadata;
-use crate::u8conversion::*;
-use crate::general_file_io::*;
-use super::riff_chunk::RiffChunk;
-use super::riff_chunk::RiffChunkDescriptor;
-use super::*;
-
-/// A WebP file starts as follows
-/// - The RIFF signature: ASCII characters "R", "I", "F", "F"  -> 4 bytes
-/// - The file size starting at offset 8                       -> 4 bytes
-/// - The WEBP signature: ASCII characters "W", "E", "B", "P"  -> 4 bytes
-/// 
-/// This function checks these 3 sections and their correctness after making
-/// sure that the file actually exists and can be opened. 
-/// Finally, the file struct is returned for further processing
-fn
-check_signature
-(
-    path: &Path
-)
--> Result<File, std::io::Error>
-{
-    let mut file = open_write_file(path)?;
-
-    // Get the first 12 bytes that are required for the following checks
-    let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
-
-    if bytes_read != 12
-    {
-        return io_error!(InvalidData, "Can't open WebP file - Can't read & check signature!");
-    }
-
-    let first_12_bytes_vec = first_12_bytes.to_vec();
-    
-    // Perform checks
-    check_riff_signature(&first_12_bytes_vec             )?;
-    check_byte_count(    &first_12_bytes_vec, Some(&file))?;
-    check_webp_signature(&first_12_bytes_vec             )?;
-
-    // Signature is valid - can proceed using the file as WebP file
-    return Ok(file);
-}
-
-
-
-/// Gets the next RIFF chunk, starting at the current file cursor
-/// Advances the cursor to the start of the next chunk
-fn
-get_next_chunk
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunk, std::io::Error>
-{
-    // Read the start of the chunk
-    let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
-
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(UnexpectedEof, "Could not read start of chunk");
-    }
-
-    // Construct name of chunk and its length
-    let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
-
-    // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
-
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
-    {
-        return io_error!(
-            Other, 
-            format!("Could not read RIFF chunk data! Expected {chunk_length} bytes but read {bytes_read}")
-        );
-    }
-
-    if let Ok(parsed_chunk_name) = chunk_name
-    {
-        return Ok(RiffChunk::new(
-            parsed_chunk_name as String, 
-            chunk_length      as usize,
-            chunk_data_buffer as Vec<u8>
-        ));
-    }
-    else
-    {
-        return io_error!(Other, "Could not parse RIFF fourCC chunk name!");
-    }
-}
-
-
-
-/// Gets a descriptor of the next RIFF chunk, starting at the current file
-/// cursor position. Advances the cursor to the start of the next chunk
-/// Relies on `get_next_chunk` by basically calling that function and throwing
-/// away the actual payload
-fn
-get_next_chunk_descriptor
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunkDescriptor, std::io::Error>
-{
-    let next_chunk_result = get_next_chunk(file)?;
-    return Ok(next_chunk_result.descriptor());
-}
-
-
-
-/// "Parses" the WebP file by checking various properties:
-/// - Can the file be opened and is the signature valid, including the file size?
-/// - Are the chunks and their size descriptions OK? Relies on the local subroutine `get_next_chunk_descriptor`
-pub(crate) fn
-parse_webp
-(
-    path: &Path
-)
--> Result<Vec<RiffChunkDescriptor>, std::io::Error>
-{
-    let mut file   = check_signature(path)?;
-    let mut chunks = Vec::new();
-
-    // The amount of data we expect to read while parsing the chunks
-    let expected_length = file.metadata()?.len();
-
-    // How much data we have parsed so far.
-    // Starts with 12 bytes: 
-    // - 4 bytes for RIFF signature
-    // - 4 bytes for file size
-    // - 4 bytes for WEBP signature
-    // These bytes are already read in by the `check_signature` subroutine
-    let mut parsed_length = 12u64;
-
-    loop
-    {
-        let next_chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-        if let Ok(chunk_descriptor) = next_chunk_descriptor_result
-        {
-            // The parsed length increases by the length of the chunk's 
-            // header (4 byte) + it's size section (4 byte) and the payload
-            // size, which is noted by the aforementioned size section
-            parsed_length += 4u64 + 4u64 + chunk_descriptor.len() as u64;
-
-            // Add the chunk descriptor
-            chunks.push(chunk_descriptor);
-            
-            if parsed_length == expected_length
-            {
-                // In this case we don't expect any more data to be in the file
-                break;
-            }
-        }
-        else
-        {
-            // This is the case when the read of the next chunk descriptor 
-            // fails due to not being able to fetch 8 bytes for the header and
-            // chunk size information, indicating that there is no further data
-            // in the file and we are done with parsing.
-            // If the subroutine fails due to other reasons, the error gets
-            // propagated further.
-            if let Err(e) = next_chunk_descriptor_result
-            {
-                if e.kind() == std::io::ErrorKind::UnexpectedEof
-                {
-                    break;
-                }
-                else
-                {
-                    return Err(e);
-                }
-            }
-        }
-    }
-
-    return Ok(chunks);
-}
-
-
-
-fn
-check_exif_in_file
-(
-    path: &Path
-)
--> Result<(File, Vec<RiffChunkDescriptor>), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise, the file is either invalid ("VP8X" at wrong location) or a 
-    // Simple File Format WebP file which don't contain any EXIF metadata.
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header.
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            return io_error!(
-                Other, 
-                format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
-            );
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }
-
-    // Finally, check the flag by opening up the file and reading the data of
-    // the VP8X chunk
-    // Regarding the seek:
-    // - RIFF + file size + WEBP -> 12 byte
-    // - VP8X header             ->  4 byte
-    // - VP8X chunk size         ->  4 byte
-    let mut file = check_signature(path)?;
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Check the 5th bit of the 32 bit flag_buffer. 
-    // For further details see the Extended File Format section at
-    // https://developers.google.com/speed/webp/docs/riff_container#extended_file_format
-    if flag_buffer[0] & 0x08 != 0x08
-    {
-        return io_error!(Other, "No EXIF chunk according to VP8X flags!");
-    }
-
-    return Ok((file, parsed_webp_result));
-}
-
-
+use super::vec;
 
 /// Reads the raw EXIF data from the WebP file. Note that if the file contains
 /// multiple such chunks, the first one is returned and the others get ignored.
@@ -263,295 +16,7 @@ read_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = check_exif_in_file(path)?;
-
-    // At this point we have established that the file has to contain an EXIF
-    // chunk at some point. So, now we need to find & return it
-    // Start by seeking to the start of the first chunk and visiting chunk after
-    // chunk via checking the type and seeking again to the next chunk via the
-    // size information
-    file.seek(SeekFrom::Start(12u64))?;
-    let mut header_buffer = vec![0u8; 4usize];
-    let mut chunk_index = 0usize;
-    loop
-    {
-        // Read the chunk type into the buffer
-        if file.read(&mut header_buffer)? != 4
-        {
-            return io_error!(Other, "Could not read chunk type while traversing WebP file!");
-        }
-        let chunk_type = String::from_u8_vec(&header_buffer.to_vec(), &Endian::Little);
-
-        // Check that this is still the type that we expect from the previous
-        // parsing over the file
-        // TODO: Maybe remove this part?
-        let Some(chunk_at_index) = parse_webp_result.get(chunk_index) else
-        {
-            return io_error!(
-                Other, 
-                format!("Could not get chunk descriptor at index {} while traversing WebP file!", chunk_index)
-            );
-        }; 
-
-        let expected_chunk_type = chunk_at_index.header();
-        if chunk_type != expected_chunk_type
-        {
-            return io_error!(
-                Other, 
-                format!("Got unexpected chunk type! Expected {} but got {}", 
-                    expected_chunk_type, 
-                    chunk_type
-                )
-            );
-        }
-
-        // Get the size of this chunk from the previous parsing process and skip
-        // the 4 bytes regarding the size
-        let chunk_size = chunk_at_index.len();
-        file.seek(std::io::SeekFrom::Current(4))?;
-
-        if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = file.read(&mut payload_buffer)?;
-
-            if bytes_read != chunk_size
-            {
-                return io_error!(
-                    Other, 
-                    format!("Could not read entire EXIF chunk data! Expected {chunk_size} bytes but read {bytes_read}")
-                );
-            }
-
-            // Add the 6 bytes of the EXIF_HEADER as Prefix for the generic EXIF
-            // data parser that is called on the result of this read function
-            // Otherwise the result would directly start with the Endianness
-            // information, leading to a failed EXIF header signature check in 
-            // the function `decode_metadata_general`
-            // Some encoders already include the prefix in the chunk
-            if payload_buffer.starts_with(&EXIF_HEADER)
-            {
-                return Ok(payload_buffer);
-            }
-
-            let mut raw_exif_data = EXIF_HEADER.to_vec();
-            raw_exif_data.append(&mut payload_buffer);
-
-            return Ok(raw_exif_data);
-        }
-        else
-        {
-            // Skip the entire chunk
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64))?;
-
-            // Note that we have to seek another byte in case the chunk is of 
-            // uneven size to account for the padding byte that must be included
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64 % 2))?;
-        }
-
-        // Update for next loop iteration
-        chunk_index += 1;
-    }
-}
-
-
-
-fn
-update_file_size_information
-(
-    file:  &mut File,
-    delta: i32
-)
--> Result<(), std::io::Error>
-{
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    file.seek(SeekFrom::Start(4))?;
-    let mut file_size_buffer = [0u8; 4];
-
-    // ...converting it to u32 representation...
-    let bytes_read = file.read(&mut file_size_buffer)?;
-
-    if bytes_read != 4
-    {
-        return io_error!(Other, "Could not read file size information from WebP file!");
-    }
-
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
-    {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
-
-    // ...and writing back to file...
-    file.seek(SeekFrom::Start(4))?;
-    file.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
-
-    Ok(())
-}
-
-
-
-fn
-convert_to_extended_format
-(
-    file: &mut File
-)
--> Result<(), std::io::Error>
-{
-    // Start by getting the first chunk of the WebP file
-    file.seek(SeekFrom::Start(12))?;
-    let first_chunk = get_next_chunk(file)?;
-
-    // Find out what simple type of WebP file we are dealing with
-    let (width, height) = match first_chunk.descriptor().header().as_str()
-    {
-        "VP8 " 
-            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
-        "VP8L"
-            => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
-        _ 
-            => io_error!(Other, "Expected either 'VP8 ' or 'VP8L' chunk for conversion!")
-    }?;
-
-    let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
-    let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
-
-    let mut vp8x_chunk = vec![
-        0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
-        0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
-    ];
-
-    // Add the two 24 bits for width and height information
-    for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-    for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-
-    // Write the VP8X chunk, first by reading the file (except for the header)
-    // into a buffer...
-    let mut buffer = Vec::new();
-    file.seek(SeekFrom::Start(12u64))?;
-    file.read_to_end(&mut buffer)?;
-
-    // ...actually writing the VP8X chunk data...
-    file.seek(SeekFrom::Start(12u64))?;
-    if file.write(&vp8x_chunk)? != vp8x_chunk.len()
-    {
-        return io_error!(Other, "Could not write entire VP8X chunk data!");
-    }
-
-    // ...and writing back the file contents
-    if file.write(&buffer)? != buffer.len()
-    {
-        return io_error!(Other, "Could not write back entire WebP file data!");
-    }
-
-    // Finally, update the file size information
-    update_file_size_information(file, 18)?;
-
-    Ok(())
-}
-
-
-
-fn
-get_dimension_info_from_vp8l_chunk
-(
-    payload: &[u8],
-)
--> Result<(u32, u32), std::io::Error>
-{
-    // Get the 4 bytes containing the dimension information
-    // (although we only need 28 bits)
-    // Starting at byte 1 instead of 0 due to the 0x2F byte
-    // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    if payload.len() < 5 || payload[0] != 0x2f
-    {
-        return io_error!(InvalidData, "Invalid VP8L signature");
-    }
-
-    let width_height_info_buffer = payload[1..5].to_vec();
-    
-    // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    // The bits are stored starting with the least significant one: 14 bits for
-    // the width and 14 bits for the height (both reduced by one)
-    let width  =  width_height_info        & 0x3fff;
-    let height = (width_height_info >> 14) & 0x3fff;
-
-    return Ok((width, height));
-}
-
-
-
-fn
-set_exif_flag
-(
-    path:  &Path,
-    exif_flag_value: bool
-)
--> Result<(), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Open the file for further processing
-    let mut file = check_signature(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise we have to create the VP8X chunk!
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            convert_to_extended_format(&mut file)?;
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }	
-
-    // At this point we know that we have a VP8X chunk at the expected location
-    // So, read in the flags and set the EXIF flag according to the given bool
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
-    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
-    // to set it to false
-    flag_buffer[0] = if exif_flag_value
-    {
-        flag_buffer[0] | 0x08
-    }
-    else
-    {
-        flag_buffer[0] & 0b11110111
-    };
-
-    // Write flag buffer back to the file
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    file.write_all(&flag_buffer)?;
-
-    Ok(())
+    vec::read_metadata(&std::fs::read(path)?)
 }
 
 
@@ -563,86 +28,10 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
-    {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
-
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
-
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
-
-    for parsed_chunk in parse_webp_result
-    {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
-        // Compute how many bytes this chunk has
-        let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
-        ;
-
-        // Not an EXIF chunk, seek to next one and continue
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-            continue;
-        }
-
-        // Get the current size of the file in bytes
-        let old_file_byte_count = file.metadata()?.len();
+    let mut file_buffer = std::fs::read(path)?;
+    vec::clear_metadata(&mut file_buffer)?;
 
-        // Get a backup of the current cursor position
-        let exif_chunk_start_cursor_position = SeekFrom::Start(file.stream_position()?);
-
-        // Skip the EXIF chunk ...
-        file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-
-        // ...and copy everything afterwards into a buffer...
-        let mut buffer = Vec::new();
-        file.read_to_end(&mut buffer)?;
-
-        // ...and seek back to where the EXIF chunk is located...
-        file.seek(exif_chunk_start_cursor_position)?;
-
-        // ...and overwrite the EXIF chunk...
-        file.write_all(&buffer)?;
-
-        // ...and finally update the size of the file
-        file.set_len(old_file_byte_count - parsed_chunk_byte_count)?;
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
-    }
-
-    // Update file size information
-    update_file_size_information(&mut file, delta)?;
-    
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(path, false)?;
-
-    return Ok(());
+    overwrite_file(path, &file_buffer)
 }
 
 
@@ -659,91 +48,14 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
-
-    // Encode the general metadata format to WebP specifications
-    let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-
-    // Open the file...
-    let mut file = check_signature(path)?;
-
-    // ...and find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
-    let pre_exif_chunks = [
-        "VP8X",
-        "VP8",
-        "VP8L",
-        "ICCP",
-        "ANIM"
-    ];
-
-    loop
-    {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
+    let mut file_buffer = std::fs::read(path)?;
+    vec::write_metadata(&mut file_buffer, metadata)?;
 
-        match chunk_descriptor_result
-        {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
-        }
-    }
-
-    // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
-    let mut read_buffer = Vec::new();
-    file.read_to_end(&mut read_buffer)?;
-
-    // ...and write the EXIF chunk at the previously found location...
-    file.seek(current_file_cursor)?;
-    file.write_all(&encoded_metadata)?;
-
-    // ...and writing back the remaining file content
-    file.write_all(&read_buffer)?;
-
-    // Update the file size information by adding the byte count of the EXIF chunk
-    // (Note: Due to  the WebP specific encoding function, this vector already
-    // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
-    update_file_size_information(&mut file, encoded_metadata.len() as i32)?;
-
-    // Finally, set the EXIF flag
-    set_exif_flag(path, true)?;
-
-    return Ok(());
+    overwrite_file(path, &file_buffer)
 }
 
 
 
-
-
 #[cfg(test)]
 mod tests 
 {
diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 62075c0..c5b050b 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -11,8 +11,6 @@ pub(crate) const WEBP_SIGNATURE:       [u8; 4] = [0x57, 0x45, 0x42, 0x50];
 pub(crate) const VP8X_HEADER:          &str    = "VP8X";
 pub(crate) const EXIF_CHUNK_HEADER:    &str    = "EXIF";
 
-use std::fs::File;
-
 use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::io_error_plain;
@@ -71,7 +69,6 @@ fn
 check_byte_count
 (
     file_buffer: &[u8],
-    opt_file:     Option<&File>,
 )
 -> Result<(), std::io::Error>
 {
@@ -83,14 +80,7 @@ check_byte_count
         io_error_plain!(InvalidData, "Can't open WebP file - Byte count in RIFF header is too large!")
     )?;
 
-    if let Some(file) = opt_file
-    {
-        if file.metadata()?.len() != byte_count as u64
-        {
-            return io_error!(InvalidData, "Can't open WebP file - Promised byte count does not correspond with file size!");
-        }
-    }
-    else if file_buffer.len() != byte_count as usize
+    if file_buffer.len() != byte_count as usize
     {
         return io_error!(InvalidData, format!("Can't handle WebP file buffer - Promised byte count {} does not correspond with file buffer length {}!", byte_count, file_buffer.len()));
     }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 9caf958..8de8d78 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -34,7 +34,7 @@ check_signature
     }
 
     check_riff_signature(file_buffer      )?;
-    check_byte_count(    file_buffer, None)?;
+    check_byte_count(    file_buffer)?;
     check_webp_signature(file_buffer      )?;
 
     let mut cursor = Cursor::new(file_buffer);
-- 
2.43.0


From ffa825e1c20b537e99ac67ffabfe976ff0a182eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 38/59] fix: replace the entire content when writing TIFF data

---
 src/tiff/file.rs | 12 ++++--------
 src/tiff/mod.rs  | 10 +++-------
 src/tiff/vec.rs  | 16 ++++++----------
 3 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..6031ce9 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,11 +2,10 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::BufWriter;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
-use crate::general_file_io::open_write_file;
+use crate::general_file_io::overwrite_file;
 use crate::metadata::Metadata;
 
 use super::generic_read_metadata;
@@ -37,10 +36,8 @@ clear_metadata
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	// Replace the entire content of the file with the reduced data
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -51,6 +48,5 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
+	return overwrite_file(path, &generic_write_metadata(metadata)?);
 }
\ No newline at end of file
diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 9b51379..cda94bc 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -3,7 +3,6 @@
 
 use std::io::Seek;
 use std::io::Read;
-use std::io::Write;
 
 use crate::general_file_io::EXIF_HEADER;
 use crate::io_error;
@@ -13,23 +12,20 @@ use crate::ifd::ExifTagGroup::*;
 pub mod file;
 pub mod vec;
 
+/// Encodes the metadata as the new content of an entire tiff file
 pub(crate) fn
 generic_write_metadata
-<T: Seek + Write>
 (
-    cursor:   &mut T,
     metadata: &Metadata
 )
--> Result<(), std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
     // First, check for required tags
     check_for_required_tags(metadata)?;
 
     // Does *not* call generic_clear_metadata, as the entire tiff data gets
     // overwritten anyways
-    cursor.write_all(&metadata.encode()?)?;
-
-    return Ok(());
+    return metadata.encode();
 }
 
 fn
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..fd50dfd 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -26,20 +26,15 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-	// Create cursor
-	let mut cursor           = Cursor::new(file_buffer);
-	let     cursor_start_pos = cursor.position();
-
 	// Read in the data
-	let     raw_data = generic_read_metadata(&mut cursor);
+	let     raw_data = read_metadata(file_buffer);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	// Replace the entire content of the buffer with the reduced data
+	return write_metadata(file_buffer, &data);
 }
 
 pub(crate) fn
@@ -50,6 +45,7 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	*file_buffer = generic_write_metadata(metadata)?;
+
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From fa20a99851b031378b57e65f13d93ae73a1b3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 39/59] fix: keep all tags required for decoding TIFF images
 when clearing

---
 src/metadata/edit.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/metadata/edit.rs b/src/metadata/edit.rs
index d3f85de..5c10043 100644
--- a/src/metadata/edit.rs
+++ b/src/metadata/edit.rs
@@ -6,6 +6,13 @@ use crate::ifd::ExifTagGroup;
 
 use super::Metadata;
 
+/// Tags that are required for decoding the image data of some TIFF variants
+/// but are not part of the known tags: NewSubfileType, FillOrder, T4Options,
+/// T6Options, Predictor, InkSet, ExtraSamples, SampleFormat and JPEGTables
+const REQUIRED_UNKNOWN_TAGS: [u16; 9] = [
+	0x00fe, 0x010a, 0x0124, 0x0125, 0x013d, 0x014c, 0x0152, 0x0153, 0x015b
+];
+
 impl
 Metadata
 {
@@ -46,6 +53,14 @@ Metadata
 					| ExifTag::YResolution(_)
 					| ExifTag::ResolutionUnit(_)
 					| ExifTag::ColorMap(_)
+					| ExifTag::PlanarConfiguration(_)
+					| ExifTag::YCbCrCoefficients(_)
+					| ExifTag::YCbCrSubSampling(_)
+					| ExifTag::YCbCrPositioning(_)
+					| ExifTag::ReferenceBlackWhite(_)
+					=> (),
+
+					_ if REQUIRED_UNKNOWN_TAGS.contains(&tag.as_u16())
 					=> (),
 
 					_ 
-- 
2.43.0


From 0e167b010bd289fc1622f5040f8f9b982c7be5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 40/59] fix: handle all forms of box lengths in JXL files

Open-ended, 64 bit, truncated and too small boxes led to endless loops, panics
or lost data. Files are now changed like buffers and only if this succeeds,
clearing a codestream without container is no longer an error, the size of
decompressed data is limited and the offset of the TIFF header respected.
---
 src/jxl.rs | 354 ++++++++++++++++++++---------------------------------
 1 file changed, 131 insertions(+), 223 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..b1630b9 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -1,15 +1,11 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
-use std::io::Cursor;
 use std::io::Read;
-use std::io::Seek;
-use std::io::SeekFrom;
-use std::io::Write;
 use std::path::Path;
 
 use crate::endian::Endian;
+use crate::io_error_plain;
 use crate::metadata::Metadata;
 use crate::u8conversion::*;
 use crate::general_file_io::*;
@@ -35,6 +31,9 @@ pub(crate) const ISO_BMFF_EXIF_MINOR_VERSION: [u8; 4] = [0x00, 0x00, 0x00, 0x06]
 
 pub(crate) const BROB_BOX: [u8; 4] = [0x62, 0x72, 0x6f, 0x62];
 
+const BROTLI_BUFFER_SIZE:         usize = 4096;
+const MAX_DECOMPRESSED_EXIF_SIZE: u64   = 64 * 1024 * 1024;
+
 #[non_exhaustive]
 struct IsoBmffBoxType;
 
@@ -101,26 +100,61 @@ check_signature
     return Ok(());
 }
 
+/// The position of a box within the file buffer
+struct
+BoxLocation
+{
+    box_type: [u8; 4],
+    start:    usize,   // Where the header of the box starts
+    content:  usize,   // Where the content of the box starts
+    end:      usize,   // Where the next box starts
+}
+
+/// Determines the location of the box that starts at the given position.
+/// A length of 1 is an indicator for the actual length being stored in the 8
+/// bytes after the box type, while a length of 0 marks a box that extends to
+/// the end of the file.
 fn
-file_check_signature
+locate_box
 (
-    path: &Path
+    file_buffer: &[u8],
+    start:       usize
 )
--> Result<File, std::io::Error>
+-> Result<BoxLocation, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
+    let invalid_length = || io_error_plain!(InvalidData, "Invalid box length found in JXL data!");
 
-    let mut signature_buffer = [0u8; 12];
-    let bytes_read = file.read(&mut signature_buffer)?;
+    let Some(header) = file_buffer.get(start..).and_then(|remaining| remaining.get(0..8)) else
+    {
+        return io_error!(UnexpectedEof, "Could not read start of JXL box!");
+    };
+
+    let box_type       = [header[4], header[5], header[6], header[7]];
+    let mut header_len = 8;
+    let mut length     = from_u8_vec_res_macro!(u32, &header[0..4], &Endian::Big)? as u64;
 
-    if bytes_read != 12
+    if length == 0
+    {
+        length = (file_buffer.len() - start) as u64;
+    }
+    else if length == 1
     {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read signature!");
+        let large_length = file_buffer.get(start+8..start+16).ok_or_else(invalid_length)?;
+        length           = from_u8_vec_res_macro!(u64, large_length, &Endian::Big)?;
+        header_len       = 16;
     }
 
-    check_signature(&signature_buffer)?;
+    if length < header_len as u64 || length > (file_buffer.len() - start) as u64
+    {
+        return Err(invalid_length());
+    }
 
-    return Ok(file);
+    return Ok(BoxLocation {
+        box_type,
+        start,
+        content: start + header_len,
+        end:     start + length as usize
+    });
 }
 
 
@@ -132,6 +166,12 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // A simple codestream can't contain any metadata
+    if starts_with_jxl_signature(file_buffer)
+    {
+        return Ok(());
+    }
+
     check_signature(file_buffer)?;
 
     let mut position = 0;
@@ -140,27 +180,16 @@ clear_metadata
     {
         if position >= file_buffer.len() { return Ok(()); }
 
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
-
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
+        let location = locate_box(file_buffer, position)?;
 
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
+        if box_contains_exif(file_buffer, &location)
         {
-            range_remove(file_buffer, position, position+length);
+            range_remove(file_buffer, location.start, location.end);
         }
         else
         {
             // Not an EXIF box so skip it
-            position += length;
+            position = location.end;
         }
     }
 }
@@ -172,93 +201,27 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut file = file_check_signature(path)?;
-
-    let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
-
-    loop
-    {
-        let position        = file.stream_position()?;
-        let old_file_length = file.metadata()?.len();
-        if position >= old_file_length { return Ok(()); }
-
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
-
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+    let mut file_buffer = std::fs::read(path)?;
+    clear_metadata(&mut file_buffer)?;
 
-        if box_contains_exif(&mut file, type_buffer)?
-        {
-            // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-
-
-            // ... copy everything from here onwards into a buffer ...
-            let mut buffer = Vec::new();
-            file.read_to_end(&mut buffer)?;
-
-            // ... seek back to the start of the EXIF box ...
-            file.seek(std::io::SeekFrom::Start(position))?;
-
-            // ... overwrite everything from here onward ...
-            file.write_all(&buffer)?;
-            file.seek(std::io::SeekFrom::Start(position))?;
-
-            // ... and finally update the file size - otherwise there will be
-            // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
-        }
-        else
-        {
-            // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-        }
-    }
+    return overwrite_file(path, &file_buffer);
 }
 
 
-fn
-check_brob_type_for_exif
-<T: Seek + Read>
-(
-    cursor: &mut T
-)
--> Result<bool, std::io::Error>
-{
-    // Check if the next for 4 bytes say 'Exif'
-    let mut brob_type = [0u8; 4];
-    cursor.read_exact(&mut brob_type)?;
-
-    // Seek back to position prior to brob type
-
-    cursor.seek(SeekFrom::Current(-4))?;
-
-    return Ok(brob_type == EXIF);
-}
-
-
-
 fn
 box_contains_exif
-<T: Seek + Read>
 (
-    cursor:      &mut T,
-    type_buffer:  [u8; 4],
+    file_buffer: &[u8],
+    location:    &BoxLocation
 )
--> Result<bool, std::io::Error>
+-> bool
 {
-    if type_buffer == EXIF
+    match location.box_type
     {
-        return Ok(true);
+        EXIF     => true,
+        BROB_BOX => file_buffer[location.content..location.end].starts_with(&EXIF),
+        _        => false
     }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
-    {
-        return Ok(true);
-    }
-
-    return Ok(false);
 }
 
 
@@ -272,115 +235,77 @@ read_metadata
 {
     check_signature(file_buffer)?;
 
-    let mut cursor = Cursor::new(file_buffer);
+    let mut position = 0;
+
+    loop
+    {
+        let location = locate_box(file_buffer, position)?;
+
+        if box_contains_exif(file_buffer, &location)
+        {
+            let content = &file_buffer[location.content..location.end];
+
+            if location.box_type == EXIF
+            {
+                return get_exif_from_box_content(content);
+            }
+
+            // Brotli encoded data, starting after the 4 bytes for the type of
+            // the compressed box
+            let mut decompressed = Vec::new();
+            brotli::Decompressor::new(&content[4..], BROTLI_BUFFER_SIZE)
+                .take(MAX_DECOMPRESSED_EXIF_SIZE + 1)
+                .read_to_end(&mut decompressed)?;
+
+            if decompressed.len() as u64 > MAX_DECOMPRESSED_EXIF_SIZE
+            {
+                return io_error!(InvalidData, "Compressed JXL EXIF data is too large!");
+            }
 
-    return generic_read_metadata(&mut cursor);
+            return get_exif_from_box_content(&decompressed);
+        }
+
+        // Not an EXIF box so skip it
+        position = location.end;
+    }
 }
 
-pub(crate) fn
-file_read_metadata
+/// The content of an EXIF box starts with 4 bytes that tell where in the data
+/// after these 4 bytes the TIFF header is located
+fn
+get_exif_from_box_content
 (
-    path: &Path
+    content: &[u8]
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut file = open_read_file(path)?;
+    if content.len() < 4
+    {
+        return io_error!(InvalidData, "JXL EXIF box is too small!");
+    }
 
-    // Read first 12 bytes and check that we have a ISO BMFF file
-    let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
+    let (offset_bytes, exif) = content.split_at(4);
+    let offset               = from_u8_vec_res_macro!(u32, offset_bytes, &Endian::Big)? as usize;
 
-    if bytes_read != 12
+    if let Some(tiff) = exif.get(offset..)
     {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read & check ISO BMFF signature!");
+        if tiff.starts_with(&LITTLE_ENDIAN_INFO) || tiff.starts_with(&BIG_ENDIAN_INFO)
+        {
+            return Ok(tiff.to_vec());
+        }
     }
 
-    check_signature(&first_12_bytes)?;
-
-    return generic_read_metadata(&mut file);
+    return Ok(exif.to_vec());
 }
 
-fn
-generic_read_metadata
-<T: Seek + Read>
+pub(crate) fn
+file_read_metadata
 (
-    cursor: &mut T
+    path: &Path
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    loop
-    {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
-
-        match type_buffer
-        {
-            EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
-                cursor.read_exact(&mut exif_buffer)?;
-
-                return Ok(exif_buffer);
-            },
-
-            BROB_BOX => { // -> Brotli encoded data
-
-                let position = cursor.stream_position()? as usize;
-
-                if check_brob_type_for_exif(cursor)?
-                {
-                    // Skip the next 4 bytes (which contain the minor version???)
-                    cursor.seek(SeekFrom::Current(4))?;
-
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
-                    cursor.read_exact(&mut compressed_exif_buffer)?;
-                    
-                    let mut decompressed_exif_buffer = Vec::new();
-
-                    match brotli::BrotliDecompress(
-                        &mut Cursor::new(compressed_exif_buffer), 
-                        &mut decompressed_exif_buffer
-                    ) 
-                    {
-                        Ok(_)  => (),
-                        Err(e) => return Err(e)
-                    };
-
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
-                }
-                else 
-                {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
-                }
-            }
-
-            _ => {
-                // Not an EXIF box so skip it
-                cursor.seek(SeekFrom::Current(length as i64))?;
-            }
-        }
-    }
+    return read_metadata(&std::fs::read(path)?);
 }
 
 fn
@@ -415,35 +340,21 @@ find_insert_position
 )
 -> Result<usize, std::io::Error>
 {
-    let mut cursor = Cursor::new(file_buffer);
+    let mut position = 0;
 
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
-
-        match type_buffer
+        let location = locate_box(file_buffer, position)?;
+
+        match location.box_type
         {
             IsoBmffBoxType::JXL |
             IsoBmffBoxType::FTYP => {
                 // Place exif box after these boxes
-                cursor.seek(SeekFrom::Current(length as i64))?;
+                position = location.end;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(location.start);
             }
         }
     }
@@ -500,18 +411,15 @@ file_write_metadata
 {
     // Load the entire file into memory instead of performing multiple read, 
     // seek and write operations
-    let mut file = open_write_file(path)?;
-    let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
+    let mut file_buffer = std::fs::read(path)?;
 
     // Writes the metadata to the file_buffer vec
     // The called function handles the removal of old metadata and the JXL
     // specific encoding, so we pass only the generally encoded metadata here
     write_metadata(&mut file_buffer, metadata)?;
 
-    // Seek back to start & write the file
-    file.seek(SeekFrom::Start(0))?;
-    file.write_all(&file_buffer)?;
+    // Write the file
+    overwrite_file(path, &file_buffer)?;
 
     return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From bbd74db5ffb66199cac1459b0c191f7855d4e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 41/59] fix: remove ranges without moving the remaining data
 element by element

---
 src/util.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index efade4c..eb1aa0c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -287,14 +287,7 @@ where T: Copy
     if end >= old_vec_len { vec.truncate(start); return; }
 
     // Otherwise, move the elements starting at end over to the left
-    for (dst_offset, src_index) in (end..old_vec_len).enumerate()
-    {
-        vec[start + dst_offset] = vec[src_index];
-    }
-
-    // Resize the vector to cut off any residue from the shifting operations
-    let new_vec_len = old_vec_len - (end - start);
-    vec.truncate(new_vec_len);
+    vec.drain(start..end);
 }
 
 /*
-- 
2.43.0


From 99a1b777fefbf3ac5a782f3628f661cb746661cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 42/59] fix: read and write headers of HEIF boxes with a large
 size correctly

The version and flags follow after the large size, and the bytes of unknown
box types have to be kept.
---
 src/heif/box_header.rs | 42 +++++++++++++++++++++---------------------
 src/heif/box_type.rs   |  6 +++---
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..aee15c1 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -63,7 +63,7 @@ BoxHeader
         {
             box_size:    8,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 8,
             version:     None,
             flags:       None,
@@ -79,7 +79,7 @@ BoxHeader
         {
             box_size:    12,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 12,
             version:     Some(0),
             flags:       Some([0, 0, 0]),
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -153,6 +144,15 @@ BoxHeader
             header.header_size += 16;
         }
 
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
         return Ok(header);
     }
 
@@ -253,16 +253,6 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
-        // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
-        {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
-            {
-                serialized.push(flag);
-            }
-        }
-
         // Serialize box size - Part 2
         if self.largesize
         {
@@ -278,6 +268,16 @@ BoxHeader
             }
         }
 
+        // Serialize version and flags (if present)
+        if self.box_type.extends_fullbox()
+        {
+            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
+            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
+            {
+                serialized.push(flag);
+            }
+        }
+
         return serialized;
     }
 
diff --git a/src/heif/box_type.rs b/src/heif/box_type.rs
index 951a1f4..7296d2b 100644
--- a/src/heif/box_type.rs
+++ b/src/heif/box_type.rs
@@ -92,7 +92,7 @@ BoxType
     hmhd,
     sthd,
     uuid    { usertype: [u8; 16] },
-    unknown { box_type: String }
+    unknown { box_type: [u8; 4] }
 }
 
 impl
@@ -194,7 +194,7 @@ BoxType
             "hmhd" => BoxType::hmhd,
             "sthd" => BoxType::sthd,
             "uuid" => BoxType::uuid { usertype: [0u8; 16] },
-            _      => BoxType::unknown { box_type: String::from(box_type_str) }
+            _      => BoxType::unknown { box_type: bytes }
         }
     }
 
@@ -293,7 +293,7 @@ BoxType
             BoxType::hmhd => "hmhd",
             BoxType::sthd => "sthd",
             BoxType::uuid { usertype: _ } => "uuid",
-            BoxType::unknown { box_type } => box_type
+            BoxType::unknown { box_type } => return box_type.to_vec()
         }.as_bytes().to_vec()
     }
 
-- 
2.43.0


From 90233d33327c9cfb44072b11f9d3679c7722ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 43/59] fix: keep all information regarding locations in HEIF
 files intact

Writing to HEIF files lost data after boxes that could not be parsed, moved the
data of items incorrectly if these use base offsets, several extents, the idat
box or no offsets at all or if they are stored in front of the changed boxes,
required an mdat box, did not know all versions of the iinf box, always linked
to item 1, and panicked for various kinds of malformed files. Clearing a file
without EXIF item is not an error and no longer keeps parts of the old data.
---
 src/heif/box_header.rs           |   10 +
 src/heif/boxes/iso.rs            |   65 +-
 src/heif/boxes/item_info.rs      |  181 +++---
 src/heif/boxes/item_location.rs  |  333 ++++------
 src/heif/boxes/item_reference.rs |   74 +--
 src/heif/boxes/meta.rs           |  262 ++------
 src/heif/boxes/mod.rs            |  101 ++-
 src/heif/container.rs            | 1033 +++++++++++++++++++-----------
 src/heif/mod.rs                  |   81 +--
 src/util.rs                      |   27 -
 10 files changed, 1070 insertions(+), 1097 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index aee15c1..2a188f0 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -186,6 +186,16 @@ BoxHeader
         return self.header_size;
     }
 
+    pub(super) fn
+    is_large
+    (
+        &self
+    )
+    -> bool
+    {
+        return self.largesize;
+    }
+
     pub(super) fn
     set_box_size
     (
diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index cb594e8..8f82ac9 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -1,9 +1,6 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::io::Read;
-use std::io::Seek;
-
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
@@ -20,54 +17,14 @@ IsoBox
 impl
 IsoBox
 {
-    fn
-    construct_from_cursor_unboxed
-    <T: Seek + Read>
+    pub(crate) fn
+    get_data
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        &self
     )
-    -> Result<IsoBox, std::io::Error> 
+    -> &[u8]
     {
-        log::trace!("Constructing generic ISO box for type {:?}", header.get_box_type());
-
-        // Check if this box is the last in the file
-        // See also: ISO/IEC 14496-12:2015, § 4.2
-        if header.get_box_size() == 0
-        {
-            let mut buffer = Vec::new();
-            cursor.read_to_end(&mut buffer)?;
-            return Ok(IsoBox {
-                header: header,
-                data:   buffer
-            });
-        }
-
-        let Some(data_left_to_read) = header.get_box_size().checked_sub(header.get_header_size()) else {
-            return Err(std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                format!(
-                    "Box size {} is smaller than header size {} for box type {:?}",
-                    header.get_box_size(),
-                    header.get_header_size(),
-                    header.get_box_type()
-                )
-            ));
-        };
-
-        let mut buffer: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        buffer.try_reserve_exact(data_left_to_read as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
-        cursor.take(data_left_to_read as u64).read_to_end(&mut buffer)?;
-
-        return Ok(IsoBox {
-            header: header,
-            data:   buffer
-        });
+        return &self.data;
     }
 }
 
@@ -77,18 +34,14 @@ for
 IsoBox
 {
     fn
-    construct_from_cursor
-    <T: Seek + Read>
+    construct_from_content
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error> 
     {
-        return Ok(Box::new(IsoBox::construct_from_cursor_unboxed(
-            cursor, 
-            header
-        )?));
+        return Ok(Box::new(IsoBox { header, data: content }));
     }
 }
 
diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..71ca970 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -1,18 +1,20 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::io::Read;
-use std::io::Seek;
+use std::io::Cursor;
 
 use crate::endian::Endian;
+use crate::general_file_io::EXIF;
 use crate::general_file_io::io_error;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
 use crate::util::read_be_u16;
 use crate::util::read_be_u32;
-use crate::util::read_null_terminated_string;
+use crate::util::read_4_bytes;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
+use crate::heif::boxes::read_box_content;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
@@ -28,16 +30,14 @@ use crate::heif::boxes::ParsableIsoBox;
 // content_type and the optional content_encoding, however, the practical
 // examples did *not* have any of this
 
-#[allow(dead_code)]
 #[derive(Debug)]
 pub struct
 ItemInfoEntryBox
 {
-    pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
-    pub(crate) item_protection_index: u16,
-    pub(crate) item_name:             String,
-    pub(crate) additional_data:       Vec<u8>,
+    pub(self)  header:    BoxHeader,
+    pub(crate) item_id:   u32,
+    pub(crate) item_type: Option<[u8; 4]>, // only present if version >= 2
+    pub(crate) content:   Vec<u8>,         // everything after the header
 }
 
 // - iinf
@@ -47,13 +47,11 @@ ItemInfoEntryBox
 // 0041:       number of item info entries, here 0x41 = 65
 // 0000001569: start of first info entry
 
-#[allow(dead_code)]
 #[derive(Debug)]
 pub struct
 ItemInfoBox
 {
     pub(self)  header:     BoxHeader,
-    pub(crate) item_count: usize,
     pub(crate) items:      Vec<ItemInfoEntryBox>
 }
 
@@ -61,122 +59,95 @@ impl
 ItemInfoEntryBox
 {
     fn
-    construct_from_cursor_unboxed
-    <T: Seek + Read>
+    construct_from_content_unboxed
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
     -> Result<Self, std::io::Error>
     {
-        let item_id               = read_be_u16(cursor)?;
-        let item_protection_index = read_be_u16(cursor)?;
-        let item_name             = read_null_terminated_string(cursor)?;
-
-        // Determine how much data is left for this entry
-        let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
-            + 2                           // item_protection_index
-            + item_name.len() as u64 + 1; // string len + null terminator
-
-        if data_read_so_far > header.get_box_size()
+        if header.get_box_type() != BoxType::infe
         {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "ItemInfoEntryBox data read so far ({}) exceeds box size ({})",
-                    data_read_so_far,
-                    header.get_box_size()
-                )
-            );
+            return io_error!(InvalidData, "Expected only infe boxes inside of the iinf box!");
         }
 
-        let data_left_to_read = header.get_box_size() - data_read_so_far;
-
-        let mut additional_data: Vec<u8> = Vec::new();
-        additional_data.try_reserve_exact(data_left_to_read as usize)?;
-        cursor.take(data_left_to_read as u64).read_to_end(&mut additional_data)?;
+        // See: ISO/IEC 14496-12:2015, § 8.11.6.2
+        let mut cursor  = Cursor::new(&content);
+        let     item_id = match header.get_version()
+        {
+            0..=2 => read_be_u16(&mut cursor)? as u32,
+            _     => read_be_u32(&mut cursor)?
+        };
 
-        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Name: {item_name}");
+        let _item_protection_index = read_be_u16(&mut cursor)?;
 
-        return Ok(ItemInfoEntryBox {
-            header,
-            item_id,
-            item_protection_index,
-            item_name,
-            additional_data,
-        });
-    }
+        let item_type = match header.get_version()
+        {
+            0 | 1 => None,
+            _     => Some(read_4_bytes(&mut cursor)?)
+        };
 
-}
+        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Type: {item_type:?}");
 
-impl
-ParsableIsoBox
-for
-ItemInfoEntryBox
-{
-    fn
-    construct_from_cursor
-    <T: Seek + Read>
-    (
-        cursor: &mut T,
-        header:  BoxHeader
-    )
-    -> Result<Box<dyn GenericIsoBox>, std::io::Error>
-    {
-        return Ok(Box::new(ItemInfoEntryBox::construct_from_cursor_unboxed(
-            cursor, 
-            header
-        )?));
+        return Ok(ItemInfoEntryBox { header, item_id, item_type, content });
     }
+
 }
 
 impl
 ItemInfoBox
 {
-    pub fn
-    get_exif_item
+    /// The IDs of all items that contain exif data
+    pub(crate) fn
+    get_exif_item_ids
     (
         &self
     )
-    -> Option<&ItemInfoEntryBox>
+    -> Vec<u32>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .filter(|item| item.item_type == Some(EXIF))
+            .map(|item| item.item_id)
+            .collect();
     }
 
-    /// Creates a new item in this item information box and returns by how many
-    /// bytes this box got longer
+    /// Creates a new item in this item information box
     pub(crate) fn
-    create_new_item_info_entry
+    create_new_exif_item_info_entry
     (
         &mut self,
-        iloc_id: u32,
-        name:    &str,
+        item_id: u16,
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
+        if self.header.get_version() == 0 && self.items.len() >= u16::MAX as usize
+        {
+            return io_error!(Unsupported, "No space left for another item in the iinf box!");
+        }
+
+        let mut content = Vec::new();
+        content.extend(to_u8_vec_macro!(u16, &item_id, &Endian::Big).iter());
+        content.extend([0x00, 0x00]); // item protection index
+        content.extend(EXIF);
+        content.push(0x00);           // null terminator for item name string
+
         self.items.push(ItemInfoEntryBox 
             { 
-                header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
-                item_protection_index: 0, 
-                item_name:             name.to_string(), 
-                additional_data:       Vec::new()
+                header:    BoxHeader::new_exif_info_entry_box_header(), 
+                item_id:   item_id as u32, 
+                item_type: Some(EXIF),
+                content
             }
         );
 
-        self.item_count += 1;
-
         // Due to the addition of a new item, the size in the header needs to 
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
 
-        return new_box_size - old_box_size;
+        return Ok(());
     }
 }
 
@@ -186,39 +157,37 @@ for
 ItemInfoBox
 {
     fn
-    construct_from_cursor
-    <T: Seek + Read>
+    construct_from_content
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
+        let mut cursor = Cursor::new(&content);
+
         // See: ISO/IEC 14496-12:2015, § 8.11.6.2
         let item_count = if header.get_version() == 0
         {
-            read_be_u16(cursor)? as usize
+            read_be_u16(&mut cursor)? as usize
         }
         else
         {
-            read_be_u32(cursor)? as usize
+            read_be_u32(&mut cursor)? as usize
         };
 
         let mut items = Vec::new();
         for _ in 0..item_count
         {
-            let header = BoxHeader::read_box_header(cursor)?;
-            items.push(ItemInfoEntryBox::construct_from_cursor_unboxed(
-                cursor, 
-                header
+            let item_header  = BoxHeader::read_box_header(&mut cursor)?;
+            let item_content = read_box_content(&mut cursor, &item_header)?;
+            items.push(ItemInfoEntryBox::construct_from_content_unboxed(
+                item_header,
+                item_content
             )?);
         }
 
-        return Ok(Box::new(ItemInfoBox { 
-            header,
-            item_count, 
-            items 
-        }));
+        return Ok(Box::new(ItemInfoBox { header, items }));
     }
 }
 
@@ -236,11 +205,7 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
-        serialized.extend(self.item_name.bytes());
-        serialized.push(0x00); // null terminator for item name string
-        serialized.extend(&self.additional_data);
+        serialized.extend(&self.content);
 
         return serialized;
     }
@@ -267,11 +232,11 @@ ItemInfoBox
 
         if self.header.get_version() == 0
         {
-            serialized.extend(to_u8_vec_macro!(u16, &(self.item_count as u16), &Endian::Big).iter());
+            serialized.extend(to_u8_vec_macro!(u16, &(self.items.len() as u16), &Endian::Big).iter());
         }
         else
         {
-            serialized.extend(to_u8_vec_macro!(u32, &(self.item_count as u32), &Endian::Big).iter());
+            serialized.extend(to_u8_vec_macro!(u32, &(self.items.len() as u32), &Endian::Big).iter());
         }
         
         for item in &self.items
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..ef39a4b 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
@@ -17,7 +18,6 @@ use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
-#[allow(dead_code)]
 pub(crate) struct
 ItemLocationBox
 {
@@ -32,9 +32,6 @@ ItemLocationBox
         // only available if version == 1 || 2, otherwise these 4 bytes are
         // handled as `reserved`
 
-    pub(crate) item_count:       u32, 
-        // only if version == 2, if version < 2 this is u16
-
     pub(crate) items:            Vec<ItemLocationEntry>
 }
 
@@ -51,7 +48,6 @@ ItemConstructionMethod
 
 
 
-#[allow(dead_code)]
 #[derive(Debug)]
 pub(crate) struct
 ItemLocationEntry
@@ -70,15 +66,11 @@ ItemLocationEntry
     pub(crate) base_offset:                      u64, 
         // actual size depends on value of base_offset_size * 8
 
-    pub(crate) extent_count:                     u16, 
-        // must be equal or greater 1
-
     pub(crate) extents:                          Vec<ItemLocationEntryExtentEntry>,
 }
 
 
 
-#[allow(dead_code)]
 #[derive(Debug)]
 pub(crate) struct
 ItemLocationEntryExtentEntry
@@ -195,6 +187,13 @@ ItemLocationEntry
 
         let extent_count = read_be_u16(cursor)?;
 
+        // Without any information stored for them there can't be multiple
+        // distinct extents
+        if extent_count > 1 && offset_size == 0 && length_size == 0 && index_size == 0
+        {
+            return io_error!(InvalidData, "Multiple extents without any location information!");
+        }
+
         let mut extents = Vec::new();
 
         for _ in 0..extent_count
@@ -213,7 +212,6 @@ ItemLocationEntry
             reserved_and_construction_method, 
             data_reference_index, 
             base_offset, 
-            extent_count, 
             extents
         };
 
@@ -227,137 +225,49 @@ ItemLocationEntry
     (
         &self
     )
-    -> ItemConstructionMethod
+    -> Result<ItemConstructionMethod, std::io::Error>
     {
         return match self.reserved_and_construction_method as u8 & 0x0f
         {
-            0 => ItemConstructionMethod::FILE,
-            1 => ItemConstructionMethod::IDAT,
-            2 => ItemConstructionMethod::ITEM,
-            _ => panic!("Unknown item construction method!")
+            0 => Ok(ItemConstructionMethod::FILE),
+            1 => Ok(ItemConstructionMethod::IDAT),
+            2 => Ok(ItemConstructionMethod::ITEM),
+            _ => io_error!(InvalidData, "Unknown item construction method!")
         };
     }
-
-    /*
-    pub(crate) fn
-    get_size
-    (
-        &self,
-        parent: &ItemLocationBox
-    )
-    -> usize
-    {
-        let mut size = 0usize;
-
-        // item_id
-        if parent.get_header().get_version() == 2
-        {
-            size += 4;
-        }
-        else
-        {
-            size += 2;
-        }
-
-        // reserved_and_construction_method
-        if 
-            parent.get_header().get_version() == 1
-            ||
-            parent.get_header().get_version() == 2
-        {
-            size += 2;
-        }
-
-        // data_reference_index
-        size += 2;
-
-        // base_offset
-        size += parent.base_offset_size as usize;
-
-        // extent_count
-        size += 2;
-
-        // extents
-        for extent in &self.extents
-        {
-            size += extent.get_size(
-                parent.offset_size, 
-                parent.length_size, 
-                parent.index_size
-            );
-        }
-
-        return size;
-    }
-    */
 }
 
 impl
 ItemLocationBox
 {
-    fn
-    construct_from_cursor_unboxed
-    <T: Seek + Read>
+    pub(crate) fn
+    get_item_location_entry
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        &self,
+        item_id: u32
     )
-    -> Result<Self, std::io::Error>
+    -> Result<&ItemLocationEntry, std::io::Error>
     {
-        let temp = read_be_u16(cursor)?;
-        let (offset_size, length_size, base_offset_size) =
-            (
-                (temp >> 12 & 0x0f) as u8, 
-                (temp >> 8  & 0x0f) as u8, 
-                (temp >> 4  & 0x0f) as u8
-            );
-        let index_size = match header.get_version()
-        {
-            1 | 2 => temp as u8 & 0x0f,
-            _     => 0,
-        };
-
-        let item_count = match header.get_version()
-        {
-            0 | 1 => read_be_u16(cursor)? as u32,
-            2     => read_be_u32(cursor)?,
-            _     => return io_error!(Other, "Invalid version for ItemLocationBox decode!".to_string())
-        };
-
-        let mut items = Vec::new();
-        for _ in 0..item_count
-        {
-            items.push(ItemLocationEntry::read_from_cursor(
-                cursor, 
-                &header, 
-                offset_size, 
-                length_size, 
-                base_offset_size, 
-                index_size
-            )?);
-        }
-
-        return Ok(ItemLocationBox {
-            header,
-            offset_size,
-            length_size,
-            base_offset_size,
-            index_size,
-            item_count,
-            items
-        });
+        self.items.iter()
+            .find(|item| item.item_id == item_id)
+            .ok_or(
+                io_error_plain!(
+                    Other, 
+                    format!("ItemLocationEntry with item_id {} not found!", item_id)
+                )
+            )
     }
 
     pub(crate) fn
-    get_item_location_entry
+    get_item_location_entry_mut
     (
-        &self,
-        item_id: u16
+        &mut self,
+        item_id: u32
     )
-    -> Result<&ItemLocationEntry, std::io::Error>
+    -> Result<&mut ItemLocationEntry, std::io::Error>
     {
-        self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+        self.items.iter_mut()
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
@@ -366,98 +276,87 @@ ItemLocationBox
             )
     }
 
-    // Returns the ID of the new entry and by how many bytes this box got longer
+    /// Creates a new entry without any extents
     pub(crate) fn
     create_new_item_location_entry
     (
         &mut self,
-        data_start:  u64,
-        data_length: u64
+        item_id: u32
     )
-    -> (u32, u64)
+    -> Result<(), std::io::Error>
     {
-        // Determine largest iloc ID so far
-        let old_largest_id = self.items
-            .iter()
-            .map(|x| x.item_id)
-            .max()
-            .unwrap_or(0);
+        if self.header.get_version() < 2 && self.items.len() >= u16::MAX as usize
+        {
+            return io_error!(Unsupported, "No space left for another item in the iloc box!");
+        }
 
         self.items.push(ItemLocationEntry 
             {
-                item_id:                          old_largest_id + 1, 
+                item_id,
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
                 base_offset:                      0,
-                extent_count:                     1, 
-                extents:                          vec![
-                    ItemLocationEntryExtentEntry 
-                    {
-                        extent_index:  Some(0),
-                        extent_offset: data_start,
-                        extent_length: data_length,
-                    }
-                ]
+                extents:                          Vec::new()
             }
         );
 
-        self.item_count += 1;
+        return Ok(());
+    }
+
+    /// Makes sure that both offset and length of an extent can be stored.
+    /// This does not change the meaning of the existing entries, as a zero has
+    /// the same meaning as an absent value.
+    pub(crate) fn
+    ensure_extents_can_be_stored
+    (
+        &mut self
+    )
+    {
+        if self.offset_size == 0 { self.offset_size = 4; }
+        if self.length_size == 0 { self.length_size = 4; }
+    }
 
-        // Due to the addition of a new item, the size in the header needs to 
-        // be adjusted as well
-        // TODO: make this more efficient by only computing how much memory is
-        // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
+    pub(crate) fn
+    update_box_size
+    (
+        &mut self
+    )
+    {
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
-
-        return (
-            self.items.last_mut().expect("No items present after insertion").item_id,
-            new_box_size - old_box_size
-        );
     }
 
+    /// Checks that all values can be stored with the given amounts of bytes
     pub(crate) fn
-    add_to_extents
+    check_value_sizes
     (
-        &mut self,
-        value: i64
+        &self
     )
+    -> Result<(), std::io::Error>
     {
-        for item in &mut self.items
+        let fits = |value: u64, size: u8| match size
         {
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
-            {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
-
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
-            {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
-            }
-
-            if item.data_reference_index != 0
-            {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
-                continue;
-            }
+            0 => value == 0,
+            4 => value <= u32::MAX as u64,
+            _ => true
+        };
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
-            for extent in &mut item.extents
+        for item in &self.items
+        {
+            if
+                !fits(item.base_offset, self.base_offset_size)
+                ||
+                !item.extents.iter().all(|extent| {
+                    fits(extent.extent_offset, self.offset_size) 
+                    && 
+                    fits(extent.extent_length, self.length_size)
+                })
             {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
+                return io_error!(Unsupported, "Location of item can't be stored in iloc box!");
             }
         }
+
+        return Ok(());
     }
 }
 
@@ -467,18 +366,56 @@ for
 ItemLocationBox
 {
     fn
-    construct_from_cursor
-    <T: Seek + Read>
+    construct_from_content
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error> 
     {
-        return Ok(Box::new(ItemLocationBox::construct_from_cursor_unboxed(
-            cursor, 
-            header
-        )?));
+        let mut cursor = Cursor::new(&content);
+
+        let temp = read_be_u16(&mut cursor)?;
+        let (offset_size, length_size, base_offset_size) =
+            (
+                (temp >> 12 & 0x0f) as u8, 
+                (temp >> 8  & 0x0f) as u8, 
+                (temp >> 4  & 0x0f) as u8
+            );
+        let index_size = match header.get_version()
+        {
+            1 | 2 => temp as u8 & 0x0f,
+            _     => 0,
+        };
+
+        let item_count = match header.get_version()
+        {
+            0 | 1 => read_be_u16(&mut cursor)? as u32,
+            2     => read_be_u32(&mut cursor)?,
+            _     => return io_error!(Other, "Invalid version for ItemLocationBox decode!".to_string())
+        };
+
+        let mut items = Vec::new();
+        for _ in 0..item_count
+        {
+            items.push(ItemLocationEntry::read_from_cursor(
+                &mut cursor, 
+                &header, 
+                offset_size, 
+                length_size, 
+                base_offset_size, 
+                index_size
+            )?);
+        }
+
+        return Ok(Box::new(ItemLocationBox {
+            header,
+            offset_size,
+            length_size,
+            base_offset_size,
+            index_size,
+            items
+        }));
     }
 }
 
@@ -513,8 +450,8 @@ ItemLocationBox
 
         match self.header.get_version()
         {
-            0 | 1 => serialized.extend(to_u8_vec_macro!(u16, &(self.item_count as u16), &Endian::Big).iter()),
-            2     => serialized.extend(to_u8_vec_macro!(u32, & self.item_count,         &Endian::Big).iter()),
+            0 | 1 => serialized.extend(to_u8_vec_macro!(u16, &(self.items.len() as u16), &Endian::Big).iter()),
+            2     => serialized.extend(to_u8_vec_macro!(u32, &(self.items.len() as u32), &Endian::Big).iter()),
             _     => panic!("Invalid version for ItemLocationBox serialize!")
         };
 
@@ -541,7 +478,7 @@ ItemLocationBox
                 _ => panic!("Invalid base_offset_size!")
             };
 
-            serialized.extend(to_u8_vec_macro!(u16, &item.extent_count, &Endian::Big).iter());
+            serialized.extend(to_u8_vec_macro!(u16, &(item.extents.len() as u16), &Endian::Big).iter());
 
             for extent in &item.extents
             {
@@ -553,11 +490,11 @@ ItemLocationBox
                     match self.index_size
                     {
                         4 => {
-                            let idx: u32 = extent.extent_index.expect("Extent index missing") as u32;
+                            let idx: u32 = extent.extent_index.unwrap_or(0) as u32;
                             serialized.extend(to_u8_vec_macro!(u32, &idx, &Endian::Big).iter());
                         },
                         8 => {
-                            let idx: u64 = extent.extent_index.expect("Extent index missing");
+                            let idx: u64 = extent.extent_index.unwrap_or(0);
                             serialized.extend(to_u8_vec_macro!(u64, &idx, &Endian::Big).iter());
                         },
                         _ => panic!("Invalid index_size!")
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..c0f96da 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
 
@@ -107,7 +108,7 @@ SingleItemTypeReferenceBox
 impl
 ItemReferenceBox
 {
-    pub(super) fn
+    pub(crate) fn
     new
     ()
     -> Self
@@ -119,39 +120,6 @@ ItemReferenceBox
         return ItemReferenceBox { header, references: Vec::new() };
     }
 
-    fn
-    construct_from_cursor_unboxed
-    <T: Seek + Read>
-    (
-        cursor: &mut T,
-        header:  BoxHeader
-    )
-    -> Result<Self, std::io::Error>
-    {
-        let mut bytes_read = 0;
-
-        let mut references = Vec::new();
-
-        if header.get_box_size() < header.get_header_size()
-        {
-            return io_error!(InvalidData, "Box size is smaller than header size for iref box");
-        }
-
-        while bytes_read < header.get_box_size() - header.get_header_size()
-        {
-            let next_reference = SingleItemTypeReferenceBox::construct_from_cursor_unboxed(
-                cursor, 
-                &header
-            )?;
-
-            bytes_read += next_reference.get_header().get_box_size();
-
-            references.push(next_reference);
-        }
-
-        return Ok(ItemReferenceBox { header, references });
-    }
-
     #[allow(non_snake_case)]
     pub(crate) fn
     create_new_single_item_reference_box
@@ -161,10 +129,16 @@ ItemReferenceBox
         from_item_ID:   u32,
         to_item_ID:     Vec<u32>
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
         // Determine is_large and the box size
         let is_large = self.header.get_version() >= 1;
+
+        if !is_large && to_item_ID.iter().any(|id| *id > u16::MAX as u32)
+        {
+            return io_error!(Unsupported, "Item ID can't be stored in iref box!");
+        }
+
         let ID_size  = if is_large { 4 } else { 2 };
         let box_size = 0
             + 8                                 // header
@@ -188,11 +162,10 @@ ItemReferenceBox
 
         self.references.push(singe_item_reference_box);
 
-        let old_iref_box_size = self.header.get_box_size();
-        let new_iref_box_size = old_iref_box_size + box_size;
+        let new_iref_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_iref_box_size);
 
-        return box_size;
+        return Ok(());
     }
 }
 
@@ -202,18 +175,27 @@ for
 ItemReferenceBox
 {
     fn
-    construct_from_cursor
-    <T: Seek + Read>
+    construct_from_content
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
-        return Ok(Box::new(ItemReferenceBox::construct_from_cursor_unboxed(
-            cursor, 
-            header
-        )?));
+        let mut cursor     = Cursor::new(&content);
+        let mut references = Vec::new();
+
+        while cursor.position() < content.len() as u64
+        {
+            references.push(
+                SingleItemTypeReferenceBox::construct_from_cursor_unboxed(
+                    &mut cursor, 
+                    &header
+                )?
+            );
+        }
+
+        return Ok(Box::new(ItemReferenceBox { header, references }));
     }
 }
 
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..5bce473 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -2,13 +2,9 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::Cursor;
-use std::io::Read;
-use std::io::Seek;
 
-use crate::endian::Endian;
 use crate::general_file_io::io_error;
-use crate::u8conversion::U8conversion;
-use crate::u8conversion::to_u8_vec_macro;
+use crate::util::read_be_u16;
 use crate::util::read_be_u32;
 
 use crate::heif::box_type::BoxType;
@@ -20,22 +16,13 @@ use crate::heif::boxes::item_info::ItemInfoBox;
 use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
-use super::read_box_based_on_header;
+use super::iso::IsoBox;
+use super::read_next_box;
 
-#[allow(dead_code)]
 pub struct 
 MetaBox
 {
     header:                 BoxHeader,
-    handler_box:            HandlerBox,
-    // primary_item_box:    Option<IsoBox>,              // pitm
-    // data_info_box:       Option<IsoBox>,              // dinf
-    // item_loc_box:        Option<IsoBox>,              // iloc
-    // item_protect_box:    Option<IsoBox>,              // ipro
-    // item_info_box:       Option<IsoBox>,              // iinf
-    // ipmp_control_box:    Option<IsoBox>,              // ipmc
-    // item_ref_box:        Option<IsoBox>,              // iref
-    // item_data_box:       Option<IsoBox>,              // idat
     pub(crate) other_boxes: Vec<Box<dyn GenericIsoBox>>,
 }
 
@@ -109,200 +96,95 @@ MetaBox
     }
 
     pub(crate) fn
-    get_item_reference_box
+    get_item_info_box_mut
     (
-        &self
+        &mut self
     )
-    -> Option<&ItemReferenceBox>
+    -> Result<&mut ItemInfoBox, std::io::Error>
     {
-        if let Some(found_box) = self.other_boxes.iter()
-            .find(|b| b.get_header().get_box_type() == BoxType::iref)
-        {
-            return found_box.as_any().downcast_ref::<ItemReferenceBox>();
+        match self.other_boxes.iter_mut().find_map(|b| b.as_any_mut().downcast_mut::<ItemInfoBox>()) {
+            Some(unboxed) => Ok(unboxed),
+            None => io_error!(
+                NotFound,
+                "No iinf box found in MetaBox"
+            ),
         }
-        return None;
     }
 
     pub(crate) fn
-    create_new_item_reference_box_if_none_exists_yet
+    get_item_reference_box_mut
     (
         &mut self
     )
-    -> u64
+    -> Option<&mut ItemReferenceBox>
     {
-        if self.get_item_reference_box().is_some()
-        {
-            return 0;
-        }
-
-        let new_iref_box      = ItemReferenceBox::new();
-        let new_iref_box_size = new_iref_box.get_header().get_box_size();
-
-        let index = self.other_boxes
-            .iter()
-            .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
-         
-        self.other_boxes.insert(index, Box::new(new_iref_box));
-
-        return new_iref_box_size;
+        self.other_boxes.iter_mut().find_map(|b| b.as_any_mut().downcast_mut::<ItemReferenceBox>())
     }
-}
 
-impl
-ParsableIsoBox
-for
-MetaBox
-{
-    fn
-    construct_from_cursor
-    <T: Seek + Read>
+    /// The ID of the primary item of the image
+    pub(crate) fn
+    get_primary_item_id
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        &self
     )
-    -> Result<Box<dyn GenericIsoBox>, std::io::Error>
+    -> Result<Option<u32>, std::io::Error>
     {
-        if header.get_box_size() < header.get_header_size()
+        let Some(found_box) = self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == BoxType::pitm)
+        else
         {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "MetaBox has invalid size: box size {} is smaller than header size {}",
-                    header.get_box_size(),
-                    header.get_header_size()
-                )
-            );
-        }
+            return Ok(None);
+        };
 
-        if header.get_box_size() < header.get_header_size() {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "MetaBox has invalid size: box size {} is too small",
-                    header.get_box_size()
-                )
-            );
-        }
-        // Read in the remaining bytes for this box
-        let     remaining_bytes = header.get_box_size() - header.get_header_size();
-        let mut meta_box_bytes: Vec<u8> = Vec::new();
-        meta_box_bytes.try_reserve_exact(remaining_bytes as usize)?;
-        cursor.take(remaining_bytes as u64).read_to_end(&mut meta_box_bytes)?;
-
-        // Construct local cursor for these bytes
-        let mut local_cursor = Cursor::new(meta_box_bytes);
-
-        // Read in the mandatory handler box
-        let handler_box_header = BoxHeader::read_box_header(&mut local_cursor)?;
-        let handler_box        = HandlerBox::construct_from_cursor_unboxed(
-            &mut local_cursor, 
-            handler_box_header
-        )?;
-
-        // Read in other boxes
-        let mut other_boxes = Vec::new();
-        while local_cursor.position() < remaining_bytes as u64
+        let Some(primary_item_box) = found_box.as_any().downcast_ref::<IsoBox>() else
         {
-            let sub_header = BoxHeader::read_box_header(&mut local_cursor)?;
-            let sub_box    = read_box_based_on_header(
-                &mut local_cursor, 
-                sub_header
-            )?;
+            return io_error!(InvalidData, "Found pitm box but could not downcast to IsoBox");
+        };
 
-            other_boxes.push(sub_box);
-        }
+        let mut cursor = Cursor::new(primary_item_box.get_data());
 
-        return Ok(Box::new(MetaBox { 
-            header,
-            handler_box,
-            other_boxes,
+        return Ok(Some(match primary_item_box.get_header().get_version()
+        {
+            0 => read_be_u16(&mut cursor)? as u32,
+            _ => read_be_u32(&mut cursor)?
         }));
     }
-}
 
-#[allow(dead_code)]
-pub struct
-HandlerBox
-{
-    header:       BoxHeader,
-    pre_defined:  u32,
-    handler_type: u32,
-    reserved:     [u32; 3],
-    name:         Vec<u8> // UTF-8 string, don't bother decoding
+    /// The index of the (first) sub box of the given type
+    pub(crate) fn
+    get_index_of_box
+    (
+        &self,
+        box_type: BoxType
+    )
+    -> Option<usize>
+    {
+        self.other_boxes.iter().position(|b| b.get_header().get_box_type() == box_type)
+    }
 }
 
 impl
-HandlerBox
+ParsableIsoBox
+for
+MetaBox
 {
     fn
-    construct_from_cursor_unboxed
-    <T: Seek + Read>
+    construct_from_content
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
-    -> Result<Self, std::io::Error>
+    -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
-        let pre_defined  = read_be_u32(cursor)?;
-        let handler_type = read_be_u32(cursor)?;
-        let reserved     = [
-            read_be_u32(cursor)?,
-            read_be_u32(cursor)?,
-            read_be_u32(cursor)?
-        ];
-
-        // Check that there is enough data left to read the box name
-        if header.get_box_size() < header.get_header_size() + 4 + 4 + 12 
-        {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "HandlerBox has invalid size: box size {} is too small to contain mandatory name field",
-                    header.get_box_size()
-                )
-            );
-        }
+        let mut cursor      = Cursor::new(&content);
+        let mut other_boxes = Vec::new();
 
-        // Check that the remaining data is not unreasonably large 
-        // This threshold is somewhat arbitrary
-        if header.get_box_size() > (u32::MAX/16) as u64
+        while cursor.position() < content.len() as u64
         {
-            return io_error!(
-                Unsupported,
-                format!(
-                    "HandlerBox size {} exceeds maximum supported size ({})",
-                    header.get_box_size(),
-                    (u32::MAX/16)
-                )
-            );
+            other_boxes.push(read_next_box(&mut cursor, true)?);
         }
 
-        let number_of_bytes_that_form_the_name = header.get_box_size() as u64
-            - header.get_header_size() as u64 // header
-            - 4                               // pre_defined
-            - 4                               // handler_type
-            - 12                              // reserved
-            ;
-
-        let mut name: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        name.try_reserve_exact(number_of_bytes_that_form_the_name as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
-        cursor
-            .take(number_of_bytes_that_form_the_name as u64)
-            .read_to_end(&mut name)?;
-
-        return Ok(HandlerBox { 
-            header, 
-            pre_defined,
-            handler_type,
-            reserved,
-            name, 
-        });
+        return Ok(Box::new(MetaBox { header, other_boxes }));
     }
 }
 
@@ -319,7 +201,6 @@ MetaBox
     -> Vec<u8>
     {
         let mut serialized = self.header.serialize();
-        serialized.extend(self.handler_box.serialize());
         for sub_box in &self.other_boxes
         {
             serialized.extend(sub_box.serialize());
@@ -334,34 +215,3 @@ MetaBox
     fn get_header     (&    self) -> &        BoxHeader     { &    self.header }
     fn get_header_mut (&mut self) -> &mut     BoxHeader     { &mut self.header }
 }
-
-impl
-GenericIsoBox
-for
-HandlerBox
-{
-    fn
-    serialize
-    (
-        &self
-    ) 
-    -> Vec<u8>
-    {
-        let mut serialized = self.header.serialize();
-
-        serialized.extend(to_u8_vec_macro!(u32, &self.pre_defined,  &Endian::Big).iter());
-        serialized.extend(to_u8_vec_macro!(u32, &self.handler_type, &Endian::Big).iter());
-        for value in &self.reserved
-        {
-            serialized.extend(to_u8_vec_macro!(u32, &value, &Endian::Big).iter());
-        }
-        serialized.extend(&self.name);
-
-        return serialized;
-    }
-
-    fn as_any         (&    self) -> &    dyn std::any::Any {      self        }
-    fn as_any_mut     (&mut self) -> &mut dyn std::any::Any {      self        }
-    fn get_header     (&    self) -> &        BoxHeader     { &    self.header }
-    fn get_header_mut (&mut self) -> &mut     BoxHeader     { &mut self.header }
-}
\ No newline at end of file
diff --git a/src/heif/boxes/mod.rs b/src/heif/boxes/mod.rs
index 72f14d9..efdca7a 100644
--- a/src/heif/boxes/mod.rs
+++ b/src/heif/boxes/mod.rs
@@ -3,7 +3,9 @@
 
 use std::io::Read;
 use std::io::Seek;
+use std::ops::Range;
 
+use crate::general_file_io::io_error;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
 use super::box_type::BoxType;
@@ -35,47 +37,110 @@ pub trait
 ParsableIsoBox: GenericIsoBox
 {
     fn
-    construct_from_cursor
-    <T: Seek + Read>
+    construct_from_content
     (
-        cursor: &mut T,
-        header:  BoxHeader
+        header:  BoxHeader,
+        content: Vec<u8>
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>;
 }
 
 
 
-pub(super) fn
-read_box_based_on_header
+/// Reads in what follows after the header of a box. A box size of zero tells
+/// that the box extends to the end of the file, see also
+/// ISO/IEC 14496-12:2015, § 4.2
+fn
+read_box_content
 <T: Seek + Read>
 (
     cursor: &mut T,
-    header:  BoxHeader
+    header: &BoxHeader
 )
--> Result<Box<dyn GenericIsoBox>, std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
-    return match header.get_box_type()
+    let mut content = Vec::new();
+
+    if header.get_box_size() == 0
     {
-        BoxType::meta => MetaBox::         construct_from_cursor(cursor, header),
-        BoxType::iinf => ItemInfoBox::     construct_from_cursor(cursor, header),
-        BoxType::iloc => ItemLocationBox:: construct_from_cursor(cursor, header),
-        BoxType::iref => ItemReferenceBox::construct_from_cursor(cursor, header),
-        _             => IsoBox::         construct_from_cursor(cursor, header)
+        cursor.read_to_end(&mut content)?;
+        return Ok(content);
+    }
+
+    let Some(content_size) = header.get_box_size().checked_sub(header.get_header_size()) else {
+        return io_error!(
+            InvalidData,
+            format!(
+                "Box size {} is smaller than header size {} for box type {:?}",
+                header.get_box_size(),
+                header.get_header_size(),
+                header.get_box_type()
+            )
+        );
     };
+
+    // Does not allocate memory for data that is not there
+    cursor.take(content_size).read_to_end(&mut content)?;
+
+    if content.len() as u64 != content_size
+    {
+        return io_error!(UnexpectedEof, format!("Incomplete box of type {:?}", header.get_box_type()));
+    }
+
+    return Ok(content);
 }
 
+/// Reads in the next box. What kinds of boxes get parsed further depends on
+/// whether this is a top level box or one inside of a meta box.
 pub(super) fn
 read_next_box
 <T: Seek + Read>
 (
-    cursor: &mut T,
+    cursor:      &mut T,
+    in_meta_box: bool
 )
 -> Result<Box<dyn GenericIsoBox>, std::io::Error>
 {
-    let header = BoxHeader::read_box_header(cursor)?;
+    let header  = BoxHeader::read_box_header(cursor)?;
+    let content = read_box_content(cursor, &header)?;
 
     log::trace!("Read in next HEIF box - Success! Header: {:?}", header);
 
-    return read_box_based_on_header(cursor, header);
-}
\ No newline at end of file
+    return match (header.get_box_type(), in_meta_box)
+    {
+        (BoxType::meta, false) => MetaBox::         construct_from_content(header, content),
+        (BoxType::iinf, true ) => ItemInfoBox::     construct_from_content(header, content),
+        (BoxType::iloc, true ) => ItemLocationBox:: construct_from_content(header, content),
+        (BoxType::iref, true ) => ItemReferenceBox::construct_from_content(header, content),
+        _                      => IsoBox::          construct_from_content(header, content)
+    };
+}
+
+/// Determines where the given boxes are located, given that the first one of
+/// them is located at `start` and that the last one may extend up to `end`
+pub(super) fn
+get_box_ranges
+(
+    boxes: &[Box<dyn GenericIsoBox>],
+    start: usize,
+    end:   usize
+)
+-> Vec<Range<usize>>
+{
+    let mut ranges   = Vec::new();
+    let mut position = start;
+
+    for iso_box in boxes
+    {
+        let next_position = match iso_box.get_header().get_box_size()
+        {
+            0    => end,
+            size => position + size as usize
+        };
+
+        ranges.push(position..next_position);
+        position = next_position;
+    }
+
+    return ranges;
+}
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..cc36078 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -1,26 +1,154 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::collections::BTreeMap;
+use std::collections::HashMap;
+use std::collections::HashSet;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
+use std::ops::Range;
 
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
+use crate::heif::as_u8_vec;
+use crate::heif::box_header::BoxHeader;
 use crate::heif::box_type::BoxType;
+use crate::heif::boxes::get_box_ranges;
 use crate::heif::boxes::item_location::ItemConstructionMethod;
+use crate::heif::boxes::item_location::ItemLocationEntry;
+use crate::heif::boxes::item_location::ItemLocationEntryExtentEntry;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
-use crate::heif::read_next_box;
+use crate::heif::boxes::read_next_box;
+use crate::ifd::ExifTagGroup;
+use crate::io_error_plain;
 
 use crate::metadata::Metadata;
-use crate::util::insert_multiple_at;
-use crate::util::range_remove;
 use crate::util::read_be_u32;
 
 use super::boxes::GenericIsoBox;
-use super::boxes::item_info::ItemInfoBox;
-use super::boxes::item_location::ItemLocationBox;
+
+/// A section of the old file and what it gets replaced with
+struct
+Edit
+{
+    range:       Range<usize>,
+    replacement: Vec<u8>,
+    exif_item:   Option<NewExifItem>,
+}
+
+/// The exif data that is (part of) the replacement of a section
+#[derive(Clone, Copy)]
+struct
+NewExifItem
+{
+    item_id: u32,
+    offset:  usize, // where the data starts in the replacement
+    length:  usize,
+}
+
+/// All the sections that get replaced, ordered by their location and without
+/// any overlap, together with the delta in bytes up to and including them
+struct
+EditList
+{
+    edits:             Vec<Edit>,
+    cumulative_deltas: Vec<i64>,
+}
+
+impl
+EditList
+{
+    fn
+    new
+    (
+        mut edits: Vec<Edit>
+    )
+    -> Result<Self, std::io::Error>
+    {
+        edits.sort_by_key(|edit| (edit.range.start, edit.range.end));
+
+        if edits.windows(2).any(|pair| pair[0].range.end > pair[1].range.start)
+        {
+            return io_error!(Unsupported, "HEIF: Overlapping areas that need to be changed!");
+        }
+
+        let mut delta             = 0;
+        let mut cumulative_deltas = Vec::new();
+        for edit in &edits
+        {
+            delta += edit.replacement.len() as i64 - edit.range.len() as i64;
+            cumulative_deltas.push(delta);
+        }
+
+        return Ok(EditList { edits, cumulative_deltas });
+    }
+
+    /// Where the data that was previously located at the given position ends up
+    fn
+    map
+    (
+        &self,
+        position: u64
+    )
+    -> u64
+    {
+        match self.edits.partition_point(|edit| edit.range.end as u64 <= position)
+        {
+            0     => position,
+            count => position.saturating_add_signed(self.cumulative_deltas[count - 1])
+        }
+    }
+
+    /// Whether any byte of the given range gets replaced or whether something
+    /// gets inserted in the middle of it
+    fn
+    affects
+    (
+        &self,
+        range: &Range<u64>
+    )
+    -> bool
+    {
+        let index = self.edits.partition_point(|edit| edit.range.end as u64 <= range.start);
+
+        return self.edits.get(index).is_some_and(|edit| (edit.range.start as u64) < range.end);
+    }
+
+    fn
+    apply
+    (
+        &self,
+        file_buffer: &[u8]
+    )
+    -> Vec<u8>
+    {
+        let mut result   = Vec::new();
+        let mut position = 0;
+
+        for edit in &self.edits
+        {
+            result.extend(&file_buffer[position..edit.range.start]);
+            result.extend(&edit.replacement);
+            position = edit.range.end;
+        }
+        result.extend(&file_buffer[position..]);
+
+        return result;
+    }
+}
+
+/// The locations of the boxes in the old file
+struct
+Layout
+{
+    file_length:  usize,
+    boxes:        Vec<Range<usize>>, // top level boxes
+    meta_boxes:   Vec<Range<usize>>, // boxes inside the meta box
+    meta_index:   usize,             // index of the meta box
+    idat_content: Option<(Range<usize>, Range<usize>)>, // entire idat box & only its content
+}
 
 pub struct
 HeifContainer
@@ -84,7 +212,7 @@ HeifContainer
     {
         let mut boxes = Vec::new();
 
-        while let Ok(next_box) = read_next_box(cursor)
+        while let Ok(next_box) = read_next_box(cursor, false)
         {
             boxes.push(next_box);
         }
@@ -130,478 +258,552 @@ HeifContainer
         }
     }
 
-    
+    fn
+    get_layout
+    (
+        &self,
+        file_length: usize
+    )
+    -> Result<Layout, std::io::Error>
+    {
+        let meta       = self.get_meta_box()?;
+        let meta_index = self.boxes.iter()
+            .position(|b| b.get_header().get_box_type() == BoxType::meta)
+            .ok_or(io_error_plain!(Other, "No meta box found in HEIF container"))?;
+
+        let boxes      = get_box_ranges(&self.boxes, 0, file_length);
+        let meta_range = boxes[meta_index].clone();
+        let meta_boxes = get_box_ranges(
+            &meta.other_boxes,
+            meta_range.start + meta.get_header().get_header_size() as usize,
+            meta_range.end
+        );
+
+        let idat_content = meta.get_index_of_box(BoxType::idat).map(|index| {
+            let range         = meta_boxes[index].clone();
+            let content_start = range.start + meta.other_boxes[index].get_header().get_header_size() as usize;
+            (range.clone(), content_start..range.end)
+        });
+
+        return Ok(Layout { file_length, boxes, meta_boxes, meta_index, idat_content });
+    }
 
+    /// Where in the file the extents of the item are located, or `None` if 
+    /// these are located elsewhere
     fn
-    get_item_id_exif_data
+    get_extent_ranges
     (
-        &self
+        item:   &ItemLocationEntry,
+        layout: &Layout
     )
-    -> Result<u16, std::io::Error>
+    -> Result<Option<Vec<Range<u64>>>, std::io::Error>
     {
-        if let Ok(meta) = self.get_meta_box() 
+        let start = match item.get_construction_method()?
         {
-            if let Some(item) = meta.get_item_info_box()?.get_exif_item() {
-                return Ok(item.item_id);
-            }
+            // A value other than 0 implies that this extent refers to
+            // another file, not this one
+            // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
+            ItemConstructionMethod::FILE if item.data_reference_index != 0
+                => return Ok(None),
+
+            ItemConstructionMethod::FILE
+                => 0,
+
+            // In this case the offset information is relative to the
+            // position of an idat box
+            ItemConstructionMethod::IDAT => match &layout.idat_content
+            {
+                Some((_, content))              => content.start as u64,
+                None if item.extents.is_empty() => return Ok(Some(Vec::new())),
+                None                            => return io_error!(InvalidData, "HEIF: Item located in idat box that does not exist!")
+            },
+
+            // Offset is relative to another item's extent
+            ItemConstructionMethod::ITEM
+                => return Ok(None)
+        };
+
+        let mut ranges = Vec::new();
+        for extent in &item.extents
+        {
+            let range = start.checked_add(item.base_offset)
+                .and_then(|position| position.checked_add(extent.extent_offset))
+                .and_then(|position| Some(position..position.checked_add(extent.extent_length)?))
+                .ok_or(io_error_plain!(InvalidData, "HEIF: Invalid location of item!"))?;
+
+            ranges.push(range);
         }
 
-        return io_error!(Other, "No EXIF item found!");
+        return Ok(Some(ranges));
     }
 
+    /// Where in the file the exif data with the given item ID is located
     fn
-    get_exif_data_pos_and_len
+    get_exif_ranges
     (
         &self,
-        exif_item_id: u16,
+        exif_item_id: u32,
+        layout:       &Layout,
     )
-    -> Result<(u64, u64), std::io::Error>
+    -> Result<Vec<Range<usize>>, std::io::Error>
     {
-        let exif_item = match self.get_meta_box() 
+        let item = self.get_meta_box()?.get_item_location_box()?.get_item_location_entry(exif_item_id)?;
+
+        let Some(ranges) = Self::get_extent_ranges(item, layout)? else
         {
-            Ok(meta) => meta.get_item_location_box()?.get_item_location_entry(exif_item_id)?,
-            Err(e) => return Err(e),
+            return io_error!(Other, "HEIF: Location of EXIF item currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
         };
 
-        let exif_extents = &exif_item.extents;
-        if exif_extents.len() != 1 
+        let available = match (item.get_construction_method()?, &layout.idat_content)
         {
-            return io_error!(Other, "Expected exactly one EXIF extent info entry");
-        }
+            (ItemConstructionMethod::IDAT, Some((_, content))) 
+                => content.clone(),
+            _   => 0..layout.file_length
+        };
 
-        match exif_item.get_construction_method()
+        // The extents must be available and can't all be the same huge area
+        let total_length = ranges.iter().try_fold(0u64, |sum, range| sum.checked_add(range.end - range.start));
+        if 
+            ranges.iter().any(|range| range.end > available.end as u64) 
+            || 
+            total_length.is_none_or(|length| length > available.len() as u64)
         {
-            super::boxes::item_location::ItemConstructionMethod::FILE => {
-                if let Some(first) = exif_extents.first() {
-                    return Ok((
-                        first.extent_offset + exif_item.base_offset,
-                        first.extent_length
-                    ));
-                } else {
-                    return io_error!(Other, "Expected one EXIF extent");
-                }
-            },
-
-            super::boxes::item_location::ItemConstructionMethod::IDAT => {
-                return io_error!(Other, "HEIF: item constr. method 'IDAT' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
-            },
-
-            super::boxes::item_location::ItemConstructionMethod::ITEM => {
-                return io_error!(Other, "HEIF: item constr. method 'ITEM' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
-            },
+            return io_error!(InvalidData, "HEIF: EXIF data is not located in file!");
         }
+
+        return Ok(ranges.iter().map(|range| range.start as usize..range.end as usize).collect());
     }
 
-    pub(super) fn
-    get_exif_data
-    <T: Seek + Read>
+    fn
+    get_exif_data_of_item
     (
         &self,
-        cursor: &mut T,
+        exif_item_id: u32,
+        file_buffer:  &[u8],
+        layout:       &Layout,
     )
     -> Result<Vec<u8>, std::io::Error>
     {
-        // Locate exif data
-        let exif_item_id    = self.get_item_id_exif_data()?;
-        let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
-
-        // Reset cursor to start of exif data
-        cursor.seek(std::io::SeekFrom::Start(start))?;
-
-        // Read in the first 4 bytes, which gives the offset to the start
-        // of the TIFF header and seek to that
-        let exif_tiff_header_offset = read_be_u32(cursor)? as usize;
+        let mut area = Vec::new();
+        for range in self.get_exif_ranges(exif_item_id, layout)?
+        {
+            area.extend(&file_buffer[range]);
+        }
 
-        cursor.seek(std::io::SeekFrom::Current(exif_tiff_header_offset as i64))?;
+        // The first 4 bytes give the offset to the start of the TIFF header
+        let mut cursor                  = Cursor::new(&area);
+        let     exif_tiff_header_offset = read_be_u32(&mut cursor)? as usize;
 
-        if length < 4 + exif_tiff_header_offset as u64
+        let Some(exif_data) = area.get(4..).and_then(|data| data.get(exif_tiff_header_offset..)) else
         {
             return io_error!(
                 InvalidData,
                 format!(
                     "EXIF data length ({}) is smaller than expected minimum size ({})",
-                    length,
+                    area.len(),
                     4 + exif_tiff_header_offset as u64
                 )
             );
-        }
-
-        // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
+        };
 
         // Stick a EXIF_HEADER in the front
         let mut full_exif_data = EXIF_HEADER.to_vec();
-        full_exif_data.append(&mut exif_buffer);
+        full_exif_data.extend(exif_data);
 
         return Ok(full_exif_data);
     }
 
-    /// Constructs a new version of the exif data area of the HEIF file
-    /// the i64 tells us the delta in bytes. If negative, the new area is
-    /// shorter than the old one, positive if longer
-    #[allow(unused_assignments)]
-    fn
-    construct_new_exif_data_area
-    <T: Seek + Read>
+    pub(super) fn
+    get_exif_data
     (
         &self,
-        cursor:   &mut T,
-        metadata: &Metadata,
+        file_buffer: &[u8],
     )
-    -> Result<(Vec<u8>, i64), std::io::Error>
+    -> Result<Vec<u8>, std::io::Error>
     {
-        // The buffer containing the new metadata that gets returned
-        let mut new_exif_buffer;
-
-        // Try to locate the old exif data. 
-        let exif_item_id = self.get_item_id_exif_data()?;
+        match self.get_meta_box()?.get_item_info_box()?.get_exif_item_ids().first()
+        {
+            Some(exif_item_id) => self.get_exif_data_of_item(
+                *exif_item_id, 
+                file_buffer, 
+                &self.get_layout(file_buffer.len())?
+            ),
+            None               => io_error!(Other, "No EXIF item found!")
+        }
+    }
 
-        // Determine the start and length of the previous exif data area
-        let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
 
-        // If the length is zero, we assume that this is a previously newly 
-        // created exif data area, which requires special handling.
-        // If the length is non-zero, there has been exif data before:
-        if length > 0
-        {
-            // Reset cursor to start of exif data
-            cursor.seek(std::io::SeekFrom::Start(start))?;
 
-            // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
+    /// Adds a new exif item that does not have any data yet
+    fn
+    create_exif_item
+    (
+        &mut self
+    )
+    -> Result<u32, std::io::Error>
+    {
+        let meta       = self.get_meta_box_mut()?;
+        let primary_id = meta.get_primary_item_id()?.unwrap_or(1);
 
-            // Decode the first 4 bytes, which tells us where to cut off the old 
-            // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
-            let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
+        // Determine an ID that is not in use so far
+        let mut used_ids: HashSet<u32> = HashSet::from([0, primary_id]);
+        used_ids.extend(meta.get_item_location_box()?.items.iter().map(|item| item.item_id));
+        used_ids.extend(meta.get_item_info_box()?    .items.iter().map(|item| item.item_id));
 
-            // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
+        let largest_id = used_ids.iter().copied().max().unwrap_or(0);
+        let new_id     = if largest_id < u16::MAX as u32
+        {
+            largest_id as u16 + 1
         }
         else
         {
-            // Create a new exif header, starting with an empty TIFF header.
-            // new_exif_buffer = 0_u32.to_be_bytes().to_vec();
-            new_exif_buffer = [0x00, 0x00, 0x00, 0x06].to_vec();
-            new_exif_buffer.extend(EXIF_HEADER.to_vec());
+            (1..=u16::MAX)
+                .find(|id| !used_ids.contains(&(*id as u32)))
+                .ok_or(io_error_plain!(Unsupported, "No item ID left for EXIF item!"))?
+        };
+
+        meta.get_item_location_box_mut()?.create_new_item_location_entry(new_id as u32)?;
+        meta.get_item_info_box_mut()?    .create_new_exif_item_info_entry(new_id)?;
+
+        // Link the exif data to the image. If there is no iref box yet, create
+        // one (at the end to keep the indices of the other boxes) 
+        if meta.get_item_reference_box_mut().is_none()
+        {
+            meta.other_boxes.push(Box::new(ItemReferenceBox::new()));
         }
 
-        // Append the encoded metadata to the old/newly created TIFF header and
-        // compute the delta in length
-        if !metadata.get_ifds().is_empty()
+        if let Some(iref) = meta.get_item_reference_box_mut()
         {
-            new_exif_buffer.append(&mut metadata.encode()?);
+            iref.create_new_single_item_reference_box("cdsc", new_id as u32, vec![primary_id])?;
         }
-        let delta = new_exif_buffer.len() as i64 - length as i64;
 
-        return Ok((
-            new_exif_buffer,
-            delta 
-        ));
+        return Ok(new_id as u32);
     }
 
-
+    /// Replaces the data of the given exif items (or of a new one if no ID is
+    /// given), and updates all information regarding locations and lengths
+    /// that is affected by that.
     fn
-    get_start_address_for_new_exif_area
+    replace_exif_data
     (
-        &self
+        &mut self,
+        file_buffer: &mut Vec<u8>,
+        new_data:    Vec<(Option<u32>, Vec<u8>)>
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
-        // Assumes that the new exif area that gets created should start at the
-        // end of the mdat area
+        let layout = self.get_layout(file_buffer.len())?;
 
-        let mut byte_count = 0;
+        // Can't handle anything that follows after the boxes
+        if layout.boxes.last().map(|last| last.end) != Some(file_buffer.len())
+        {
+            return io_error!(InvalidData, "HEIF: Invalid data in between or after boxes!");
+        }
 
-        for b in &self.boxes
+        // The old data gets replaced at its location. If there is none yet,
+        // the new data gets placed at the end of the mdat box, or in a new one
+        // if there is no mdat box
+        let     old_meta_box_count = layout.meta_boxes.len();
+        let     mdat_index         = self.boxes.iter().position(|b| b.get_header().get_box_type() == BoxType::mdat);
+        let mut edits              = Vec::new();
+        let mut new_boxes          = Vec::new();
+        let mut new_item           = false;
+
+        for (opt_item_id, data) in new_data
         {
-            byte_count += b.get_header().get_box_size();
+            let (item_id, ranges) = match opt_item_id
+            {
+                Some(item_id) => (item_id, self.get_exif_ranges(item_id, &layout)?),
+                None          => { new_item = true; (self.create_exif_item()?, Vec::new()) }
+            };
+
+            // Already set the number of extents as the size of the iloc box
+            // depends on it. Offset and length are determined later on
+            let entry = self.get_meta_box_mut()?.get_item_location_box_mut()?.get_item_location_entry_mut(item_id)?;
+            entry.extents = vec![
+                ItemLocationEntryExtentEntry
+                {
+                    extent_index:  entry.extents.first().and_then(|extent| extent.extent_index),
+                    extent_offset: 0,
+                    extent_length: 0
+                }
+            ];
 
-            if b.get_header().get_box_type() == BoxType::mdat
+            // Had no data so far, gets stored in a mdat box
+            if ranges.is_empty()
             {
-                return byte_count as u64;
+                entry.reserved_and_construction_method &= 0xfff0;
             }
-        }
-
-        return u64::MAX;
-    }
 
+            let mut exif_item = NewExifItem { item_id, offset: 0, length: data.len() };
 
-    pub(super) fn
-    generic_write_metadata
-    (
-        &mut self,
-        file_buffer: &mut Vec<u8>,
-        metadata:    &    Metadata
-    )
-    -> Result<(), std::io::Error>
-    {
-        // Find out where old exif is located, needed to determine which iloc
-        // entries need to be updated
-        let mut id = self.get_item_id_exif_data();
-
-        // Check that the ID is okay - if not, there is no exif area yet and
-        // we need to create one!
-        if id.is_err()
-        {
-            // What we need to do at this point is
-            // - Create a new item location entry that points to the EXIF data
-            // - Create an item information entry that tells us that the iloc 
-            //   entry points to EXIF data
-            // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
-
-            // Where to put the new exif area
-            let new_exif_start = self.get_start_address_for_new_exif_area();
-
-            // If there is no iref box yet, create one so we can find one,
-            // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
-
-            // Acquire the item location, the item information and the item 
-            // reference boxes that are inside the meta box. For some reason, 
-            // this is not trivial - using e.g. get_item_location_box_mut() 
-            // does not work due to (according to the borrow checker) multiple 
-            // mutable usages of self
-            let mut iloc_opt = None;
-            let mut iinf_opt = None;
-            let mut iref_opt = None;
-
-            let meta_mut_ref = self.get_meta_box_mut()?;
-            for other_box in &mut meta_mut_ref.other_boxes
+            if let Some((first, others)) = ranges.split_first()
             {
-                if other_box.get_header().get_box_type() == BoxType::iloc
+                edits.push(Edit { range: first.clone(), replacement: data, exif_item: Some(exif_item) });
+                for other in others
                 {
-                    iloc_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemLocationBox>();
+                    edits.push(Edit { range: other.clone(), replacement: Vec::new(), exif_item: None });
                 }
-                else if other_box.get_header().get_box_type() == BoxType::iinf
+            }
+            else if let Some(index) = mdat_index
+            {
+                let end = layout.boxes[index].end;
+                edits.push(Edit { range: end..end, replacement: data, exif_item: Some(exif_item) });
+            }
+            else
+            {
+                if self.boxes.last().is_some_and(|last| last.get_header().get_box_size() == 0)
                 {
-                    iinf_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemInfoBox>();
+                    return io_error!(Unsupported, "HEIF: Can't append mdat box!");
                 }
-                else if other_box.get_header().get_box_type() == BoxType::iref
+
+                let mut mdat_box = (data.len() as u32 + 8).to_be_bytes().to_vec();
+                mdat_box.extend(b"mdat");
+                exif_item.offset = mdat_box.len();
+                mdat_box.extend(data);
+
+                let end = file_buffer.len();
+                new_boxes.push(Edit { range: end..end, replacement: mdat_box, exif_item: Some(exif_item) });
+            }
+        }
+
+        // Find out which boxes change their size due to that
+        let mut size_deltas: BTreeMap<usize, (i64, BoxHeader)> = BTreeMap::new();
+        let mut add_delta = |start: usize, header: &BoxHeader, edit: &Edit|
+        {
+            let delta = edit.replacement.len() as i64 - edit.range.len() as i64;
+            size_deltas.entry(start).or_insert((0, header.clone())).0 += delta;
+        };
+
+        for edit in &edits
+        {
+            let containing_box = layout.boxes.iter().zip(&self.boxes).find(|(range, b)| {
+                range.start + b.get_header().get_header_size() as usize <= edit.range.start
+                &&
+                edit.range.end <= range.end
+            });
+
+            match containing_box
+            {
+                Some((range, b)) if b.get_header().get_box_type() == BoxType::meta =>
                 {
-                    iref_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemReferenceBox>();
-                }
+                    let idat = match &layout.idat_content
+                    {
+                        Some((idat, content)) if content.start <= edit.range.start && edit.range.end <= content.end 
+                            => idat,
+                        _   => return io_error!(Unsupported, "HEIF: Unsupported location of EXIF data!")
+                    };
+
+                    let meta = self.get_meta_box()?;
+                    if let Some(index) = meta.get_index_of_box(BoxType::idat)
+                    {
+                        add_delta(idat.start, meta.other_boxes[index].get_header(), edit);
+                    }
+                    add_delta(range.start, b.get_header(), edit);
+                },
+
+                Some((_, b)) if b.get_header().get_box_type() == BoxType::ftyp || is_moov(b.get_header())
+                    => return io_error!(Unsupported, "HEIF: Unsupported location of EXIF data!"),
+
+                Some((range, b))
+                    => add_delta(range.start, b.get_header(), edit),
+
+                None
+                    => return io_error!(Unsupported, "HEIF: Unsupported location of EXIF data!")
             }
+        }
 
-            let iloc = match iloc_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iloc box should exist"),
-            };
-            let iinf = match iinf_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iinf box should exist"),
-            };
-            let iref = match iref_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iref box should exist"),
-            };
+        // The boxes inside the meta box that get replaced as a whole
+        {
+            let meta_start = layout.boxes[layout.meta_index].start;
+            let meta       = self.get_meta_box_mut()?;
 
-            // Note that the given `new_exif_start` value is based on old
-            // length values (which change due to adding a new item to both the
-            // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
-            // This way, we don't need any exception during the update procedure
-            let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
-                new_exif_start,
-                0
-            );
-            let               iinf_size_delta  = iinf.create_new_item_info_entry(
-                new_iloc_id, 
-                "Exif"
-            );
-                              iref_size_delta += iref.create_new_single_item_reference_box(
-                "cdsc",             // TODO: Check if this is always this type?
-                new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
-            );
+            meta.get_item_location_box_mut()?.ensure_extents_can_be_stored();
+            meta.get_item_location_box_mut()?.update_box_size();
 
-            // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+            for (index, sub_box) in meta.other_boxes.iter().enumerate()
+            {
+                let replaced = match sub_box.get_header().get_box_type()
+                {
+                    BoxType::iloc                 => Some(index) == meta.get_index_of_box(BoxType::iloc),
+                    BoxType::iinf | BoxType::iref => new_item && Some(index) == meta.get_index_of_box(sub_box.get_header().get_box_type()),
+                    _                             => false
+                };
 
-            // Fix up the size of the meta box as well
-            let new_box_size = self.get_meta_box()?.serialize().len() as u64;
-            self.get_meta_box_mut()?.get_header_mut().set_box_size(new_box_size);
+                if !replaced { continue; }
 
-            // No change to the mdat data at this point as we set up the
-            // iloc item so that the exif area currently has a length of zero
+                // A new box gets placed at the end of the meta box
+                let range = if index < old_meta_box_count
+                {
+                    layout.meta_boxes[index].clone()
+                }
+                else
+                {
+                    let end = layout.boxes[layout.meta_index].end;
+                    end..end
+                };
 
-            // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+                let edit = Edit { range, replacement: sub_box.serialize(), exif_item: None };
+                add_delta(meta_start, meta.get_header(), &edit);
+                edits.push(edit);
+            }
         }
 
-        // Get position and length of current exif area
-        let (old_exif_pos, old_exif_len) = match &id {
-            Ok(idv) => self.get_exif_data_pos_and_len(*idv)?,
-            Err(_) => (0, 0),
+        // These have to follow after anything that is placed at the end of the
+        // last box
+        edits.append(&mut new_boxes);
+
+        let mut edits = EditList::new(edits)?;
+
+        // Update the location of all items
+        let old_iloc_range = match self.get_meta_box()?.get_index_of_box(BoxType::iloc)
+        {
+            Some(index) => layout.meta_boxes[index].clone(),
+            None        => return io_error!(NotFound, "No iloc box found in MetaBox")
         };
 
-        // Get cursor for file
-        let mut cursor = Cursor::new(file_buffer);
-
-        // Construct new exif data area
-        let (mut new_exif_area, delta) = self.construct_new_exif_data_area(
-            &mut cursor, 
-            metadata
-        )?;
-
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
-        {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
-            {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
+        let mut exif_positions = HashMap::new();
+        for (index, edit) in edits.edits.iter().enumerate()
+        {
+            let Some(exif_item) = edit.exif_item else { continue; };
 
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
-                }
+            let delta    = if index == 0 { 0 } else { edits.cumulative_deltas[index - 1] };
+            let position = (edit.range.start as u64).saturating_add_signed(delta) + exif_item.offset as u64;
+            exif_positions.insert(exif_item.item_id, (position, exif_item.length as u64));
+        }
 
-                 continue;
-            }
+        let new_idat_start = layout.idat_content.as_ref().map(|(idat, content)| {
+            edits.map(idat.start as u64) + (content.start - idat.start) as u64
+        });
 
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
+        let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
+        for item in &mut iloc.items
+        {
+            let area_start = match (item.get_construction_method()?, new_idat_start)
             {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
+                (ItemConstructionMethod::IDAT, Some(start)) => start,
+                _                                           => 0
+            };
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+            if let Some((position, length)) = exif_positions.remove(&item.item_id)
             {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
+                item.base_offset = 0;
+                item.extents     = vec![
+                    ItemLocationEntryExtentEntry 
+                    {
+                        extent_index:  item.extents.first().and_then(|extent| extent.extent_index),
+                        extent_offset: position - area_start,
+                        extent_length: length
+                    }
+                ];
                 continue;
             }
 
-            if item.data_reference_index != 0
-            {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
-                continue;
-            }
+            let Some(ranges) = Self::get_extent_ranges(item, &layout)? else { continue; };
 
-            if item.base_offset > delta.unsigned_abs()
+            if ranges.iter().any(|range| edits.affects(range))
             {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
-                {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
-                }
+                return io_error!(Unsupported, "HEIF: Other items are stored in the same location as information that needs to be changed!");
             }
 
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
+            let new_offsets = ranges.iter()
+                .map(|range| edits.map(range.start).saturating_sub(area_start))
+                .collect::<Vec<_>>();
+
+            // Keep the base offset if possible. Otherwise try to move it by as
+            // much as the first extent moves
+            let base_offset = |base: u64| new_offsets.iter().all(|offset| *offset >= base).then_some(base);
+            let moved_base  = match (new_offsets.first(), item.extents.first())
             {
-                let complete_offset = item.base_offset + extent.extent_offset;
+                (Some(offset), Some(extent)) => offset.checked_sub(extent.extent_offset),
+                _                            => continue
+            };
 
-                if complete_offset > old_exif_pos
-                {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
-                }
+            let new_base = moved_base.filter(|_| item.base_offset != 0).and_then(base_offset)
+                .or(base_offset(item.base_offset))
+                .unwrap_or(0);
+
+            item.base_offset = new_base;
+            for (extent, offset) in item.extents.iter_mut().zip(new_offsets)
+            {
+                extent.extent_offset = offset - new_base;
             }
         }
 
-        // Now we clear the vec and write the boxes to it
-        // Keep track of how many bytes were written so we know when to 
-        // replace old exif data with new
-        cursor.get_mut().clear();
+        iloc.check_value_sizes()?;
 
-        let mut written_bytes    = 0usize;
-        let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
+        let new_iloc = iloc.serialize();
+        if let Some(edit) = edits.edits.iter_mut().find(|edit| edit.range == old_iloc_range)
+        {
+            edit.replacement = new_iloc;
+        }
 
-        for iso_box in &mut self.boxes
+        // Update the locations of the data of image sequences
+        for (range, iso_box) in layout.boxes.iter().zip(&self.boxes)
         {
-            let mut serialized = iso_box.serialize();
+            if is_moov(iso_box.get_header())
+            {
+                let content_start = range.start + iso_box.get_header().get_header_size() as usize;
+                update_chunk_offsets(file_buffer, content_start..range.end, &edits, 0)?;
+            }
+        }
 
-            // If this box encompasses the exif data area, update its size and
-            // serialize it again
-            // TODO: As this is not the cleanest approach (e.g. what if the
-            // exif area is not in this top level box but some nested box? 
-            // -> requires update of size fields of all boxes "downward") some
-            // other solution needs to be found for this
-            // In the meantime, this should work for the majority of HEIFs
-            if 
-                written_bytes + serialized.len() >= end_of_old_exif 
-                && 
-                !new_exif_written
+        // Update the sizes of the boxes that were changed
+        for (start, (delta, header)) in size_deltas
+        {
+            let new_size = header.get_box_size().saturating_add_signed(delta);
+
+            if header.get_box_size() == 0
             {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
-
-                // Write the serialized box with the OLD exif data
-                cursor.get_mut().extend(&serialized);
-
-                // Remove old exif data
-                range_remove(
-                    cursor.get_mut(), 
-                    old_exif_pos as usize, 
-                    (old_exif_pos + old_exif_len) as usize
-                );
-
-                // Insert new exif data
-                insert_multiple_at(
-                    cursor.get_mut(),
-                    old_exif_pos as usize, 
-                    &mut new_exif_area
-                );
-
-                new_exif_written = true;
+                continue;
+            }
+            else if header.is_large()
+            {
+                file_buffer[start+8..start+16].copy_from_slice(&new_size.to_be_bytes());
+            }
+            else if let Ok(new_size) = u32::try_from(new_size)
+            {
+                file_buffer[start..start+4].copy_from_slice(&new_size.to_be_bytes());
             }
             else
             {
-                // Just extend with the serialized box contents
-                cursor.get_mut().extend(&serialized);
+                return io_error!(Unsupported, "HEIF: Box is too large!");
             }
-
-            written_bytes += serialized.len();
         }
 
+        *file_buffer = edits.apply(file_buffer);
+
         return Ok(());
     }
 
+    pub(super) fn
+    generic_write_metadata
+    (
+        &mut self,
+        file_buffer: &mut Vec<u8>,
+        metadata:    &    Metadata
+    )
+    -> Result<(), std::io::Error>
+    {
+        let exif_item_ids = self.get_meta_box()?.get_item_info_box()?.get_exif_item_ids();
+
+        let mut new_exif_data = vec![(
+            exif_item_ids.first().copied(), 
+            as_u8_vec(&metadata.encode()?)
+        )];
+
+        // The old data of any other exif items must not remain
+        for exif_item_id in exif_item_ids.into_iter().skip(1)
+        {
+            new_exif_data.push((
+                Some(exif_item_id), 
+                as_u8_vec(&Metadata::new().encode()?)
+            ));
+        }
+
+        return self.replace_exif_data(file_buffer, new_exif_data);
+    }
+
 
 
     pub(super) fn 
@@ -623,41 +825,122 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
-        // Create cursor
-        let mut cursor = Cursor::new(file_buffer);
-
-        // Read original metadata
-        let orig_metadata = Metadata::general_decoding_wrapper(
-            self.get_exif_data(&mut cursor)
-        )?;
-
-        // Construct new metadata that only contains the above tags
-        let mut new_metadata = Metadata::new();
+        let exif_item_ids = self.get_meta_box()?.get_item_info_box()?.get_exif_item_ids();
 
-        // 0x0112: Orientation
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0112, None).next()
+        // Nothing to clear
+        if exif_item_ids.is_empty()
         {
-            new_metadata.set_tag(tag.clone());
+            return Ok(());
         }
 
-        // 0x011A: XResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011A, None).next()
+        let     layout        = self.get_layout(file_buffer.len())?;
+        let mut new_exif_data = Vec::new();
+        for exif_item_id in exif_item_ids
         {
-            new_metadata.set_tag(tag.clone());
+            // Construct new metadata that only contains the above tags
+            let mut new_metadata = Metadata::new();
+
+            // Read original metadata - if this is not possible there is
+            // nothing to keep
+            if let Ok(orig_metadata) = Metadata::general_decoding_wrapper(
+                self.get_exif_data_of_item(exif_item_id, file_buffer, &layout)
+            )
+            {
+                let orig_tags = orig_metadata.get_ifd(ExifTagGroup::GENERIC, 0)
+                    .map(|ifd| ifd.get_tags().as_slice())
+                    .unwrap_or_default();
+
+                for hex in [0x0112, 0x011A, 0x011B, 0x0128]
+                {
+                    if let Some(tag) = orig_tags.iter().find(|tag| tag.as_u16() == hex)
+                    {
+                        new_metadata.set_tag(tag.clone());
+                    }
+                }
+            }
+
+            new_exif_data.push((
+                Some(exif_item_id), 
+                as_u8_vec(&new_metadata.encode()?)
+            ));
         }
 
-        // 0x011A: YResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011B, None).next()
+        return self.replace_exif_data(file_buffer, new_exif_data);
+    }
+}
+
+/// Boxes that form the path to the locations of the data of image sequences
+const CHUNK_OFFSET_PATH: [[u8; 4]; 4] = [*b"trak", *b"mdia", *b"minf", *b"stbl"];
+
+fn
+is_moov
+(
+    header: &BoxHeader
+)
+-> bool
+{
+    header.get_box_type() == BoxType::unknown { box_type: *b"moov" }
+}
+
+/// Updates the locations stored in `stco` and `co64` boxes
+fn
+update_chunk_offsets
+(
+    file_buffer: &mut [u8],
+    range:       Range<usize>,
+    edits:       &EditList,
+    depth:       usize
+)
+-> Result<(), std::io::Error>
+{
+    let mut position = range.start;
+
+    while position < range.end
+    {
+        let header    = BoxHeader::read_box_header(&mut Cursor::new(&file_buffer[position..range.end]))?;
+        let content   = position + header.get_header_size() as usize;
+        let remaining = (range.end - position) as u64;
+        let length    = if header.get_box_size() == 0 { remaining } else { header.get_box_size() };
+
+        if length < header.get_header_size() || length > remaining
         {
-            new_metadata.set_tag(tag.clone());
+            return io_error!(InvalidData, "Invalid box size in moov box!");
         }
 
-        // 0x0128: ResolutionUnit
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0128, None).next()
+        let end = position + length as usize;
+
+        match header.get_box_type()
         {
-            new_metadata.set_tag(tag.clone());
+            BoxType::stco | BoxType::co64 if depth == CHUNK_OFFSET_PATH.len() =>
+            {
+                let offset_size = if header.get_box_type() == BoxType::stco { 4 } else { 8 };
+                let count       = read_be_u32(&mut Cursor::new(&file_buffer[content..end]))? as usize;
+
+                for offset in file_buffer[content+4..end].chunks_exact_mut(offset_size).take(count)
+                {
+                    let old_offset = offset.iter().fold(0u64, |value, byte| value << 8 | *byte as u64);
+                    let new_offset = edits.map(old_offset);
+
+                    if offset_size == 4 && new_offset > u32::MAX as u64
+                    {
+                        return io_error!(Unsupported, "Chunk offset can't be stored in stco box!");
+                    }
+
+                    offset.copy_from_slice(&new_offset.to_be_bytes()[8 - offset_size..]);
+                }
+            },
+
+            box_type => if 
+                depth < CHUNK_OFFSET_PATH.len() 
+                && 
+                box_type.to_4_bytes() == CHUNK_OFFSET_PATH[depth]
+            {
+                update_chunk_offsets(file_buffer, content..end, edits, depth + 1)?;
+            }
         }
 
-        return self.generic_write_metadata(cursor.get_mut(), &new_metadata);
+        position = end;
     }
+
+    return Ok(());
 }
diff --git a/src/heif/mod.rs b/src/heif/mod.rs
index 155fc9a..64a2283 100644
--- a/src/heif/mod.rs
+++ b/src/heif/mod.rs
@@ -12,32 +12,14 @@ mod boxes;
 mod container;
 
 use std::io::Cursor;
-use std::io::Read;
-use std::io::Seek;
-use std::io::Write;
 use std::path::Path;
 
-use crate::general_file_io::open_read_file;
-use crate::general_file_io::open_write_file;
-
+use crate::general_file_io::overwrite_file;
 use crate::general_file_io::EXIF_HEADER;
 use crate::metadata::Metadata;
 
-use crate::heif::boxes::read_next_box;
 use crate::heif::container::HeifContainer;
 
-fn
-generic_read_metadata
-<T: Seek + Read>
-(
-    cursor: &mut T
-)
--> Result<Vec<u8>, std::io::Error>
-{
-    let container = HeifContainer::construct_from_cursor_unboxed(cursor)?;
-    return container.get_exif_data(cursor);
-}
-
 pub(crate) fn
 read_metadata
 (
@@ -45,8 +27,10 @@ read_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut cursor = Cursor::new(file_buffer);
-    return generic_read_metadata(&mut cursor);
+    let mut cursor    = Cursor::new(file_buffer);
+    let     container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
+
+    return container.get_exif_data(file_buffer);
 }
 
 pub(crate) fn
@@ -56,8 +40,7 @@ file_read_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut file = open_read_file(path)?;
-    return generic_read_metadata(&mut file);
+    return read_metadata(&std::fs::read(path)?);
 }
 
 
@@ -65,15 +48,15 @@ file_read_metadata
 pub(crate) fn
 write_metadata
 (
-	file_buffer: &mut Vec<u8>,
-	metadata:    &Metadata
+    file_buffer: &mut Vec<u8>,
+    metadata:    &Metadata
 )
 -> Result<(), std::io::Error> 
 {
-    let mut cursor    = Cursor::new(file_buffer);
+    let mut cursor    = Cursor::new(&*file_buffer);
     let mut container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
 
-    return container.generic_write_metadata(cursor.get_mut(), metadata);
+    return container.generic_write_metadata(file_buffer, metadata);
 }
 
 pub(crate) fn
@@ -84,24 +67,10 @@ file_write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Load the entire file into memory instead of performing multiple read, 
-    // seek and write operations
-    let mut file = open_write_file(path)?;
-    let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
+    let mut file_buffer = std::fs::read(path)?;
+    write_metadata(&mut file_buffer, metadata)?;
 
-    let mut cursor    = Cursor::new(file_buffer);
-    let mut container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
-
-    container.generic_write_metadata(cursor.get_mut(), metadata)?;
-
-    // Seek back to start, write the file and adjust its length, possibly 
-    // truncating the file if new contents are shorter
-    file.seek(std::io::SeekFrom::Start(0))?;
-    file.write_all(cursor.get_ref())?;
-    file.set_len(cursor.get_ref().len() as u64)?;
-
-    return Ok(());
+    return overwrite_file(path, &file_buffer);
 }
 
 /// Encodes the given metadata into a vector of bytes that can be used as
@@ -134,10 +103,10 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut cursor    = Cursor::new(file_buffer);
+    let mut cursor    = Cursor::new(&*file_buffer);
     let mut container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
 
-    return container.generic_clear_metadata(cursor.get_mut());
+    return container.generic_clear_metadata(file_buffer);
 }
 
 pub(crate) fn
@@ -147,22 +116,8 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Load the entire file into memory instead of performing multiple read, 
-    // seek and write operations
-    let mut file = open_write_file(path)?;
-    let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
-
-    let mut cursor    = Cursor::new(file_buffer);
-    let mut container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
-
-    container.generic_clear_metadata(cursor.get_mut())?;
-
-    // Seek back to start, write the file and adjust its length, possibly 
-    // truncating the file if new contents are shorter
-    file.seek(std::io::SeekFrom::Start(0))?;
-    file.write_all(cursor.get_ref())?;
-    file.set_len(cursor.get_ref().len() as u64)?;
+    let mut file_buffer = std::fs::read(path)?;
+    clear_metadata(&mut file_buffer)?;
 
-    return Ok(());
+    return overwrite_file(path, &file_buffer);
 }
diff --git a/src/util.rs b/src/util.rs
index eb1aa0c..ab6a29c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -200,33 +200,6 @@ read_be_u64
     return Ok(value);
 }
 
-pub(crate) fn
-read_null_terminated_string
-<T: Seek + Read>
-(
-    cursor: &mut T
-)
--> Result<String, std::io::Error>
-{
-    let mut string_buffer    = Vec::new();
-    let mut character_buffer = read_1_bytes(cursor)?;
-    while character_buffer[0] != 0x00
-    {
-        string_buffer.push(character_buffer[0]);
-        character_buffer = read_1_bytes(cursor)?;
-    }
-
-    return String::from_utf8(string_buffer).map_err(
-        |_e| 
-        std::io::Error::new
-        (
-            std::io::ErrorKind::InvalidData,
-            "Could not convert byte data to UTF-8 string!"
-        )
-    );
-}
-
-
 /// Inserts a slice into a vector at a given offset, shifting elements 
 /// starting at the offset towards the end.
 /// Returns 0 (zero) if the operation was successful, non-zero if the offset 
-- 
2.43.0


From 9ac1a69ef7d60aa0ae50e888b7e2c458535d32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 44/59] fix: recognise further brands of HEIF and AVIF files
 from their content

---
 src/filetype.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 6b1189a..151b3b6 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -90,16 +90,21 @@ FileExtension
             // HEIC/HEIF/AVIF
             // length       f     t     y     p 
               [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x63, ..]  // heic
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x78, ..]  // heix
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x6d, ..]  // heim
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x73, ..]  // heis
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x76, 0x63, ..]  // hevc
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x76, 0x78, ..]  // hevx
             | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x66, ..]  // heif
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x6d, 0x69, 0x66, 0x31, ..]  // mif1
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x6d, 0x73, 0x66, 0x31, ..]  // msf1
             | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66, ..]  // avif
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x73, ..]  // avis
             => 
             {
                 return Some(FileExtension::HEIF)
             }
 
-            // TODO: Other HEIF formats, e.g. ftypmif1, see also:
-            // https://www.loc.gov/preservation/digital/formats/fdd/fdd000526.shtml
-
             _ => { 
                 return None;
             }
-- 
2.43.0


From 67ea75b48a9d8c342dd57c9074b238f4a492ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 45/59] fix: read references between HEIF items named like a
 full box

---
 src/heif/box_header.rs           | 45 ++++++++++++++++++++------------
 src/heif/boxes/item_reference.rs |  2 +-
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 2a188f0..34f3c8a 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -93,6 +93,31 @@ BoxHeader
         cursor: &mut T
     )
     -> Result<Self, std::io::Error>
+    {
+        let mut header = Self::read_simple_box_header(cursor)?;
+
+        if header.box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
+        return Ok(header);
+    }
+
+    /// Reads the header without version and flags, regardless of the type. 
+    /// E.g. in case of references between items the type may have the same
+    /// name as a box that uses a full header
+    pub(super) fn
+    read_simple_box_header
+    <T: Seek + Read>
+    (
+        cursor: &mut T
+    )
+    -> Result<Self, std::io::Error>
     {
         // Read in the size
         let box_size = read_be_u32(cursor)?;
@@ -103,7 +128,7 @@ BoxHeader
         let mut header = Self {
             box_size:    box_size as u64,
             largesize:   false,
-            box_type:    box_type.clone(),
+            box_type,
             header_size: 8,
             version:     None,
             flags:       None,
@@ -144,15 +169,6 @@ BoxHeader
             header.header_size += 16;
         }
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         return Ok(header);
     }
 
@@ -279,13 +295,10 @@ BoxHeader
         }
 
         // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
+        if let (Some(version), Some(flags)) = (self.version, self.flags)
         {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
-            {
-                serialized.push(flag);
-            }
+            serialized.push(version);
+            serialized.extend(flags);
         }
 
         return serialized;
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index c0f96da..6ce7c2b 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -49,7 +49,7 @@ SingleItemTypeReferenceBox
     )
     -> Result<Self, std::io::Error>
     {
-        let     header     = BoxHeader::read_box_header(cursor)?;
+        let     header     = BoxHeader::read_simple_box_header(cursor)?;
         let mut to_item_ID = Vec::new();
 
         // Depending on the version stored in the header of the iref box,
-- 
2.43.0


From ff6bf2af448459f38b08745a1cc64bbbcd7cbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 46/59] fix: detect the file type with readers that return less
 data per call

---
 src/filetype.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 151b3b6..d52b03b 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -36,16 +36,21 @@ FileExtension
     -> Option<Self>
     {
         // Read first few bytes (32 bytes because I don't know any better)
-        let mut buffer = [0; 32];
-        let Ok(n) = cursor.read(&mut buffer) else {
+        // Note: A single call of read may return less than what is available
+        let mut buffer     = [0; 32];
+        let mut first_data = Vec::new();
+        if cursor.take(buffer.len() as u64).read_to_end(&mut first_data).is_err()
+        {
             return None;
-        };
+        }
 
-        if n < 4
+        if first_data.len() < 4
         {
             return None;
         }
 
+        buffer[..first_data.len()].copy_from_slice(&first_data);
+
         match buffer {
             // PNG
             [0x89, 0x50, 0x4E, 0x47, ..] => {
-- 
2.43.0


From 588f7c583f90e6b7704886826d36b2aad4ab2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 47/59] fix: report invalid value sizes of HEIF item locations
 as an error

---
 src/heif/boxes/item_location.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index ef39a4b..7527734 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -388,6 +388,12 @@ ItemLocationBox
             _     => 0,
         };
 
+        // Check these in any case, even if there is nothing stored with them
+        if ![offset_size, length_size, base_offset_size, index_size].iter().all(|size| matches!(size, 0 | 4 | 8))
+        {
+            return io_error!(InvalidData, "Invalid size of values in iloc box!");
+        }
+
         let item_count = match header.get_version()
         {
             0 | 1 => read_be_u16(&mut cursor)? as u32,
-- 
2.43.0


From 404029549321f825aeb6660133fc0046d8499310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 48/59] fix: report Brotli data with an oversized window as an
 error

---
 src/jxl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index b1630b9..af165f7 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -251,7 +251,14 @@ read_metadata
             }
 
             // Brotli encoded data, starting after the 4 bytes for the type of
-            // the compressed box
+            // the compressed box. Windows larger than 16 MiB are an extension
+            // of Brotli that JXL does not use (and this bit pattern is invalid
+            // otherwise), but that could require up to 1 GiB of memory.
+            if content.get(4).is_some_and(|byte| byte & 0x7f == 0x11)
+            {
+                return io_error!(InvalidData, "Invalid window size of compressed JXL EXIF data!");
+            }
+
             let mut decompressed = Vec::new();
             brotli::Decompressor::new(&content[4..], BROTLI_BUFFER_SIZE)
                 .take(MAX_DECOMPRESSED_EXIF_SIZE + 1)
-- 
2.43.0


From 1ab07e26d7ce6f3c809f8293f3a0b0ff20b56b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 49/59] fix: append the Exif chunk of WebP files at their end
 again

Takes back 2996bd3: both places are valid, there was no defect.
---
 src/webp/vec.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 8de8d78..5b8cea1 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -615,16 +615,14 @@ write_metadata
     let encoded_metadata_len = encoded_metadata.len() as i32;
 
     // Find a location where to put the EXIF chunk
-    // This is right behind the last chunk that is both known and should be
-    // located *before* the EXIF chunk
+    // This is done by requesting a chunk descriptor as long as we find a chunk
+    // that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8 ",
+        "VP8",
         "VP8L",
-        "ALPH",
         "ICCP",
-        "ANIM",
-        "ANMF"
+        "ANIM"
     ];
 
     // Clippy wrongly needs this allowance, otherwise it states that this call
@@ -635,8 +633,6 @@ write_metadata
     // I guess there is a less messy solution to this?
     #[allow(clippy::useless_asref)]
     let mut read_cursor = Cursor::new(file_buffer.as_ref());
-    read_cursor.set_position(12);
-    let mut insert_position = 12;
 
     loop
     {
@@ -656,9 +652,9 @@ write_metadata
                     chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
                 }
 
-                if chunk_type_found_in_pre_exif_chunks
+                if !chunk_type_found_in_pre_exif_chunks
                 {
-                    insert_position = read_cursor.position() as usize;
+                    break;
                 }
             },
             Err(e) => {
@@ -674,7 +670,7 @@ write_metadata
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, insert_position, &mut encoded_metadata);
+    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
 
     // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
-- 
2.43.0


From b4d274fb8d67f83da7489f2fc03874a730ef9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 50/59] fix: remove ranges as before

Takes back bbd74db: both ways take linear time, there was no defect.
---
 src/util.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index ab6a29c..85b5194 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -260,7 +260,14 @@ where T: Copy
     if end >= old_vec_len { vec.truncate(start); return; }
 
     // Otherwise, move the elements starting at end over to the left
-    vec.drain(start..end);
+    for (dst_offset, src_index) in (end..old_vec_len).enumerate()
+    {
+        vec[start + dst_offset] = vec[src_index];
+    }
+
+    // Resize the vector to cut off any residue from the shifting operations
+    let new_vec_len = old_vec_len - (end - start);
+    vec.truncate(new_vec_len);
 }
 
 /*
-- 
2.43.0


From 613cc8306fd721803454c2bda4bf01528a93cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 51/59] fix: list each Exif item of a HEIF file only once

---
 src/heif/boxes/item_info.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 71ca970..016db05 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -105,9 +105,13 @@ ItemInfoBox
     )
     -> Vec<u32>
     {
+        // Each item only once, even if a damaged file lists it repeatedly
+        let mut known_ids = std::collections::HashSet::new();
+
         return self.items.iter()
             .filter(|item| item.item_type == Some(EXIF))
             .map(|item| item.item_id)
+            .filter(|item_id| known_ids.insert(*item_id))
             .collect();
     }
 
-- 
2.43.0


From a66fb202ca1cc26ebed3bb782c0f67516e89572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 52/59] fix: report iref boxes of unknown version that have no
 references

---
 src/heif/boxes/item_reference.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 6ce7c2b..ac983ee 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -182,6 +182,12 @@ ItemReferenceBox
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
+        // Also without any reference in it, as others may get added
+        if header.get_version() > 1
+        {
+            return io_error!(InvalidData, "Expected either version == 0 or version == 1 for iref box! Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
+        }
+
         let mut cursor     = Cursor::new(&content);
         let mut references = Vec::new();
 
-- 
2.43.0


From 768f8c07b96df79fe6813ac5aeab639010b3bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 53/59] fix: reset the data reference of HEIF items that get
 new data

---
 src/heif/container.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index cc36078..57ed83c 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -533,6 +533,7 @@ HeifContainer
             if ranges.is_empty()
             {
                 entry.reserved_and_construction_method &= 0xfff0;
+                entry.data_reference_index              = 0;
             }
 
             let mut exif_item = NewExifItem { item_id, offset: 0, length: data.len() };
-- 
2.43.0


From 33160cc589ba34963f1776241ab20a6bfd62c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 54/59] fix: clear JPG segments that follow fill bytes of a
 cleared one

---
 src/jpg.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 8d7073f..4a16115 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -117,6 +117,7 @@ clear_segment
     // Setup of variables necessary for going through the file
     let mut byte_buffer = [0u8; 1];                                             // A buffer for reading in a byte of data from the file
     let mut previous_byte_was_marker_prefix = false;                            // A boolean for remembering if the previous byte was a marker prefix (0xFF)
+    let mut fill_bytes = 0usize;                                                // The number of fill bytes (0xFF) in front of the current marker
     let mut cursor = Cursor::new(file_buffer);
 
     // Skip 0xFFD8 at the start
@@ -152,11 +153,13 @@ clear_segment
             // A further 0xFF is a fill byte, the actual marker is yet to come
             if byte_buffer[0] == JPG_MARKER_PREFIX
             {
+                fill_bytes += 1;
                 continue;
             }
 
             if is_marker_without_segment(byte_buffer[0])
             {
+                fill_bytes = 0;
                 previous_byte_was_marker_prefix = false;
                 continue;
             }
@@ -225,6 +228,14 @@ clear_segment
 
                     // Seek to start of next segment
                     cursor.set_position(backup_position);
+
+                    // Fill bytes of the deleted segment now precede what
+                    // follows there
+                    if fill_bytes > 0
+                    {
+                        fill_bytes -= 1;
+                        continue;
+                    }
                 }
             }
             else if byte_buffer[0] == 0xda
@@ -253,6 +264,7 @@ clear_segment
                 cursor.seek(SeekFrom::Current(remaining_length as i64))?;
             }
 
+            fill_bytes = 0;
             previous_byte_was_marker_prefix = false;
         }
         else
-- 
2.43.0


From d46ba877637d971e458c7b2fc2af9700b1334474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 55/59] fix: report PNG files without an IHDR chunk

---
 src/png/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 99dcb33..6d31faa 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -169,6 +169,13 @@ generic_parse_png
         }
     }
 
+    // Without this chunk there is no image (and possibly no location for the
+    // metadata where it would be found again)
+    if !chunks.iter().any(|chunk| chunk.as_string() == "IHDR")
+    {
+        return io_error!(InvalidData, "PNG does not contain an IHDR chunk!");
+    }
+
     return Ok(chunks);
 }
 
-- 
2.43.0


From dddbc8fedc914a571cd628a19ee311369bbea14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 56/59] fix: remove EXIF chunks of WebP files in the simple
 format

---
 src/webp/vec.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 5b8cea1..459ab3a 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -534,17 +534,17 @@ clear_metadata
     // The EXIF flag there is not relevant, an EXIF chunk gets removed anyways
     let parse_webp_result = parse_webp(file_buffer)?;
 
-    match parse_webp_result.first().map(|first_chunk| first_chunk.header()).as_deref()
+    let is_extended = match parse_webp_result.first().map(|first_chunk| first_chunk.header()).as_deref()
     {
         Some("VP8X")
-            => (),
+            => true,
         Some("VP8 ") | Some("VP8L")
-            => return Ok(()), // Simple File Format without EXIF metadata
+            => false, // Simple File Format, has no EXIF flag
         Some(header)
             => return io_error!(Other, format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {header}!")),
         None
             => return io_error!(Other, "Could not read first chunk descriptor of WebP file!"),
-    }
+    };
 
     let mut cursor = Cursor::new(file_buffer);
 
@@ -584,8 +584,19 @@ clear_metadata
         delta -= parsed_chunk_byte_count as i32;
     }
 
+    // A file in the simple format is done if there was no EXIF chunk in it
+    if !is_extended && delta == 0
+    {
+        return Ok(());
+    }
+
     // Update file size information
     update_file_size_information(&mut cursor, delta)?;
+
+    if !is_extended
+    {
+        return Ok(());
+    }
     
     // Set the flags in the VP8X chunk. First, read in the current flags
     set_exif_flag(&mut cursor, false)?;
-- 
2.43.0


From 6d9764c8c91e74669cf331761df9cabcf8e98703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 57/59] fix: compare WebP chunk names that contain zero bytes

---
 src/webp/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 459ab3a..7899252 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -273,7 +273,7 @@ read_metadata
         {
             return io_error!(Other, "Could not read chunk type while traversing WebP file!");
         }
-        let chunk_type = String::from_u8_vec(&header_buffer.to_vec(), &Endian::Little);
+        let chunk_type = String::from_utf8_lossy(&header_buffer).to_string();
 
         // Check that this is still the type that we expect from the previous
         // parsing over the file
-- 
2.43.0


From 0b2e303a3dcb7fcccfb0f075444ea2169be35cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 58/59] fix: HEIF: entries added behind one that extends to the
 end were lost

---
 src/heif/boxes/item_info.rs      | 7 +++++++
 src/heif/boxes/item_reference.rs | 7 +++++++
 src/heif/container.rs            | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 016db05..55ebc8c 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -135,6 +135,13 @@ ItemInfoBox
         content.extend(EXIF);
         content.push(0x00);           // null terminator for item name string
 
+        // An entry that extends to the end is no longer the last one
+        if let Some(last) = self.items.last_mut().filter(|last| last.header.get_box_size() == 0)
+        {
+            let size = last.serialize().len() as u64;
+            last.header.set_box_size(size);
+        }
+
         self.items.push(ItemInfoEntryBox 
             { 
                 header:    BoxHeader::new_exif_info_entry_box_header(), 
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index ac983ee..570cd2f 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -160,6 +160,13 @@ ItemReferenceBox
             to_item_ID,
         };
 
+        // A reference that extends to the end is no longer the last one
+        if let Some(last) = self.references.last_mut().filter(|last| last.header.get_box_size() == 0)
+        {
+            let size = last.serialize().len() as u64;
+            last.header.set_box_size(size);
+        }
+
         self.references.push(singe_item_reference_box);
 
         let new_iref_box_size = self.serialize().len() as u64;
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 57ed83c..a2fb673 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -469,6 +469,11 @@ HeifContainer
         // one (at the end to keep the indices of the other boxes) 
         if meta.get_item_reference_box_mut().is_none()
         {
+            if meta.other_boxes.last().is_some_and(|last| last.get_header().get_box_size() == 0)
+            {
+                return io_error!(Unsupported, "HEIF: Can't append iref box!");
+            }
+
             meta.other_boxes.push(Box::new(ItemReferenceBox::new()));
         }
 
-- 
2.43.0


From 79228e34e33cd56fd9baddc8883aa418ae066ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:55 +0000
Subject: [PATCH 59/59] fix: give the HEIF Exif item a number that no entity
 group has

---
 src/heif/boxes/meta.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 src/heif/container.rs  |  1 +
 2 files changed, 41 insertions(+)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 5bce473..22fcd0b 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -150,6 +150,46 @@ MetaBox
         }));
     }
 
+    /// The IDs of the entity groups in the grpl box, if there is one. These may
+    /// not be the same as the ID of an item, see ISO/IEC 14496-12, § 8.18.3
+    pub(crate) fn
+    get_entity_group_ids
+    (
+        &self
+    )
+    -> Vec<u32>
+    {
+        let mut ids = Vec::new();
+
+        for group_list_box in self.other_boxes.iter()
+            .filter(|b| b.get_header().get_box_type() == BoxType::unknown { box_type: *b"grpl" })
+            .filter_map(|b| b.as_any().downcast_ref::<IsoBox>())
+        {
+            let mut cursor = Cursor::new(group_list_box.get_data());
+
+            while let Ok(header) = BoxHeader::read_simple_box_header(&mut cursor)
+            {
+                let group_end = cursor.position()
+                    .saturating_sub(header.get_header_size())
+                    .saturating_add(header.get_box_size());
+
+                // Version and flags come first
+                let Ok(_)  = read_be_u32(&mut cursor) else { break; };
+                let Ok(id) = read_be_u32(&mut cursor) else { break; };
+                ids.push(id);
+
+                if group_end < cursor.position()
+                {
+                    break;
+                }
+
+                cursor.set_position(group_end);
+            }
+        }
+
+        return ids;
+    }
+
     /// The index of the (first) sub box of the given type
     pub(crate) fn
     get_index_of_box
diff --git a/src/heif/container.rs b/src/heif/container.rs
index a2fb673..c389169 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -449,6 +449,7 @@ HeifContainer
         let mut used_ids: HashSet<u32> = HashSet::from([0, primary_id]);
         used_ids.extend(meta.get_item_location_box()?.items.iter().map(|item| item.item_id));
         used_ids.extend(meta.get_item_info_box()?    .items.iter().map(|item| item.item_id));
+        used_ids.extend(meta.get_entity_group_ids());
 
         let largest_id = used_ids.iter().copied().max().unwrap_or(0);
         let new_id     = if largest_id < u16::MAX as u32
-- 
2.43.0

