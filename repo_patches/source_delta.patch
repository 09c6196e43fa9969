From 3cc60e7c1c061f66404da8e2126c92d5f777f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 1/5] fix: encode text given to Data/Value::from_unencoded_str

EncodedText::from_unencoded_str stored its argument without encoding it, so
text inserted through Data::from_unencoded_str or Value::from_unencoded_str
could introduce markup.
---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..317bb2b 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into()),
+            ),
         }
     }
 
-- 
2.43.0


From 24c041e6240a11d3bd78f4101c6d12faf8d6f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 2/5] fix: keep leading white space of attribute values

The parser skipped white space after the opening quote of an attribute value,
so a value did not contain the characters between its quotes.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From 7d8a9a696be1d33d93aa55ad9d5f53bf991e600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 3/5] fix: load files with a multi-byte character across a read
 boundary

Template::from_file decoded each buffered chunk on its own, so a valid UTF-8
file with a character split by the end of a chunk was rejected as undecodable.
The bytes are now collected, within the length limit, and decoded together.
---
 src/template.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..ace125f 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut bytes = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,25 +177,11 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                bytes.extend_from_slice(data);
+                data.len()
             };
 
-            if input.len() > limit {
+            if bytes.len() > limit {
                 return Err(FileError::Input {
                     path: path.into(),
                     error: InputError::LengthLimitExceeded { limit },
@@ -205,7 +191,15 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        let input = match str::from_utf8(&bytes) {
+            Ok(input) => input,
+            Err(error) => return Err(FileError::Decode {
+                path: path.into(),
+                error,
+            }),
+        };
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From 86d1f1d942259b2fc5571adec0df36ee9d14b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:29 +0000
Subject: [PATCH 4/5] fix: name each tag in its role in the mismatched closing
 tag message

The message printed the opening tag and its location where it announces the
closing tag, and the other way round.
---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..cc0fd99 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From 1dca8b83254a40e3e958d15e8cdae6c6728777e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:29 +0000
Subject: [PATCH 5/5] fix: name the closing tag in the invalid closing tag
 identifier message

The message said that an opening tag identifier was invalid.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index cc0fd99..a6eb965 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
-- 
2.43.0

