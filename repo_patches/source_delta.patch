From 6d4672559db4e858bb314c2c10921efae8b1c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 01/20] fix: implement \u escapes (with surrogate pairs)
 instead of panicking

---
 json/src/deserialize/text.rs | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..2593e8c 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1656,12 +1656,48 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => {
+                let ch = match self.read_hex_escape()? {
+                    hi @ 0xD800..=0xDBFF => {
+                        // First half of a surrogate pair, the second half must follow
+                        if !self.read_exact("\\u") {
+                            return Err(DeserializeError::new(pos, UnrecognizedEscape));
+                        }
+                        match self.read_hex_escape()? {
+                            lo @ 0xDC00..=0xDFFF => {
+                                0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00)
+                            }
+                            _ => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                        }
+                    }
+                    code => code,
+                };
+                match char::from_u32(ch) {
+                    Some(ch) => ch,
+                    None => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                }
+            }
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads the four hexadecimal digits of a `\u` escape sequence.
+    fn read_hex_escape(&mut self) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut code = 0;
+        for _ in 0..4 {
+            let pos = self.position();
+            match self.next() {
+                Some(ch) => match ch.to_digit(16) {
+                    Some(digit) => code = (code << 4) | digit,
+                    None => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                },
+                None => return Err(DeserializeError::new(pos, UnexpectedEof)),
+            }
+        }
+        Ok(code)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From e3b1e9666e7054083246738e21b51eeb34988b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 02/20] fix: escape all control characters when writing strings

---
 json/src/serialize/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..be7a7b0 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,13 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            value if value < ' ' => {
+                const DIGITS: &[u8; 16] = b"0123456789abcdef";
+                let code = value as usize;
+                self.writer.write_str("\\u00")?;
+                self.writer.write_char(DIGITS[code >> 4].into())?;
+                self.writer.write_char(DIGITS[code & 0xF].into())
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From a9c4476a09f135e6d1eac093b7004d9eaea0037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 03/20] fix: implement reading of characters and closing of
 strings instead of panicking

---
 json/src/deserialize/text.rs | 39 ++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 2593e8c..f0f43af 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -453,7 +453,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            self.skip_str()?;
+            return Err(self.error(Box::new(ExcessCharsError)));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
@@ -678,7 +682,14 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        if let Some(ch) = self.next_char()? {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+            self.skip_str()?;
+        }
+        Err(self.error(Box::new(InvalidCharError)))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
@@ -2110,6 +2121,30 @@ impl Drop for LookbackNumBuilder<'_> {
     }
 }
 
+/// An error which says that a string was expected to consist of exactly one character.
+#[derive(Debug)]
+struct InvalidCharError;
+
+impl std::fmt::Display for InvalidCharError {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.write_str("expected a string consisting of exactly one character")
+    }
+}
+
+impl std::error::Error for InvalidCharError {}
+
+/// An error which says that a string has more characters than expected.
+#[derive(Debug)]
+struct ExcessCharsError;
+
+impl std::fmt::Display for ExcessCharsError {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.write_str("string has more characters than expected")
+    }
+}
+
+impl std::error::Error for ExcessCharsError {}
+
 /// Describes an error that can occur when deserializing JSON.
 pub struct DeserializeError<Position>(Box<DeserializeErrorInner<Position>>);
 
-- 
2.43.0


From 0d696d3586f2857e05e99cb33f96a12e88f46828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 04/20] fix: report malformed UTF-8 as an error instead of
 decoding it or panicking

---
 core/src/text_reader.rs | 44 +++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..7d68a80 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -196,38 +196,26 @@ pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Optio
     if x < 0b10000000 {
         return Ok(Some(x.into()));
     } 
-    let ch = if x < 0b11100000 {
-        let mut buf = [0u8; 1];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00011111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11110000 {
-        let mut buf = [0u8; 2];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00001111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11111000 {
-        let mut buf = [0u8; 3];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00000111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else {
-        None
+    let len = match x {
+        0xC2..=0xDF => 2,
+        0xE0..=0xEF => 3,
+        0xF0..=0xF4 => 4,
+        _ => return Err(invalid_utf8_error()),
     };
-    if let Some(ch) = ch {
-        Ok(Some(ch))
-    } else {
-        // Error
-        todo!();
+    let mut buf = [x, 0, 0, 0];
+    let buf = &mut buf[..len];
+    r.read_exact(&mut buf[1..])?;
+    match std::str::from_utf8(buf) {
+        Ok(str) => Ok(str.chars().next()),
+        Err(_) => Err(invalid_utf8_error()),
     }
 }
 
+/// Constructs an error which says that a stream does not contain valid UTF-8.
+fn invalid_utf8_error() -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8")
+}
+
 #[test]
 fn test_read_utf8() {
     let str = "ab\u{0014}\u{0162}\u{0651}\u{1485}\u{0482}\u{95832}";
-- 
2.43.0


From 253d4581cf663a1fbde60cf98d761ee811bce8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/20] fix: retry interrupted reads at character boundaries

---
 core/src/text_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 7d68a80..037fa7b 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -190,8 +190,13 @@ impl std::fmt::Display for LineColumnPosition {
 /// has no data remaining and returns an error if an invalid or partial character is encountered.
 pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Option<char>> {
     let mut x = 0;
-    if r.read(std::slice::from_mut(&mut x))? == 0 {
-        return Ok(None);
+    loop {
+        match r.read(std::slice::from_mut(&mut x)) {
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
     }
     if x < 0b10000000 {
         return Ok(Some(x.into()));
-- 
2.43.0


From a60b1b983979004964c529aec7164c6aab20ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/20] fix: accept comments before values which are read ahead

---
 json/src/deserialize/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index f0f43af..d1280f6 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1837,6 +1837,12 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    // Skip leading comment
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From 37f8f56d3a085c49ab18da9e9d43fa91c983ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 07/20] fix: keep the full exponent of numbers which are read
 ahead

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index d1280f6..ec4a298 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1864,12 +1863,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From 8479b5cd84677ceda2def52bc4a5e81473ea78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 08/20] fix: read integers exactly whenever their value is
 representable

Zeros with an exponent or a fraction (e.g. `0e20`, `0.000`), and integers
written with trailing zeros (e.g. `100.0` as u8) were rejected as overflow.
---
 json/src/deserialize/number.rs |  8 +++++++-
 json/src/deserialize/text.rs   | 37 ++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/number.rs b/json/src/deserialize/number.rs
index c7bcd7b..2d74be5 100644
--- a/json/src/deserialize/number.rs
+++ b/json/src/deserialize/number.rs
@@ -21,7 +21,10 @@ macro_rules! impl_unsigned {
         impl Num for $ty {
             type Builder = Self;
             fn from_builder(value: Self, negate: bool, exp_10: i32) -> Option<Self> {
-                if negate && value != 0 {
+                if value == 0 {
+                    return Some(0);
+                }
+                if negate {
                     return None;
                 }
                 let ten: Self = 10;
@@ -64,6 +67,9 @@ macro_rules! impl_signed {
         impl Num for $ty {
             type Builder = $unsigned_ty;
             fn from_builder(mut value: Self::Builder, negate: bool, exp_10: i32) -> Option<Self> {
+                if value == 0 {
+                    return Some(0);
+                }
                 let ten: Self::Builder = 10;
                 if let Ok(exp_10) = u32::try_from(exp_10) {
                     let pow = ten.checked_pow(exp_10)?;
diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index ec4a298..74ded19 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1494,6 +1494,20 @@ trait TextReaderExt: TextReader {
     fn read_number_into_builder(
         &mut self,
         builder: &mut impl NumBuilder,
+    ) -> Result<(bool, i32), DeserializeError<Self::Position>> {
+        let mut builder = TrimmedNumBuilder {
+            target: builder,
+            zeros: 0,
+        };
+        let (negate, exp) = self.read_number_digits(&mut builder)?;
+        Ok((negate, exp.saturating_add(builder.zeros)))
+    }
+
+    /// Reads a JSON number, pushing all of its digits into the given builder. Returns the
+    /// negation flag and base-10 exponent for the number.
+    fn read_number_digits(
+        &mut self,
+        builder: &mut impl NumBuilder,
     ) -> Result<(bool, i32), DeserializeError<Self::Position>> {
         let pos = self.position();
         let mut negate = false;
@@ -2091,6 +2105,29 @@ fn correct_items<Position>(items: &mut [LookbackItem<Position>], last_child_inde
 
 impl<T: TextReader> TextReaderExt for T {}
 
+/// A [`NumBuilder`] which withholds trailing zeros from another [`NumBuilder`]. These need to be
+/// added to the exponent of the number instead. This ensures that a number only overflows when
+/// its actual value does.
+struct TrimmedNumBuilder<'a, B: NumBuilder> {
+    target: &'a mut B,
+    zeros: i32,
+}
+
+impl<B: NumBuilder> NumBuilder for TrimmedNumBuilder<'_, B> {
+    fn push_digit(&mut self, digit: u8) -> bool {
+        if digit == 0 {
+            self.zeros = self.zeros.saturating_add(1);
+            return true;
+        }
+        for _ in 0..std::mem::take(&mut self.zeros) {
+            if !self.target.push_digit(0) {
+                return false;
+            }
+        }
+        self.target.push_digit(digit)
+    }
+}
+
 /// A [`NumBuilder`] which stores digit data in a byte array.
 struct LookbackNumBuilder<'a> {
     target: &'a mut Vec<u8>,
-- 
2.43.0


From e5153668df5410ff6932c5cdce039a6b3c4b61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 09/20] fix: accept numbers with an exponent of any size

---
 json/src/deserialize/text.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 74ded19..4bcd225 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1652,17 +1652,14 @@ trait TextReaderExt: TextReader {
                 Some(ch @ '0'..='9') => {
                     self.next();
                     if !exp_builder.push_digit((ch as u8) - b'0') {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
+                        // Exponents this large are all equivalent
+                        exp_builder = u32::MAX;
                     }
                 }
                 _ => {
-                    let Some(exp) = i32::from_builder(exp_builder, negate_exp, 0) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    let Some(exp) = exp.checked_add(decimal_exp) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    return Ok((negate, exp));
+                    let exp = i32::from_builder(exp_builder, negate_exp, 0)
+                        .unwrap_or(if negate_exp { i32::MIN } else { i32::MAX });
+                    return Ok((negate, exp.saturating_add(decimal_exp)));
                 }
             }
         }
-- 
2.43.0


From 4503c5eaaea6fc7cba9d106db8600c97085340ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 10/20] fix: count items returned by List::next towards the
 remaining length

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..73254dc 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -582,6 +582,7 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            self.rem_len = self.rem_len.wrapping_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From 40f75cbc480267a9402474c275d937dc653be7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 11/20] fix: reject unescaped control characters in strings

---
 json/src/deserialize/text.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 4bcd225..36a6c98 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -692,6 +692,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
+        let pos = self.reader.position();
         match &mut self.state {
             DeserializerState::StreamingString { is_key } => match self.reader.next() {
                 Some('"') => {
@@ -709,6 +710,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
                     Ok(None)
                 }
                 Some('\\') => Ok(Some(self.reader.read_escape_sequence()?)),
+                Some('\0'..='\x1F') => Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => Ok(Some(ch)),
                 None => Err(DeserializeError::new(self.reader.position(), UnexpectedEof)),
             },
@@ -1730,6 +1732,7 @@ trait TextReaderExt: TextReader {
         let mut suffix = expected;
         loop {
             if let Some(exp_ch) = suffix.peek() {
+                let pos = self.position();
                 let act_ch = match self.next() {
                     Some('"') => {
                         // Actual key is shorter than expected key
@@ -1737,6 +1740,9 @@ trait TextReaderExt: TextReader {
                         return Ok(false);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => {
+                        return Err(DeserializeError::new(pos, UnexpectedChar))
+                    }
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1749,12 +1755,16 @@ trait TextReaderExt: TextReader {
                     suffix.next();
                 }
             } else {
+                let pos = self.position();
                 let extra_ch = match self.next() {
                     Some('"') => {
                         // Keys match
                         return Ok(true);
                     }
                     Some('\\') => self.read_escape_sequence()?,
+                    Some('\0'..='\x1F') => {
+                        return Err(DeserializeError::new(pos, UnexpectedChar))
+                    }
                     Some(ch) => ch,
                     None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 };
@@ -1778,9 +1788,11 @@ trait TextReaderExt: TextReader {
         data: &mut Vec<u8>,
     ) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
@@ -1793,9 +1805,11 @@ trait TextReaderExt: TextReader {
     /// ending after the end quote.
     fn read_str_into(&mut self, str: &mut String) -> Result<(), DeserializeError<Self::Position>> {
         loop {
+            let pos = self.position();
             let ch = match self.next() {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
+                Some('\0'..='\x1F') => return Err(DeserializeError::new(pos, UnexpectedChar)),
                 Some(ch) => ch,
                 None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
             };
-- 
2.43.0


From 7fad60f9f2a79bc11866fc1334217e5ce482ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 12/20] fix: let the end of the document terminate a line
 comment

---
 json/src/deserialize/text.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 36a6c98..048ab52 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1325,9 +1325,8 @@ trait TextReaderExt: TextReader {
         match self.next() {
             Some('/') => loop {
                 match self.next() {
-                    Some('\n') => return Ok(()),
+                    Some('\n') | None => return Ok(()),
                     Some(_) => (),
-                    None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 }
             },
             Some('*') => loop {
-- 
2.43.0


From 5a31464ebfa485fdf9e8932250544b2cf8dd29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 13/20] fix: skip values without recursion

Skipping a deeply nested value overflowed the stack.
---
 json/src/deserialize/mod.rs | 62 +++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..d549457 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,52 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // This avoids recursion, since the nesting depth is controlled by the input
+        let mut depth: usize = 0;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Find the next value to skip, closing collections along the way
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        if self.next_entry()? {
+                            self.skip_str()?;
+                            break;
+                        }
+                    }
+                    CollectionType::Array => {
+                        if self.next_item()? {
+                            break;
+                        }
+                    }
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From 8be59eeaec388f357f6271d45a4ac232ea658b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 14/20] fix: report the position of strings which are rejected
 after being read

---
 json/src/deserialize/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 048ab52..26e4314 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -412,6 +412,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 let pos = self.reader.position();
                 match self.reader.next() {
                     Some('"') => {
+                        self.error_pos = pos;
                         self.state = DeserializerState::StreamingString { is_key: false };
                         Ok(())
                     }
@@ -428,6 +429,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    self.error_pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
-- 
2.43.0


From 87032d309fba98e4b73de9b017d8b406c7c75bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 15/20] fix: reject every use of a value which check_null has
 consumed

---
 core/src/helper.rs | 1 +
 json/src/helper.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 73254dc..a82f660 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -341,6 +341,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..b857fa1 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -16,6 +16,7 @@ pub trait ValueExt<'a, O: JsonOutliner + ?Sized> {
 impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
     fn into_null(self) -> Result<(), O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.pop_null()?;
         *done_flag = true;
         Ok(())
@@ -23,6 +24,7 @@ impl<'a, O: JsonOutliner + ?Sized> ValueExt<'a, O> for Value<'a, O> {
 
     fn into_object(self) -> Result<Object<'a, O>, O::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_object()?;
         Ok(Object::new(source, done_flag))
     }
@@ -37,6 +39,7 @@ pub trait ValueSerialierExt<'a, S: JsonSerializer + ?Sized> {
 impl<'a, S: JsonSerializer + ?Sized> ValueSerialierExt<'a, S> for Value<'a, S> {
     fn into_list_streaming(self) -> Result<List<'a, S>, S::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.open_list_streaming()?;
         Ok(List::new(source, done_flag, None))
     }
@@ -61,6 +64,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn skip(self) -> Result<(), D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         source.skip_value()?;
         *done_flag = true;
         Ok(())
@@ -68,6 +72,7 @@ impl<'a, D: JsonDeserializer + ?Sized> ValueDeserializerExt<'a, D> for Value<'a,
 
     fn into_collection(self) -> Result<Collection<'a, D>, D::Error> {
         let (source, done_flag) = self.into_raw();
+        assert!(!*done_flag, "{}", INVALID_STATE_ERROR);
         if source.peek_value_type() == ValueType::Object {
             source.open_object()?;
             Ok(Object::new(source, done_flag).into())
-- 
2.43.0


From a892811fd9c2e3b7007748556bafc50b4b45bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 16/20] fix: keep track of fields left unfinished by an inlined
 struct

---
 core/src/helper.rs | 6 ++++++
 json/src/helper.rs | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index a82f660..e31041f 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -419,6 +419,12 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(Value::new(self.source, &mut self.ready_flag))
     }
 
+    /// Indicates whether the last field value obtained from this struct (if any) has been fully
+    /// processed, i.e. whether the struct itself is back on top of the stack.
+    pub fn is_ready(&self) -> bool {
+        self.ready_flag
+    }
+
     /// Asserts that there are no more fields in the struct and closes it.
     pub fn close(self) -> Result<(), O::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
diff --git a/json/src/helper.rs b/json/src/helper.rs
index b857fa1..27dd3f8 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -164,8 +164,9 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let res = T::deserialize_content(&mut st, context);
+        self.ready_flag = st.is_ready();
+        res
     }
 }
 
-- 
2.43.0


From 4901428f0e33bc946f825295c214a65422fe6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 17/20] fix: report the container for missing values which are
 taken as null and rejected

---
 json/src/deserialize/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 26e4314..4bd3d68 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -395,7 +395,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 streaming_depth,
                 ..
             } => {
-                // TODO: Update `error_pos`
+                self.error_pos = self.outline.stack_items.last().unwrap().pos.clone();
                 self.state = DeserializerState::Collection {
                     at_start,
                     streaming_depth,
-- 
2.43.0


From 9f25b74741fafb3ec90391cd3c24cd39f6456d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 18/20] fix: report syntax errors in values read ahead where
 they are

---
 json/src/deserialize/text.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 4bd3d68..550285c 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1848,7 +1848,6 @@ trait TextReaderExt: TextReader {
         mut key_len_active: u32,
         outline: &mut Outline<Self::Position>,
     ) -> Result<usize, DeserializeError<Self::Position>> {
-        let pos = self.position();
         let mut depth = outline.top_depth().unwrap();
         let mut last_child_index = usize::MAX;
         let mut collection_type = CollectionType::Object; // Default value prior to being set.
@@ -2028,13 +2027,13 @@ trait TextReaderExt: TextReader {
                 }
                 Some(_) => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedChar,
                     ))
                 }
                 None => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedEof,
                     ))
                 }
-- 
2.43.0


From 818c2c0ad45f758296b4c5ec452063385e78d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:29 +0000
Subject: [PATCH 19/20] fix: keep derived code apart from names of fields and
 type parameters

---
 derive/src/deserialize.rs |  4 ++--
 derive/src/serialize.rs   | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 78ec71f..86c79ed 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -135,8 +135,8 @@ struct DeserializeImplContext<'a> {
 impl<'a> DeserializeImplContext<'a> {
     /// Creates a new [`DeserializeImplContext`] for the given input.
     pub fn new(input: &'a syn::DeriveInput, ser: &'a TokenStream) -> Self {
-        let d_ty = syn::Ident::new("D", Span::call_site());
-        let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
+        let d_ty = syn::Ident::new("__D", Span::call_site());
+        let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
         impl_generics_params
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 9b3afe8..b0326ba 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -120,8 +120,8 @@ struct SerializeImplContext<'a> {
 impl<'a> SerializeImplContext<'a> {
     /// Creates a new [`SerializeImplContext`] for the given input.
     pub fn new(input: &'a syn::DeriveInput, ser: &'a TokenStream) -> Self {
-        let s_ty = syn::Ident::new("S", Span::call_site());
-        let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
+        let s_ty = syn::Ident::new("__S", Span::call_site());
+        let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
         impl_generics_params
@@ -230,8 +230,10 @@ fn serialize_fields(
             for field in &fields.named {
                 let field_ident = field.ident.as_ref().unwrap();
                 let field_repr = FieldRepr::get(field)?;
-                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #field_ident });
-                cons.extend(quote! { #field_ident, });
+                // Field names may be the same as those of other variables
+                let var_ident = quote::format_ident!("field_{}", field_ident);
+                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #var_ident });
+                cons.extend(quote! { #field_ident: #var_ident, });
                 body.extend(serialize);
             }
             (quote! { { #cons } }, body)
-- 
2.43.0


From d16231308d1f1d823703ebff809fdc07be5ffc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 20/20] fix: write names which are raw identifiers without
 their prefix

---
 derive/src/deserialize.rs | 2 +-
 derive/src/lib.rs         | 6 ++++--
 derive/src/serialize.rs   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 86c79ed..d548f1e 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -7,7 +7,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream> {
     Ok(match &input.data {
         syn::Data::Struct(st) => {
             let fields = deserialize_fields(&mut ctx, &st.fields)?;
-            let name = input.ident.to_string();
+            let name = input.ident.unraw().to_string();
             let body = quote! { Self #fields };
             ctx.generate_struct(&name, body)
         }
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index fe5a54b..09b7706 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -3,6 +3,7 @@ mod serialize;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::DeriveInput;
 use syn::spanned::Spanned;
 
@@ -137,7 +138,7 @@ impl EnumRepr {
             EnumRepr::Tag
         } else {
             EnumRepr::Struct {
-                name: rename.unwrap_or_else(|| ident.to_string()),
+                name: rename.unwrap_or_else(|| ident.unraw().to_string()),
                 tag: tag.unwrap_or_else(|| DEFAULT_TAG.to_string()),
             }
         })
@@ -194,7 +195,7 @@ impl VariantRepr {
 
         // Construct representation
         Ok(VariantRepr {
-            name: rename.unwrap_or_else(|| variant.ident.to_string()),
+            name: rename.unwrap_or_else(|| variant.ident.unraw().to_string()),
             index: reindex.unwrap_or(*index),
             is_transparent,
         })
@@ -243,6 +244,7 @@ impl FieldRepr {
                             .ident
                             .as_ref()
                             .expect("field name required for serialization")
+                            .unraw()
                             .to_string()
                     }),
                     use_default
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index b0326ba..824fb1a 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -7,7 +7,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream> {
     Ok(match &input.data {
         syn::Data::Struct(st) => {
             let (fields, body) = serialize_fields(&mut ctx, &st.fields)?;
-            let name = input.ident.to_string();
+            let name = input.ident.unraw().to_string();
             ctx.generate_struct(
                 &name,
                 quote! {
-- 
2.43.0

