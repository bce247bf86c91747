From 0360347de3efa1df067e947edff14b91af072774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 01/16] fix: do not panic on text whose Unicode lowercase
 spells an MTL keyword

nom's tag_no_case matched U+212A (Kelvin sign) against 'k' and then split
the input inside the character: load_mtl("\u{212A}a 1 1 1") panicked.
---
 src/tokenizer/mod.rs | 14 ++++++++++++--
 src/tokenizer/mtl.rs |  4 ++--
 src/tokenizer/obj.rs |  4 ++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..cc281fb 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -15,9 +15,9 @@ use nom::{
     bytes::complete::tag,
     character::complete::digit1,
     combinator::{map, opt},
-    error::Error,
+    error::{Error, ErrorKind},
     multi::{fold_many0, fold_many1},
-    Input, Parser,
+    IResult, Input, Parser,
 };
 pub use obj::parse_obj;
 
@@ -568,6 +568,16 @@ impl<'a> Input for TokenSet<'a> {
     }
 }
 
+/// Matches a keyword, ignoring ASCII case only. `nom`'s own `tag_no_case`
+/// compares by Unicode lowercase but splits by the length of the keyword,
+/// which panics when the two differ (e.g. the Kelvin sign against `k`).
+fn tag_no_case<'a>(keyword: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |input: &'a str| match input.get(..keyword.len()) {
+        Some(found) if found.eq_ignore_ascii_case(keyword) => Ok((&input[keyword.len()..], found)),
+        _ => Err(nom::Err::Error(Error::new(input, ErrorKind::Tag))),
+    }
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..c8ec788 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index ef13c95..2d1fbab 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -3,7 +3,7 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{complete::is_not, tag, tag_no_case, take_till},
+    bytes::{complete::is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
@@ -14,7 +14,7 @@ use nom::{
     Parser,
 };
 
-use super::{Token, TokenSet, TokenizeError};
+use super::{tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-- 
2.43.0


From 8cef9ea9e67571be307c44ae17b830185a8ad865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 02/16] fix: read every decimal literal as the number it spells

A lone '.' was read as 0.0 (so './a.mtl' and '../a.png' fell apart), an
exponent without a decimal point ('1e-05') as an integer followed by
text, and an integer beyond i32 as 0.
---
 src/tokenizer/mod.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index cc281fb..1b6b903 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -13,10 +13,10 @@ pub use mtl::parse_mtl;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    character::complete::digit1,
-    combinator::{map, opt},
+    character::complete::{digit1, one_of},
+    combinator::{map, opt, recognize},
     error::{Error, ErrorKind},
-    multi::{fold_many0, fold_many1},
+    multi::fold_many1,
     IResult, Input, Parser,
 };
 pub use obj::parse_obj;
@@ -588,11 +588,13 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
-            if sign == Some("-") {
-                val *= -1;
+            let digits = s.join("");
+            let text = format!("{}{}", sign.unwrap_or_default(), digits);
+            match text.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Too large for an index, but still a valid real number.
+                Err(_) => Token::Float(text.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
@@ -605,7 +607,7 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             alt((
                 map(
                     (
-                        fold_many0(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
                             acc.push(item);
                             acc
                         }),
@@ -663,6 +665,17 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                // An exponent without a decimal point, e.g. `1e-05`.
+                map(
+                    (
+                        fold_many1(digit1, Vec::new, |mut acc: Vec<_>, item| {
+                            acc.push(item);
+                            acc
+                        }),
+                        recognize((one_of("eE"), opt(one_of("+-")), digit1)),
+                    ),
+                    |(f, e): (_, &str)| (f, Vec::new(), e.to_string()),
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From 03b6dbbb1f5affd4a9132d8c83dbfacadc4c13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 03/16] fix: do not split words that merely start like a number

'map_Kd 01.png' became the number 1. followed by 'png', and everything
from there on was lost.
---
 src/tokenizer/mod.rs | 10 +++++++++-
 src/tokenizer/mtl.rs |  8 ++++----
 src/tokenizer/obj.rs |  8 ++++----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 1b6b903..f08d760 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -14,7 +14,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{digit1, one_of},
-    combinator::{map, opt, recognize},
+    combinator::{eof, map, opt, peek, recognize, value},
     error::{Error, ErrorKind},
     multi::fold_many1,
     IResult, Input, Parser,
@@ -578,6 +578,14 @@ fn tag_no_case<'a>(keyword: &'static str) -> impl Fn(&'a str) -> IResult<&'a str
     }
 }
 
+/// A number is a whole word: text such as `01_wood` that merely starts like
+/// one is not cut into a number and a rest.
+fn number_end<'a>(
+    delimiters: &'static str,
+) -> impl Parser<&'a str, Output = (), Error = Error<&'a str>> {
+    peek(alt((value((), eof), value((), one_of(delimiters)))))
+}
+
 fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>> {
     map(
         (
diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index c8ec788..6d012c0 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -10,11 +10,11 @@ use nom::{
     },
     combinator::map,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
-use super::{tag_no_case, Token, TokenSet, TokenizeError};
+use super::{number_end, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
@@ -67,8 +67,8 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 ),
                 map(multispace1, |_| Token::Ignore),
             ),
-            super::parse_float(),
-            super::parse_digit(),
+            terminated(super::parse_float(), number_end(" \t\r\n")),
+            terminated(super::parse_digit(), number_end(" \t\r\n")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 2d1fbab..b31f98f 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -10,11 +10,11 @@ use nom::{
     },
     combinator::map,
     multi::fold_many0,
-    sequence::{delimited, preceded},
+    sequence::{delimited, preceded, terminated},
     Parser,
 };
 
-use super::{tag_no_case, Token, TokenSet, TokenizeError};
+use super::{number_end, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
@@ -49,8 +49,8 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
-            super::parse_float(),
-            super::parse_digit(),
+            terminated(super::parse_float(), number_end(" \t\r\n#/")),
+            terminated(super::parse_digit(), number_end(" \t\r\n#/")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
                 |_| Token::Ignore,
-- 
2.43.0


From 21557e85b98b1c80048c32bb5c65e8f61da55125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 04/16] fix: share tokens between token set views instead of
 copying them

Every token looked at copied the whole rest of the token stream, several
times: loading a file took time quadratic in its size (a 240 kB model
took 45 s in a release build).
---
 src/tokenizer/mod.rs | 55 ++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index f08d760..2149650 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -5,9 +5,11 @@ mod obj;
 mod test;
 
 use std::borrow::Cow;
+use std::fmt;
 use std::iter::Enumerate;
 use std::ops::Index;
-use std::ops::IndexMut;
+use std::ops::Range;
+use std::rc::Rc;
 
 pub use mtl::parse_mtl;
 use nom::{
@@ -466,48 +468,55 @@ pub enum Token<'a> {
     OptionTextureResolution,
 }
 
-#[derive(Debug, Clone)]
+/// A view of a stretch of tokens. Clones and sub-views share the tokens, the
+/// parsers make one of either for every token they look at.
+#[derive(Clone)]
 pub struct TokenSet<'a> {
-    tokens: Vec<Token<'a>>,
+    tokens: Rc<[Token<'a>]>,
+    range: Range<usize>,
+}
+
+impl fmt::Debug for TokenSet<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("TokenSet")
+            .field("tokens", &self.as_ref())
+            .finish()
+    }
 }
 
 impl TokenSet<'_> {
     pub fn is_empty(&self) -> bool {
-        self.tokens.is_empty()
+        self.range.is_empty()
     }
 
     pub fn split_at(&self, index: usize) -> (Self, Self) {
-        let (a, b) = self.tokens.split_at(index);
-        (Self { tokens: a.to_vec() }, Self { tokens: b.to_vec() })
+        (self.take(index), self.take_from(index))
     }
 
     pub fn len(&self) -> usize {
-        self.tokens.len()
+        self.range.len()
     }
 }
 
 impl<'a> Index<usize> for TokenSet<'a> {
     type Output = Token<'a>;
     fn index(&self, index: usize) -> &Self::Output {
-        &self.tokens[index]
-    }
-}
-
-impl IndexMut<usize> for TokenSet<'_> {
-    fn index_mut(&mut self, index: usize) -> &mut Self::Output {
-        &mut self.tokens[index]
+        &self.as_ref()[index]
     }
 }
 
 impl<'a> From<Vec<Token<'a>>> for TokenSet<'a> {
     fn from(tokens: Vec<Token<'a>>) -> Self {
-        Self { tokens }
+        Self {
+            range: 0..tokens.len(),
+            tokens: tokens.into(),
+        }
     }
 }
 
-impl<'a> AsRef<Vec<Token<'a>>> for TokenSet<'a> {
-    fn as_ref(&self) -> &Vec<Token<'a>> {
-        &self.tokens
+impl<'a> AsRef<[Token<'a>]> for TokenSet<'a> {
+    fn as_ref(&self) -> &[Token<'a>] {
+        &self.tokens[self.range.clone()]
     }
 }
 
@@ -515,7 +524,7 @@ impl<'a> Iterator for TokenSet<'a> {
     type Item = Token<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.tokens.first().cloned()
+        self.as_ref().first().cloned()
     }
 }
 
@@ -530,13 +539,15 @@ impl<'a> Input for TokenSet<'a> {
 
     fn take(&self, index: usize) -> Self {
         Self {
-            tokens: self.tokens.iter().take(index).cloned().collect(),
+            tokens: Rc::clone(&self.tokens),
+            range: self.range.start..self.range.end.min(self.range.start + index),
         }
     }
 
     fn take_from(&self, index: usize) -> Self {
         Self {
-            tokens: self.tokens[index..].to_vec(),
+            tokens: Rc::clone(&self.tokens),
+            range: self.range.start + index..self.range.end,
         }
     }
 
@@ -548,7 +559,7 @@ impl<'a> Input for TokenSet<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.tokens.iter().position(|t| predicate(t.clone()))
+        self.as_ref().iter().position(|t| predicate(t.clone()))
     }
 
     fn iter_elements(&self) -> Self::Iter {
-- 
2.43.0


From 8cadc6715ce6b793bf25f1085c176ae37bb19f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 05/16] fix: report tokens that belong to no statement instead
 of dropping the rest

load_obj and load_mtl stopped at the first token they could not place and
returned Ok with whatever came before it. The two supported items nothing
consumed, vp statements and the -boost option, are now accepted.
---
 src/material.rs | 23 ++++++++++++++++++++---
 src/model.rs    | 24 +++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 1c56d41..904ebcc 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -52,6 +52,7 @@ enum OptionElement {
     ImfChan(String),
     BumpMultiplier(f32),
     ReflectionType(String),
+    Boost,
 }
 
 /// Common settings for texture maps which can be color corrected.
@@ -413,8 +414,8 @@ enum MaterialElement {
 }
 
 pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError> {
-    let elements: Vec<MaterialElement> = match parse_material_set().parse_complete(input) {
-        Ok((_, x)) => x,
+    let (rest, elements) = match parse_material_set().parse_complete(input) {
+        Ok(x) => x,
         Err(e) => return Err(MaterialError::Parse(e.to_string())),
     };
 
@@ -431,7 +432,10 @@ pub(crate) fn parse(input: TokenSet<'_>) -> Result<Vec<Material>, MaterialError>
             return Err(MaterialError::NewMaterial);
         }
     }
-    Ok(res)
+    match rest.as_ref().first() {
+        Some(token) => Err(MaterialError::Parse(format!("Unexpected {token:?}"))),
+        None => Ok(res),
+    }
 }
 
 fn parse_material_set<'a>(
@@ -767,6 +771,7 @@ fn parse_options<'a>(
         parse_option_texture_resolution(),
         parse_option_imf_channel(),
         parse_option_reflection_type(),
+        parse_option_boost(),
         map(token_match!(Token::String(_)), |s| {
             let name = match get_token_string(&s) {
                 Ok(s) => s,
@@ -1082,6 +1087,18 @@ fn parse_option_reflection_type<'a>(
     )
 }
 
+/// The mip-map sharpness is accepted, but not part of the material.
+fn parse_option_boost<'a>(
+) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::OptionBoost),
+            token_match!(Token::Float(_) | Token::Int(_)),
+        ),
+        |_| OptionElement::Boost,
+    )
+}
+
 fn parse_color_type<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ColorType, Error = error::Error<TokenSet<'a>>> {
     alt((
diff --git a/src/model.rs b/src/model.rs
index 567e016..4bb28e0 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -196,6 +196,7 @@ pub(crate) enum ModelElement {
     Vertex(Vertex),
     Normal(Normal),
     Texture(Texture),
+    VertexParam,
     Face(Face),
     Line(Line),
     Point(Point),
@@ -220,6 +221,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
             map(parse_vertex(), ModelElement::Vertex),
             map(parse_vertex_normal(), ModelElement::Normal),
             map(parse_vertex_texture(), ModelElement::Texture),
+            parse_vertex_param(),
             map(parse_face(), ModelElement::Face),
             map(parse_line(), ModelElement::Line),
             map(parse_point(), ModelElement::Point),
@@ -243,6 +245,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Vertex(x) => model.vertices.push(x),
                 ModelElement::Normal(n) => model.normals.push(n),
                 ModelElement::Texture(t) => model.textures.push(t),
+                ModelElement::VertexParam => {},
                 ModelElement::Face(mut f) => {
                     f.smoothing_group = model.current_smoothing_group;
                     for g in &model.current_group {
@@ -301,7 +304,10 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     )
     .parse_complete(input)
     {
-        Ok((_, acc)) => Ok(acc),
+        Ok((rest, acc)) => match rest.as_ref().first() {
+            Some(token) => Err(ModelError::Parse(format!("Unexpected {token:?}"))),
+            None => Ok(acc),
+        },
         Err(e) => Err(ModelError::Parse(e.to_string())),
     }
 }
@@ -432,6 +438,22 @@ pub(crate) fn parse_vertex_texture<'a>(
     )
 }
 
+/// Parameter space vertices are accepted, but not part of the model.
+pub(crate) fn parse_vertex_param<'a>(
+) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::VertexParam),
+            (
+                token_match!(Token::Float(_) | Token::Int(_)),
+                opt(token_match!(Token::Float(_) | Token::Int(_))),
+                opt(token_match!(Token::Float(_) | Token::Int(_))),
+            ),
+        ),
+        |_| ModelElement::VertexParam,
+    )
+}
+
 pub(crate) fn parse_face<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Face, Error = error::Error<TokenSet<'a>>> {
     preceded(
-- 
2.43.0


From 3a9abbf73219fff9cd4892088aa76763b8f4e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 06/16] fix: keep names in OBJ statements as written

Names were tokenized like any other word: '01_oak', '/lib/a.mtl', 's' or a
trailing blank or comment made the statement fall apart or changed the
name.
---
 src/tokenizer/obj.rs | 54 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index b31f98f..3924953 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -5,10 +5,11 @@ use nom::{
     branch::alt,
     bytes::{complete::is_not, tag, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{char, line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{map, not},
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
     Parser,
@@ -18,7 +19,7 @@ use super::{number_end, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-        alt((
+        name_statement_or(alt((
             delimited(
                 multispace0(),
                 map(
@@ -56,13 +57,14 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not("\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
-        )),
+            map(is_not("\r\n"), |s: &str| Token::String(text(s))),
+        ))),
         Vec::new,
-        |mut acc: Vec<Token>, item| {
+        |mut acc: Vec<Token>, (item, name)| {
             if item != Token::Ignore {
                 acc.push(item);
             }
+            acc.extend(name);
             acc
         },
     )
@@ -73,6 +75,46 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
     }
 }
 
+/// Statements whose argument is a name (or several): the rest of the line is
+/// the argument, even where it looks like a number or a keyword.
+fn name_statement_or<'a>(
+    other: impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>>,
+) -> impl Parser<&'a str, Output = (Token<'a>, Option<Token<'a>>), Error = Error<&'a str>> {
+    alt((
+        (
+            delimited(
+                multispace0(),
+                map(
+                    alt([
+                        tag_no_case("mtllib"),
+                        tag_no_case("usemtl"),
+                        tag_no_case("shadow_obj"),
+                        tag_no_case("trace_obj"),
+                        tag_no_case("maplib"),
+                        tag_no_case("usemap"),
+                        tag_no_case("o"),
+                        tag_no_case("g"),
+                    ]),
+                    kw_map,
+                ),
+                space1,
+            ),
+            preceded(
+                not(char('#')),
+                map(is_not("\r\n"), |s: &str| Some(Token::String(text(s)))),
+            ),
+        ),
+        map(other, |token| (token, None)),
+    ))
+}
+
+/// The rest of a line without a trailing comment and trailing blanks.
+fn text(rest: &str) -> Cow<'_, str> {
+    let comment = [" #", "\t#"].iter().filter_map(|start| rest.find(start));
+    let end = comment.min().unwrap_or(rest.len());
+    Cow::Borrowed(rest[..end].trim_end_matches([' ', '\t']))
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "mtllib" => Token::MaterialLib,
-- 
2.43.0


From 0d5b77ddf55e5f08a5792fbff49a9c07470ce0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 07/16] fix: keep newmtl names as written and separate MTL
 words at tabs

The argument of newmtl is a name even where it spells a number or keyword
('newmtl 01' was an error), and a tab separates words just as a blank does
('newmtl a<TAB>x' and '-clamp on<TAB>foo.png' swallowed the tab).
---
 src/tokenizer/mtl.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 6d012c0..964c0de 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -5,10 +5,11 @@ use nom::{
     branch::alt,
     bytes::{is_not, tag, take_till},
     character::{
-        complete::{line_ending, multispace1},
+        complete::{char, line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::map,
+    combinator::{map, not},
+    error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
     Parser,
@@ -18,7 +19,7 @@ use super::{number_end, tag_no_case, Token, TokenSet, TokenizeError};
 
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
-        alt((
+        new_material_or(alt((
             delimited(
                 multispace0(),
                 map(
@@ -74,13 +75,14 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
                 |_| Token::Ignore,
             ),
             map(alt((line_ending, multispace1)), |_| Token::Ignore),
-            map(is_not(" \r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
-        )),
+            map(is_not(" \t\r\n"), |s: &str| Token::String(Cow::Borrowed(s))),
+        ))),
         Vec::new,
-        |mut acc: Vec<Token>, item| {
+        |mut acc: Vec<Token>, (item, name)| {
             if item != Token::Ignore {
                 acc.push(item);
             }
+            acc.extend(name);
             acc
         },
     )
@@ -91,6 +93,25 @@ pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     }
 }
 
+/// The word after `newmtl` is the name of the material, even where it looks
+/// like a number or a keyword.
+fn new_material_or<'a>(
+    other: impl Parser<&'a str, Output = Token<'a>, Error = Error<&'a str>>,
+) -> impl Parser<&'a str, Output = (Token<'a>, Option<Token<'a>>), Error = Error<&'a str>> {
+    alt((
+        (
+            delimited(multispace0(), map(tag_no_case("newmtl"), kw_map), space1),
+            preceded(
+                not(char('#')),
+                map(is_not(" \t\r\n"), |s: &str| {
+                    Some(Token::String(Cow::Borrowed(s)))
+                }),
+            ),
+        ),
+        map(other, |token| (token, None)),
+    ))
+}
+
 fn kw_map(value: &str) -> Token<'_> {
     match value.to_lowercase().as_ref() {
         "newmtl" => Token::NewMaterial,
-- 
2.43.0


From 7f19f5e8c4768efb34c416e4be5de82bb5a8fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 08/16] fix: split the names of g, mtllib and maplib statements

'g a b' made one group called 'a b' (and 'mtllib a b', 'maplib a b' one
library each), a name statement absorbed words on the following lines, and a
bare 'g', which selects the default group, was an error. A group named twice
in one statement holds an element once.
---
 src/model.rs         | 51 +++++++++++++++++++++++++++-----------------
 src/tokenizer/obj.rs |  4 ++--
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 4bb28e0..10d337b 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, result::Result};
+use std::{
+    collections::{HashMap, HashSet},
+    result::Result,
+};
 
 use derive_more::{Constructor, From, Into};
 
@@ -11,7 +14,7 @@ use nom::{
     branch::alt,
     combinator::{map, opt},
     error,
-    multi::{fold_many0, fold_many1, many1},
+    multi::{fold_many0, fold_many1},
     sequence::preceded,
     IResult, Parser,
 };
@@ -267,9 +270,12 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 },
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
+                    let mut named = HashSet::new();
                     for g in groups {
                         model.groups.insert(g.clone(), Default::default());
-                        model.current_group.push(g);
+                        if named.insert(g.clone()) {
+                            model.current_group.push(g);
+                        }
                     }
                 },
                 ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),
@@ -573,21 +579,29 @@ pub(crate) fn parse_point<'a>(
     )
 }
 
+/// Splits the argument of a statement which takes several names.
+fn names(text: &str) -> Vec<String> {
+    text.split([' ', '\t'])
+        .filter(|name| !name.is_empty())
+        .map(String::from)
+        .collect()
+}
+
 pub(crate) fn parse_group<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
     map(
         preceded(
             token_match!(Token::Group),
-            many1(map(
-                token_match!(Token::String(_)),
-                |s| match get_token_string(&s) {
-                    Ok(s) => s.into(),
-                    Err(e) => {
+            map(opt(token_match!(Token::String(_))), |s| {
+                match s.as_ref().map(get_token_string) {
+                    Some(Ok(s)) => names(&s),
+                    Some(Err(e)) => {
                         log::error!("{}", e);
                         Default::default()
                     },
-                },
-            )),
+                    None => vec!["default".into()],
+                }
+            }),
         ),
         ModelElement::Group,
     )
@@ -598,16 +612,15 @@ pub(crate) fn parse_mat_lib<'a>(
     map(
         preceded(
             token_match!(Token::MaterialLib),
-            many1(map(
-                token_match!(Token::String(_)),
-                |s| match get_token_string(&s) {
-                    Ok(s) => s.into(),
+            map(token_match!(Token::String(_)), |s| {
+                match get_token_string(&s) {
+                    Ok(s) => names(&s),
                     Err(e) => {
                         log::error!("{}", e);
                         Default::default()
                     },
-                },
-            )),
+                }
+            }),
         ),
         ModelElement::MaterialLib,
     )
@@ -821,7 +834,7 @@ pub(crate) fn parse_texture_lib<'a>(
     map(
         preceded(
             token_match!(Token::TextureMapLib),
-            many1(map(token_match!(Token::String(_)), |s| {
+            map(token_match!(Token::String(_)), |s| {
                 let res = match get_token_string(&s) {
                     Ok(s) => s,
                     Err(e) => {
@@ -830,8 +843,8 @@ pub(crate) fn parse_texture_lib<'a>(
                     },
                 };
 
-                res.into()
-            })),
+                names(&res)
+            }),
         ),
         ModelElement::TextureLib,
     )
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 3924953..8629dc0 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -8,7 +8,7 @@ use nom::{
         complete::{char, line_ending, multispace1, space1},
         multispace0,
     },
-    combinator::{map, not},
+    combinator::{eof, map, not},
     error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
@@ -47,7 +47,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                     ]),
                     kw_map,
                 ),
-                map(multispace1, |_| Token::Ignore),
+                map(alt((multispace1, eof)), |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
             terminated(super::parse_float(), number_end(" \t\r\n#/")),
-- 
2.43.0


From 971e18e2a6faaee5ca0c9e1324c7f72ead537174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 09/16] fix: keep a group's settings when the group is entered
 again

'g a', 'usemtl m', 'g b', 'g a' reset the material of group a.
---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 10d337b..6ce86fd 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -272,7 +272,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                     model.current_group.clear();
                     let mut named = HashSet::new();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         if named.insert(g.clone()) {
                             model.current_group.push(g);
                         }
-- 
2.43.0


From 9cfbb5e0b990267a97fdfad3c626399c450474ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 10/16] fix: record bevel, c_interp, d_interp, lod, shadow_obj,
 trace_obj, usemap off

These statements were read and thrown away although the model has fields for
them, on/off values other than Rust's true/false counted as off, and
'usemap off' set a texture map called off.
---
 src/model.rs | 95 ++++++++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 59 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 6ce86fd..e684e86 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -12,7 +12,7 @@ use crate::{
 
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, map_res, opt},
     error,
     multi::{fold_many0, fold_many1},
     sequence::preceded,
@@ -211,7 +211,7 @@ pub(crate) enum ModelElement {
     Bevel(bool),
     CInterp(bool),
     DInterp(bool),
-    Lod(i32),
+    Lod(u8),
     ShadowObj(String),
     TraceObj(String),
     TextureLib(Vec<String>),
@@ -289,19 +289,38 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().lod = level;
+                    }
+                },
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
                 ModelElement::TextureMap(name) => {
                     for g in &model.current_group {
                         let group = model.groups.entry(g.clone()).or_default();
-                        group.texture_map = Some(name.clone());
+                        group.texture_map = match name.eq_ignore_ascii_case("off") {
+                            true => None,
+                            false => Some(name.clone()),
+                        };
                     }
                 },
             }
@@ -706,73 +725,31 @@ pub(crate) fn parse_smoothing<'a>(
 
 pub(crate) fn parse_bevel<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
-        },
+        |s| get_on_off_from_str(&s).map(ModelElement::Bevel),
     )
 }
 
 pub(crate) fn parse_c_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
-        },
+        |s| get_on_off_from_str(&s).map(ModelElement::CInterp),
     )
 }
 
 pub(crate) fn parse_d_interp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
-        |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
-        },
+        |s| get_on_off_from_str(&s).map(ModelElement::DInterp),
     )
 }
 
 pub(crate) fn parse_lod<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(token_match!(Token::Lod), token_match!(Token::Int(_))),
         |s| {
             let res = match get_token_int(&s) {
@@ -782,7 +759,7 @@ pub(crate) fn parse_lod<'a>(
                     Default::default()
                 },
             };
-            ModelElement::Lod(res)
+            u8::try_from(res).map(ModelElement::Lod)
         },
     )
 }
-- 
2.43.0


From 6064c2a3ebc88087232f19956fab3698f9337cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 11/16] fix: reject on/off arguments that are neither

'-clamp maybe', 'map_aat x' and 's foo' were read as off.
---
 src/material.rs | 63 +++++++++++++------------------------------------
 src/model.rs    | 15 ++++--------
 2 files changed, 22 insertions(+), 56 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 904ebcc..453fe03 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -3,10 +3,11 @@ use std::result::Result;
 use crate::{
     get_on_off_from_str, get_opt_token_float_opt, get_token_float, get_token_int, get_token_string,
     tokenizer::{Token, TokenSet},
+    ObjError,
 };
 use nom::{
     branch::alt,
-    combinator::{map, opt},
+    combinator::{map, map_res, opt},
     error,
     multi::many1,
     sequence::preceded,
@@ -744,15 +745,9 @@ fn parse_anti_alias_map<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::AntiAliasMap),
-        map(token_match!(Token::String(_)), |o| {
-            let val = match get_on_off_from_str(&o) {
-                Ok(v) => v,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            MaterialElement::AntiAliasMap(val)
+        map_res(token_match!(Token::String(_)), |o| {
+            let val = get_on_off_from_str(&o)?;
+            Ok::<_, ObjError>(MaterialElement::AntiAliasMap(val))
         }),
     )
 }
@@ -788,36 +783,24 @@ fn parse_options<'a>(
 fn parse_option_blend<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
     alt((
-        map(
+        map_res(
             preceded(
                 token_match!(Token::OptionBlendU),
                 token_match!(Token::String(_)),
             ),
             |s| {
-                let val = match get_on_off_from_str(&s) {
-                    Ok(s) => s,
-                    Err(e) => {
-                        log::error!("{}", e);
-                        Default::default()
-                    },
-                };
-                OptionElement::BlendU(val)
+                let val = get_on_off_from_str(&s)?;
+                Ok::<_, ObjError>(OptionElement::BlendU(val))
             },
         ),
-        map(
+        map_res(
             preceded(
                 token_match!(Token::OptionBlendV),
                 token_match!(Token::String(_)),
             ),
             |s| {
-                let val = match get_on_off_from_str(&s) {
-                    Ok(s) => s,
-                    Err(e) => {
-                        log::error!("{}", e);
-                        Default::default()
-                    },
-                };
-                OptionElement::BlendV(val)
+                let val = get_on_off_from_str(&s)?;
+                Ok::<_, ObjError>(OptionElement::BlendV(val))
             },
         ),
     ))
@@ -845,40 +828,28 @@ fn parse_option_bm<'a>(
 
 fn parse_option_cc<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(
             token_match!(Token::OptionColorCorrect),
             token_match!(Token::String(_)),
         ),
         |s| {
-            let val = match get_on_off_from_str(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            OptionElement::Cc(val)
+            let val = get_on_off_from_str(&s)?;
+            Ok::<_, ObjError>(OptionElement::Cc(val))
         },
     )
 }
 
 fn parse_option_clamp<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
-    map(
+    map_res(
         preceded(
             token_match!(Token::OptionClamp),
             token_match!(Token::String(_)),
         ),
         |s| {
-            let val = match get_on_off_from_str(&s) {
-                Ok(s) => s,
-                Err(e) => {
-                    log::error!("{}", e);
-                    Default::default()
-                },
-            };
-            OptionElement::Clamp(val)
+            let val = get_on_off_from_str(&s)?;
+            Ok::<_, ObjError>(OptionElement::Clamp(val))
         },
     )
 }
diff --git a/src/model.rs b/src/model.rs
index e684e86..0d83c12 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -8,6 +8,7 @@ use derive_more::{Constructor, From, Into};
 use crate::{
     get_on_off_from_str, get_token_float, get_token_int, get_token_string,
     tokenizer::{Token, TokenSet},
+    ObjError,
 };
 
 use nom::{
@@ -693,20 +694,14 @@ pub(crate) fn parse_smoothing<'a>(
             token_match!(Token::Smoothing),
             alt((
                 token_match!(Token::Int(_)),
-                map(token_match!(Token::String(_)), |s| {
-                    let val = match get_on_off_from_str(&s) {
-                        Ok(v) => v,
-                        Err(e) => {
-                            log::error!("{}", e);
-                            Default::default()
-                        },
-                    };
-                    if !val {
+                map_res(token_match!(Token::String(_)), |s| {
+                    let val = get_on_off_from_str(&s)?;
+                    Ok::<_, ObjError>(if !val {
                         Token::Int(0)
                     } else {
                         log::error!("Invalid smoothing value encountered. Setting default to 1.");
                         Token::Int(1)
-                    }
+                    })
                 }),
             )),
         ),
-- 
2.43.0


From cb5b6820a356f9bb01414e80a5603fff5196d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 12/16] fix: reject a negative illumination model

'illum -1' was read as 4294967295.
---
 src/material.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 453fe03..468617c 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -638,7 +638,7 @@ fn parse_illumination_model<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = MaterialElement, Error = error::Error<TokenSet<'a>>> {
     preceded(
         token_match!(Token::IlluminationModel),
-        map(token_match!(Token::Int(_)), |f| {
+        map_res(token_match!(Token::Int(_)), |f| {
             let f = match get_token_int(&f) {
                 Ok(s) => s,
                 Err(e) => {
@@ -646,7 +646,7 @@ fn parse_illumination_model<'a>(
                     Default::default()
                 },
             };
-            MaterialElement::IlluminationModel(f as u32)
+            u32::try_from(f).map(MaterialElement::IlluminationModel)
         }),
     )
 }
-- 
2.43.0


From 7d0cb5e7fc011006fab31f8665e1ab5268970484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 13/16] fix: reject texture maps without a file name or with
 several

The last of several names won silently ('map_Kd my file.png' gave file.png,
and an unsupported 'map_Bump b.png' line replaced the name of the map before
it), and a missing name became an empty one.
---
 src/material.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/material.rs b/src/material.rs
index 468617c..0caf2d7 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    combinator::{map, map_res, opt},
+    combinator::{map, map_res, opt, verify},
     error,
     multi::many1,
     sequence::preceded,
@@ -754,7 +754,7 @@ fn parse_anti_alias_map<'a>(
 
 fn parse_options<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
-    many1(alt((
+    one_file_name(many1(alt((
         parse_option_blend(),
         parse_option_bm(),
         parse_option_cc(),
@@ -777,7 +777,17 @@ fn parse_options<'a>(
             };
             OptionElement::FileName(name.into())
         }),
-    )))
+    ))))
+}
+
+/// A texture map is made from exactly one file.
+fn one_file_name<'a>(
+    options: impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>>,
+) -> impl Parser<TokenSet<'a>, Output = Vec<OptionElement>, Error = error::Error<TokenSet<'a>>> {
+    verify(options, |o: &Vec<OptionElement>| {
+        let names = o.iter().filter(|e| matches!(e, OptionElement::FileName(_)));
+        names.count() == 1
+    })
 }
 
 fn parse_option_blend<'a>(
-- 
2.43.0


From ae009ff75c05d2140ab737ae75aa31bc3398cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 14/16] fix: read trailing slashes of references as absent
 indices

'f 1/ 2 3' took the 2 as the texture index of vertex 1 and 'f 1/ 2/ 3/' was an
error. The ignored trailing slash tests describe the intended result.
---
 src/tokenizer/obj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index 8629dc0..dbc3178 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -51,6 +51,11 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
             ),
             map(tag("/"), |_| Token::Slash),
             terminated(super::parse_float(), number_end(" \t\r\n#/")),
+            // `1/` and `1//` name a vertex only, the slashes separate nothing.
+            terminated(
+                super::parse_digit(),
+                (alt((tag("//"), tag("/"))), number_end(" \t\r\n#")),
+            ),
             terminated(super::parse_digit(), number_end(" \t\r\n#/")),
             map(
                 preceded(tag("#"), take_till(|c| c == '\n' || c == '\r')),
-- 
2.43.0


From b2491e6deadf2f65899c18c43159a8b1915d8eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 15/16] fix: resolve negative references while the counts are
 known

A negative reference counts back from the entries read before the element. It
was stored as written, so two elements with different targets looked the same
in the model. The ignored test cube_test_minus describes the intended result.
---
 src/model.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 0d83c12..e79309d 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -252,18 +252,36 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::VertexParam => {},
                 ModelElement::Face(mut f) => {
                     f.smoothing_group = model.current_smoothing_group;
+                    for e in &mut f.elements {
+                        absolute(&mut e.vertex_index, model.vertices.len());
+                        e.texture_index
+                            .iter_mut()
+                            .for_each(|i| absolute(i, model.textures.len()));
+                        e.normal_index
+                            .iter_mut()
+                            .for_each(|i| absolute(i, model.normals.len()));
+                    }
                     for g in &model.current_group {
                         let set = model.faces.entry(g.clone()).or_default();
                         set.push(f.clone());
                     }
                 },
-                ModelElement::Line(l) => {
+                ModelElement::Line(mut l) => {
+                    for e in &mut l.elements {
+                        absolute(&mut e.vertex_index, model.vertices.len());
+                        e.texture_index
+                            .iter_mut()
+                            .for_each(|i| absolute(i, model.textures.len()));
+                    }
                     for g in &model.current_group {
                         let set = model.lines.entry(g.clone()).or_default();
                         set.push(l.clone());
                     }
                 },
-                ModelElement::Point(p) => {
+                ModelElement::Point(mut p) => {
+                    p.elements
+                        .iter_mut()
+                        .for_each(|i| absolute(i, model.vertices.len()));
                     for g in &model.current_group {
                         let set = model.points.entry(g.clone()).or_default();
                         set.push(p.clone());
@@ -338,6 +356,18 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
     }
 }
 
+/// Negative references count back from the latest of the entries read so far,
+/// which is lost once the model is complete. One that reaches back too far is
+/// kept.
+fn absolute(index: &mut i32, count: usize) {
+    if *index < 0 {
+        match i32::try_from(count).map(|count| count + *index + 1) {
+            Ok(absolute) if absolute > 0 => *index = absolute,
+            _ => {},
+        }
+    }
+}
+
 pub(crate) fn parse_vertex<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Vertex, Error = error::Error<TokenSet<'a>>> {
     map(
-- 
2.43.0


From 644cd32a7a359413c96ad25a464942e8b8b01b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 16/16] fix: do not take a later line as the name of a bare g
 statement

'g' followed by an unsupported or broken line made a group named after it.
---
 src/model.rs         | 10 +++++-----
 src/tokenizer/obj.rs | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index e79309d..f7348b1 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -642,14 +642,14 @@ pub(crate) fn parse_group<'a>(
     map(
         preceded(
             token_match!(Token::Group),
-            map(opt(token_match!(Token::String(_))), |s| {
-                match s.as_ref().map(get_token_string) {
-                    Some(Ok(s)) => names(&s),
-                    Some(Err(e)) => {
+            map(token_match!(Token::String(_)), |s| {
+                match get_token_string(&s) {
+                    Ok(s) if s.is_empty() => vec!["default".into()],
+                    Ok(s) => names(&s),
+                    Err(e) => {
                         log::error!("{}", e);
                         Default::default()
                     },
-                    None => vec!["default".into()],
                 }
             }),
         ),
diff --git a/src/tokenizer/obj.rs b/src/tokenizer/obj.rs
index dbc3178..963fe2b 100644
--- a/src/tokenizer/obj.rs
+++ b/src/tokenizer/obj.rs
@@ -5,10 +5,10 @@ use nom::{
     branch::alt,
     bytes::{complete::is_not, tag, take_till},
     character::{
-        complete::{char, line_ending, multispace1, space1},
+        complete::{char, line_ending, multispace1, one_of, space0, space1},
         multispace0,
     },
-    combinator::{eof, map, not},
+    combinator::{eof, map, not, peek, recognize, success},
     error::Error,
     multi::fold_many0,
     sequence::{delimited, preceded, terminated},
@@ -47,7 +47,7 @@ pub fn parse_obj(input: &str) -> Result<TokenSet, TokenizeError> {
                     ]),
                     kw_map,
                 ),
-                map(alt((multispace1, eof)), |_| Token::Ignore),
+                map(multispace1, |_| Token::Ignore),
             ),
             map(tag("/"), |_| Token::Slash),
             terminated(super::parse_float(), number_end(" \t\r\n#/")),
@@ -109,6 +109,15 @@ fn name_statement_or<'a>(
                 map(is_not("\r\n"), |s: &str| Some(Token::String(text(s)))),
             ),
         ),
+        // Without names it is complete, what follows on later lines is not its name.
+        (
+            delimited(
+                multispace0(),
+                map(tag_no_case("g"), kw_map),
+                (space0, peek(alt((eof, recognize(one_of("#\r\n")))))),
+            ),
+            success(Some(Token::String("".into()))),
+        ),
         map(other, |token| (token, None)),
     ))
 }
-- 
2.43.0

