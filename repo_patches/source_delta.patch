From 57e9438c2212b5a9b67cf0d71a336b7bca33c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 01/20] fix: radix digit class accepted one digit too many

The largest digit of radix N is N - 1: {:r10} accepted 'a', {:x} accepted 'g'
and {:r36} accepted '{'.
---
 sscanf_macro/src/regex_parts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..fd15227 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -275,9 +275,9 @@ fn regex_from_radix(
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Equal => "0-9".to_string(),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From 994e50e84d54e0497a62cf680583835e77fd8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 02/20] fix: radix options accepted non-ASCII case variants of
 their digits

Unicode case folding maps U+212A KELVIN SIGN to 'k' and U+017F to 's'.
---
 sscanf_macro/src/regex_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index fd15227..fa53388 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -292,7 +292,7 @@ fn regex_from_radix(
     };
 
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        "(?i-u:{sign}{prefix}[{digits}]{{1,{n}}})",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From ffd36e814df9e496ab595967e9ac1d2c02993295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 03/20] fix: FromScanf::from_str did not anchor every
 alternative of a regex

`^a|b$` accepts any text starting with a or ending with b.
---
 src/from_scanf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..fbd906a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,7 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From 3ab173e9cb1a8981aadb0d06fda70ac18ee04872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 04/20] fix: sscanf_unescaped did not anchor every alternative
 of the format

`a|b` became `^a|b$`, which accepts any text starting with a or ending with b,
and a `(?m)` in the format made ^ and $ match at line breaks.
---
 sscanf_macro/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 0340920..e719199 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -197,8 +197,14 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
-    format.parts[0].insert(0, '^');
-    format.parts.last_mut().unwrap().push('$');
+    if escape_input {
+        format.parts[0].insert(0, '^');
+        format.parts.last_mut().unwrap().push('$');
+    } else {
+        // the user's regex might have a top-level alternation or set flags that change the meaning of '^' and '$'
+        format.parts[0].insert_str(0, "^(?:");
+        format.parts.last_mut().unwrap().push_str(")$");
+    }
 
     // inner function to use ?-operator. This should be a closure, but those can't have lifetimes
     fn find_ph_type<'a>(
-- 
2.43.0


From 3fa6b75aca5aabb533da8ba1c38548e507e8b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 05/20] fix: order of generated lifetime bounds depended on
 hash iteration order

Expanding the same derive twice could give different code.
---
 sscanf_macro/src/derive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..364668d 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 
 use crate::*;
 
@@ -124,7 +124,7 @@ impl ValueConversion {
 fn parse_format(
     attr: StructAttribute,
     raw_fields: syn::Fields,
-) -> Result<(RegexParts, TokenStream, HashSet<syn::Lifetime>)> {
+) -> Result<(RegexParts, TokenStream, BTreeSet<syn::Lifetime>)> {
     let (value, escape) = match attr.kind {
         StructAttributeKind::Format { value, escape } => (value, escape),
         StructAttributeKind::Transparent => {
@@ -143,7 +143,7 @@ fn parse_format(
 
     let mut fields = vec![];
     let mut field_map = HashMap::new();
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     for (i, field) in raw_fields.into_iter().enumerate() {
         let mut ty = field.ty;
         let ident = if let Some(ident) = field.ident {
@@ -299,7 +299,7 @@ The syntax for default values is: `#[sscanf(default)]` to use Default::default()
 }
 
 fn merge_lifetimes(
-    str_lifetimes: HashSet<syn::Lifetime>,
+    str_lifetimes: BTreeSet<syn::Lifetime>,
     src_generics: &syn::Generics,
 ) -> (syn::Lifetime, syn::Generics) {
     let mut lifetime = syn::Lifetime::new("'__from_scanf_lifetime", Span::call_site());
@@ -413,7 +413,7 @@ pub fn parse_enum(
     regex_parts.push_literal("(?:");
     let mut variant_constructors = vec![];
     let mut num_captures_list = vec![NumCaptures::One];
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     let mut first = true;
 
     for variant in data.variants {
-- 
2.43.0


From 548334264bc235ef9fc18ff62b520b0163895e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 06/20] fix: generated code used unqualified names and exposed
 REGEX to the input expression

A user item called Ok, panic!, stringify!, unreachable!, usize or str was picked
up by the expansion, and an input expression mentioning a user item called
REGEX saw the generated static instead.
---
 sscanf_macro/src/derive.rs      | 24 ++++++++++++------------
 sscanf_macro/src/lib.rs         | 10 ++++++----
 sscanf_macro/src/regex_parts.rs |  4 ++--
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 364668d..5577c70 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -113,7 +113,7 @@ impl ValueConversion {
                 quote::quote_spanned! {span=> {
                     let f: fn(#from) -> ::std::option::Option<#to> = #closure;
                     f(#value).ok_or(::sscanf::errors::FilterMapNoneError {
-                        field_name: stringify!(#field_name)
+                        field_name: ::std::stringify!(#field_name)
                     })?
                 }}
             }
@@ -361,7 +361,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
-            const NUM_CAPTURES: usize = #num_captures;
+            const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
                 let start_len = src.len();
                 src.next().unwrap(); // skip the whole match
@@ -370,17 +370,17 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     ::std::result::Result::Ok(#name #from_matches)
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
                 let n = start_len - src.len();
                 if n != Self::NUM_CAPTURES {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
@@ -503,7 +503,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
 
-            const NUM_CAPTURES: usize = #(#num_captures_list)+*;
+            const NUM_CAPTURES: ::std::primitive::usize = #(#num_captures_list)+*;
 
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
                 let start_len = src.len();
@@ -514,10 +514,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     #(#variant_constructors)*
 
-                    unreachable!("sscanf: enum regex matched but no variant was captured");
+                    ::std::unreachable!("sscanf: enum regex matched but no variant was captured");
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
 
@@ -527,12 +527,12 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
                 let n = start_len - src.len();
                 if n != Self::NUM_CAPTURES {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index e719199..42420f7 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -168,9 +168,10 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         quote! { ::std::primitive::str::get(#param, ..).unwrap() }
     };
     let ret = quote! {{
-        #regex
         #[allow(clippy::needless_borrow)]
-        let input: &str = #src_str;
+        let input: &::std::primitive::str = #src_str;
+        { // the input expression should not be able to see the REGEX item
+        #regex
         #[allow(clippy::needless_question_mark)]
         REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
@@ -185,12 +186,13 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 let res = matcher().map_err(|e| ::sscanf::errors::Error::ParsingFailed(e));
 
                 if res.is_ok() && src.len() != 0 {
-                    panic!("sscanf: {} captures generated, but {} were taken",
+                    ::std::panic!("sscanf: {} captures generated, but {} were taken",
                         REGEX.captures_len(), REGEX.captures_len() - src.len()
                     );
                 }
                 res
             })
+        }
     }};
     ret.into()
 }
@@ -274,7 +276,7 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
 
             if regex.captures_len() != NUM_CAPTURES {
-                panic!(
+                ::std::panic!(
                     "sscanf: Regex has {} capture groups, but {} were expected.{}",
                     regex.captures_len(), NUM_CAPTURES, ::sscanf::errors::WRONG_CAPTURES_HINT
                 );
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index fa53388..455ee35 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -136,9 +136,9 @@ impl ToTokens for Matcher {
                     let n = start_len - src.len();
                     let expected = #num_captures;
                     if n != expected {
-                        panic!(
+                        ::std::panic!(
                             "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                            stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                            ::std::stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                         );
                     }
                 }
-- 
2.43.0


From e26868de3a676689ada1880dbdbdc89ba7f1c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 07/20] fix: autogen included the r# of raw variant identifiers

The CaseInsensitive regex of such a variant was even invalid.
---
 sscanf_macro/src/derive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5577c70..85f1bdd 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,5 +1,7 @@
 use std::collections::{BTreeSet, HashMap};
 
+use syn::ext::IdentExt;
+
 use crate::*;
 
 pub struct Field {
@@ -432,7 +434,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From 606beca005955e0be9996623d6f7f5ca9643907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 08/20] fix: escape sequences in non-raw format strings were
 not decoded

The format "a\nb" matched a backslash followed by an n instead of a line
break, "\"{str}\"" could never match a quote, and "\u{41}" was an error.
---
 sscanf_macro/src/format_string.rs | 46 ++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..9a7b1da 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -14,7 +14,14 @@ impl<'a> FormatString<'a> {
         // keep the iterator as a variable to allow peeking and advancing in a sub-function
         let mut iter = src.text().char_indices().peekable();
 
-        while let Some((i, c)) = iter.next() {
+        while let Some((i, mut c)) = iter.next() {
+            if c == '\\' && !src.is_raw() {
+                c = match unescape(&mut iter) {
+                    Some(c) => c,
+                    None => continue,
+                };
+            }
+
             if c == '{' {
                 if iter.next_if(|(_, c)| *c == '{').is_some() {
                     // escaped '{{', will be handled like a regular char by the following code
@@ -48,3 +55,40 @@ impl<'a> FormatString<'a> {
         })
     }
 }
+
+/// Decodes an escape sequence of a non-raw string literal, starting after the backslash.
+///
+/// Returns `None` for a line continuation, which does not stand for any character.
+/// The compiler already ensured that the escape sequence is valid.
+fn unescape<I: Iterator<Item = (usize, char)>>(input: &mut std::iter::Peekable<I>) -> Option<char> {
+    let (_, c) = input.next()?;
+    match c {
+        'n' => Some('\n'),
+        'r' => Some('\r'),
+        't' => Some('\t'),
+        '0' => Some('\0'),
+        'x' | 'u' => {
+            let mut value = 0;
+            let mut num_digits = 0;
+            let is_byte_escape = c == 'x'; // exactly two digits, otherwise digits in {}
+            for (_, c) in input {
+                if let Some(digit) = c.to_digit(16) {
+                    value = value * 16 + digit;
+                    num_digits += 1;
+                }
+                if c == '}' || (num_digits == 2 && is_byte_escape) {
+                    break;
+                }
+            }
+            std::char::from_u32(value)
+        }
+        '\n' => {
+            while input
+                .next_if(|(_, c)| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                .is_some()
+            {}
+            None
+        }
+        c => Some(c), // escaped quote or backslash
+    }
+}
-- 
2.43.0


From fa715c52b59a6c3757340c8c589c9cdce47f4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 09/20] fix: quotes, \0 and line continuations in custom
 regexes of non-raw strings

`{str:/\"a\"/}` was rejected, because \" is not an escape sequence of the regex
syntax, and a line continuation became an escaped line break.
---
 sscanf_macro/src/format_option.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ee8a8e3..73545c3 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -81,8 +81,19 @@ impl<'a> FormatOption<'a> {
                                 if escape.take().is_some() {
                                     regex.push('\\');
                                 }
-                                regex.push('\\');
-                                regex.push(next);
+                                match next {
+                                    '"' | '\'' => regex.push(next), // not an escape sequence in a regex
+                                    '0' => regex.push_str("\\x00"),
+                                    '\n' => {
+                                        // line continuation, ignores the following whitespace
+                                        let ignored = |c| matches!(c, ' ' | '\t' | '\n' | '\r');
+                                        while input.next_if(|(_, c)| ignored(*c)).is_some() {}
+                                    }
+                                    _ => {
+                                        regex.push('\\');
+                                        regex.push(next);
+                                    }
+                                }
                                 continue;
                             }
                         }
-- 
2.43.0


From 74a6c81d389d65b99e160be1a326c85ec0ac7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 10/20] fix: comment at the end of a (?x) custom regex
 swallowed the closing bracket

The call compiled, and panicked at runtime with an unclosed group.
---
 sscanf_macro/src/format_option.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index 73545c3..b5de01a 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -143,6 +143,11 @@ Either make them non-capturing by adding '?:' after the '(' or remove/escape the
                     }
                 }
 
+                if regex_syntax::Parser::new().parse(&format!("({})", regex)).is_err() {
+                    // a comment at the end of a `(?x)` regex would include the closing bracket
+                    regex.push('\n');
+                }
+
                 let kind = FormatOptionKind::Regex(regex);
                 Ok((Self { src, kind }, close_bracket_index))
             }
-- 
2.43.0


From 81da6d8015fdb66481d64d15d44587c666f70e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 11/20] fix: suffix of a string literal was taken as part of
 the format

"{u8}"abc was accepted, with the format {u8}"ab.
---
 sscanf_macro/src/str_lit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..9089106 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -157,7 +157,12 @@ impl<'a> StrLitSlice<'a> {
 
 impl Parse for StrLit {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        input.parse().map(Self::new)
+        let lit = input.parse::<syn::LitStr>()?;
+        if !lit.suffix().is_empty() {
+            let msg = "string literals with a suffix are not supported";
+            return Err(syn::Error::new_spanned(lit, msg));
+        }
+        Ok(Self::new(lit))
     }
 }
 
-- 
2.43.0


From 6948a5f33ba6ad18fec52c4faf7a895566242416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 12/20] fix: derive failed for an enum with a variant named Err

---
 sscanf_macro/src/derive.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 85f1bdd..c9185e9 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -364,7 +364,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
-            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
                 let start_len = src.len();
                 src.next().unwrap(); // skip the whole match
 
@@ -376,10 +376,10 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     error,
                 })?;
                 let n = start_len - src.len();
-                if n != Self::NUM_CAPTURES {
+                if n != <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES {
                     ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
@@ -507,9 +507,9 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
             const NUM_CAPTURES: ::std::primitive::usize = #(#num_captures_list)+*;
 
-            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
                 let start_len = src.len();
-                let mut remaining = Self::NUM_CAPTURES;
+                let mut remaining = <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES;
                 src.next().unwrap(); // skip the whole match
                 remaining -= 1;
 
@@ -528,10 +528,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 }
 
                 let n = start_len - src.len();
-                if n != Self::NUM_CAPTURES {
+                if n != <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES {
                     ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
-- 
2.43.0


From 62a71d24c70b965511864c5da77d2713dd308f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 13/20] fix: a value given to the skip attribute was silently
 ignored

---
 sscanf_macro/src/attribute/variant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute/variant.rs b/sscanf_macro/src/attribute/variant.rs
index 50aa6ff..6540385 100644
--- a/sscanf_macro/src/attribute/variant.rs
+++ b/sscanf_macro/src/attribute/variant.rs
@@ -10,7 +10,13 @@ pub enum VariantAttributeKind {
 impl FromAttribute<attr::Variant> for VariantAttributeKind {
     fn from_attribute(attr: Attribute<attr::Variant>, _: ()) -> Result<Self> {
         let struct_kind = match attr.kind {
-            attr::Variant::Skip => return Ok(Self::Skip),
+            attr::Variant::Skip => {
+                if let Some(value) = attr.value.as_ref() {
+                    let msg = format!("attribute `{}` does not take a value", attr.kind);
+                    return Error::err_spanned(value, msg);
+                }
+                return Ok(Self::Skip);
+            }
             attr::Variant::Format => attr::Struct::Format,
             attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped,
             attr::Variant::Transparent => attr::Struct::Transparent,
-- 
2.43.0


From 740dc8fc86d50b2d7f5f2b01f6bc217dea260be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 14/20] fix: generic types were rejected in from = <type> and
 try_from = <type>

---
 sscanf_macro/src/attribute.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..5c2463d 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -222,7 +222,7 @@ impl<A: Attr> Attribute<A> {
         }
         let attr = input.parse::<syn::Ident>()?;
         src.extend(quote! { #attr });
-        let kind = find_match(&attr.to_string(), &src)?;
+        let kind = find_match::<A>(&attr.to_string(), &src)?;
 
         let mut value = None;
         let peek = input.lookahead1();
@@ -236,7 +236,14 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            let expr = if kind.as_str() == attr::All::From.as_str()
+                || kind.as_str() == attr::All::TryFrom.as_str()
+            {
+                // a generic type like `Foo<T>` is not a valid expression
+                syn::Expr::Verbatim(input.parse::<Type>()?.into_token_stream())
+            } else {
+                input.parse::<syn::Expr>()?
+            };
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
-- 
2.43.0


From 78fdce80dfa30676825f421cb73fa3bfc93525dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 15/20] fix: do not put the span of a type or input on local
 variables and user tokens

---
 sscanf_macro/src/regex_parts.rs |  2 +-
 sscanf_macro/src/utils.rs       | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 455ee35..2bbe205 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -378,7 +378,7 @@ fn regex_from_radix(
 
     Ok((
         RegexPart::Custom(regex),
-        Converter::Custom(converter.with_span(span)),
+        Converter::Custom(converter.with_outer_span(span)),
     ))
 }
 
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index d066afb..48d5e8a 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -35,10 +35,10 @@ impl FullSpan {
         ret
     }
     pub fn apply_start(self, a: TokenStream) -> TokenStream {
-        a.with_span(self.0)
+        a.with_outer_span(self.0)
     }
     pub fn apply_end(self, b: TokenStream) -> TokenStream {
-        b.with_span(self.1)
+        b.with_outer_span(self.1)
     }
 }
 
@@ -79,6 +79,10 @@ pub fn list_items<T>(items: &[T], mut display: impl FnMut(&T) -> String) -> Stri
 pub trait TokenStreamExt {
     fn set_span(&mut self, span: Span);
     fn with_span(self, span: Span) -> Self;
+    /// Like `with_span`, but leaves the content of groups alone. Spans also determine what an
+    /// identifier refers to, so a span that might come from a `macro_rules` fragment must not be
+    /// put on tokens of the user or on the names of local variables.
+    fn with_outer_span(self, span: Span) -> Self;
 }
 impl TokenStreamExt for TokenStream {
     fn set_span(&mut self, span: Span) {
@@ -96,4 +100,12 @@ impl TokenStreamExt for TokenStream {
             })
             .collect()
     }
+    fn with_outer_span(self, span: Span) -> Self {
+        self.into_iter()
+            .map(|mut t| {
+                t.set_span(span);
+                t
+            })
+            .collect()
+    }
 }
-- 
2.43.0


From 0f8e14c1c255938cfb2a7413c1c1c42403c1bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 16/20] fix: recognise str and Cow<str> fields whose type comes
 from a macro_rules fragment

---
 sscanf_macro/src/ty.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 42b9180..01f40f7 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -110,6 +110,14 @@ impl quote::ToTokens for Type<'_> {
 pub mod ty_check {
     use super::*;
 
+    /// Types from a `macro_rules` fragment are wrapped in invisible groups
+    fn ungroup(ty: &syn::Type) -> &syn::Type {
+        match ty {
+            syn::Type::Group(group) => ungroup(&group.elem),
+            ty => ty,
+        }
+    }
+
     fn is_segment(segment: &syn::PathSegment, name: &str) -> bool {
         segment.ident == name && matches!(segment.arguments, syn::PathArguments::None)
     }
@@ -127,7 +135,7 @@ pub mod ty_check {
         possible.iter().any(|p| p.to_string() == ty)
     }
     pub fn get_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
+        match ungroup(ty) {
             syn::Type::Path(ref ty) => {
                 if is_str_path(ty) {
                     Some(None)
@@ -137,7 +145,7 @@ pub mod ty_check {
             }
             syn::Type::Reference(ref ty) => {
                 if ty.mutability.is_none()
-                    && matches!(*ty.elem, syn::Type::Path(ref inner) if is_str_path(inner))
+                    && matches!(ungroup(&ty.elem), syn::Type::Path(ref inner) if is_str_path(inner))
                 {
                     Some(ty.lifetime.clone())
                 } else {
@@ -173,7 +181,7 @@ pub mod ty_check {
             } else {
                 None
             };
-            if !matches!(ty, syn::GenericArgument::Type(syn::Type::Path(ref inner)) if is_str_path(inner))
+            if !matches!(ty, syn::GenericArgument::Type(ty) if matches!(ungroup(ty), syn::Type::Path(ref inner) if is_str_path(inner)))
             {
                 return None;
             }
@@ -207,7 +215,7 @@ pub mod ty_check {
         }
     }
     pub fn get_cow_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
+        match ungroup(ty) {
             syn::Type::Path(ref ty) => get_cow_str_path(ty),
             _ => None,
         }
-- 
2.43.0


From 0619d6abdab87c7574f9268abaf566ad6e5c73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 17/20] fix: accept map closures that come from a macro_rules
 fragment

---
 sscanf_macro/src/attribute/field.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute/field.rs b/sscanf_macro/src/attribute/field.rs
index db1ce7d..1582ba5 100644
--- a/sscanf_macro/src/attribute/field.rs
+++ b/sscanf_macro/src/attribute/field.rs
@@ -32,7 +32,10 @@ impl FromAttribute<attr::Field, &'_ syn::Type> for FieldAttributeKind {
                 }
                 closure_hint.push('`');
 
-                let mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                let mut mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                while let syn::Expr::Group(group) = mapper {
+                    mapper = *group.expr; // an expression from a `macro_rules` fragment
+                }
                 let mapper = if let syn::Expr::Closure(closure) = mapper {
                     closure
                 } else {
-- 
2.43.0


From 5d7e365cca9e0d9c4da73767615b70abcfa3d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 18/20] fix: local variables of the generated code no longer
 capture names used in default, map and filter_map

---
 sscanf_macro/src/derive.rs      |  6 +++---
 sscanf_macro/src/lib.rs         |  2 +-
 sscanf_macro/src/regex_parts.rs | 10 +++++-----
 sscanf_macro/src/utils.rs       |  8 ++++++++
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index c9185e9..7f5b1b0 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -359,7 +359,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
     let num_captures = regex_parts.num_captures();
-    let from_sscanf_impl = quote! {
+    let from_sscanf_impl = quote_hygienic! {
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
@@ -461,7 +461,7 @@ Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields
 
         str_lifetimes.extend(variant_str_lifetimes);
 
-        let matcher = quote! {
+        let matcher = quote_hygienic! {
             let expected = #num_captures;
 
             remaining -= expected;
@@ -500,7 +500,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
     let (lifetime, lt_generics) = merge_lifetimes(str_lifetimes, generics);
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
-    let from_sscanf_impl = quote! {
+    let from_sscanf_impl = quote_hygienic! {
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 42420f7..4027237 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -167,7 +167,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         // gets an appropriate error message if they try to use a non-string input
         quote! { ::std::primitive::str::get(#param, ..).unwrap() }
     };
-    let ret = quote! {{
+    let ret = quote_hygienic! {{
         #[allow(clippy::needless_borrow)]
         let input: &::std::primitive::str = #src_str;
         { // the input expression should not be able to see the REGEX item
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 2bbe205..2f6c26e 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -82,13 +82,13 @@ pub enum Converter {
 impl ToTokens for Converter {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match self {
-            Converter::Str => tokens.extend(quote! {
+            Converter::Str => tokens.extend(quote_hygienic! {
                 src.next()
                    .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                    .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                    .as_str()
             }),
-            Converter::CowStr => tokens.extend(quote! {
+            Converter::CowStr => tokens.extend(quote_hygienic! {
                 ::std::borrow::Cow::Borrowed(
                     src.next()
                         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
@@ -99,7 +99,7 @@ impl ToTokens for Converter {
             Converter::FromType(ty, span) => {
                 let call = span.apply(
                     quote! { ::sscanf::FromScanf },
-                    quote! { ::from_matches(&mut *src) },
+                    quote_hygienic! { ::from_matches(&mut *src) },
                 );
                 tokens.extend(quote! {
                     {
@@ -124,7 +124,7 @@ impl ToTokens for Matcher {
         let ty = &self.ty;
         let num_captures = &self.num_captures;
         let converter = &self.converter;
-        tokens.extend(quote! {
+        tokens.extend(quote_hygienic! {
             {
                 #[cfg(debug_assertions)]
                 let start_len = src.len();
@@ -304,7 +304,7 @@ fn regex_from_radix(
     let ty = ty.inner();
     let span = ty.span();
 
-    let get_input = quote! { src.next()
+    let get_input = quote_hygienic! { src.next()
         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
         .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
         .as_str()
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index 48d5e8a..0d67e93 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -75,6 +75,14 @@ pub fn list_items<T>(items: &[T], mut display: impl FnMut(&T) -> String) -> Stri
     }
 }
 
+/// Like [`quote!`], but local variables can neither be seen by nor clash with the code of the user.
+macro_rules! quote_hygienic {
+    ($($tokens: tt)*) => {
+        quote::quote_spanned! { proc_macro2::Span::mixed_site()=> $($tokens)* }
+    };
+}
+pub(crate) use quote_hygienic;
+
 /// Extension trait for [`TokenStream`] that allows setting the span of all tokens in the stream.
 pub trait TokenStreamExt {
     fn set_span(&mut self, span: Span);
-- 
2.43.0


From c632bcad413751aabc75dda83633553577d2d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 19/20] fix: report every error of sscanf! in expression
 position, not just the first one

---
 sscanf_macro/src/error.rs | 6 ++++++
 sscanf_macro/src/lib.rs   | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/error.rs b/sscanf_macro/src/error.rs
index 1a78cc1..7c450b4 100644
--- a/sscanf_macro/src/error.rs
+++ b/sscanf_macro/src/error.rs
@@ -21,6 +21,12 @@ impl Error {
     pub fn builder() -> ErrorBuilder {
         ErrorBuilder::new()
     }
+
+    /// Wraps the errors in a block, because an expression can't consist of multiple macro calls
+    pub fn into_expr(self) -> TokenStream {
+        let errors = self.0;
+        quote::quote! { { #errors } }
+    }
 }
 
 pub struct ErrorBuilder(TokenStream);
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 4027237..3587c4e 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -123,7 +123,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     let input = syn::parse_macro_input!(input as ScanfInner);
     let (regex, _) = match generate_regex(&input, true) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return e.into_expr().into(),
     };
     let ret = quote! {{
         #regex
@@ -156,7 +156,7 @@ pub fn derive_from_sscanf(input: TokenStream1) -> TokenStream1 {
 fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let (regex, matcher) = match generate_regex(&input.inner, escape_input) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return e.into_expr().into(),
     };
     let src_str = {
         let src_str = input.src_str;
-- 
2.43.0


From 749ffdb482ab40a7e39c76efa237bf78d1c2a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 20/20] fix: call the captures iterator through its trait

The generated code called `src.next()`, `src.len()` and `src.nth(..)`, which only
resolve where `Iterator` and `ExactSizeIterator` are in scope: `sscanf!` and the
derive failed to compile in a `#[no_implicit_prelude]` module.
---
 sscanf_macro/src/derive.rs      | 18 +++++++++---------
 sscanf_macro/src/lib.rs         |  6 +++---
 sscanf_macro/src/regex_parts.rs | 10 +++++-----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 7f5b1b0..0b15a8c 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -365,8 +365,8 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
-                let start_len = src.len();
-                src.next().unwrap(); // skip the whole match
+                let start_len = ::std::iter::ExactSizeIterator::len(src);
+                ::std::iter::Iterator::next(src).unwrap(); // skip the whole match
 
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     ::std::result::Result::Ok(#name #from_matches)
@@ -375,7 +375,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     type_name: ::std::stringify!(#name),
                     error,
                 })?;
-                let n = start_len - src.len();
+                let n = start_len - ::std::iter::ExactSizeIterator::len(src);
                 if n != <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES {
                     ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
@@ -465,10 +465,10 @@ Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields
             let expected = #num_captures;
 
             remaining -= expected;
-            if src.next().expect(::sscanf::errors::EXPECT_NEXT_HINT).is_some() {
+            if ::std::iter::Iterator::next(src).expect(::sscanf::errors::EXPECT_NEXT_HINT).is_some() {
                 return ::std::result::Result::Ok(#name::#ident #from_matches);
             } else if expected > 1 { // one was already taken by `src.next()` above
-                src.nth(expected - 2).expect(::sscanf::errors::EXPECT_NEXT_HINT);
+                ::std::iter::Iterator::nth(src, expected - 2).expect(::sscanf::errors::EXPECT_NEXT_HINT);
             }
         };
         variant_constructors.push(matcher);
@@ -508,9 +508,9 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
             const NUM_CAPTURES: ::std::primitive::usize = #(#num_captures_list)+*;
 
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
-                let start_len = src.len();
+                let start_len = ::std::iter::ExactSizeIterator::len(src);
                 let mut remaining = <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES;
-                src.next().unwrap(); // skip the whole match
+                ::std::iter::Iterator::next(src).unwrap(); // skip the whole match
                 remaining -= 1;
 
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
@@ -524,10 +524,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 })?;
 
                 if remaining > 0 {
-                    src.nth(remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
+                    ::std::iter::Iterator::nth(src, remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
                 }
 
-                let n = start_len - src.len();
+                let n = start_len - ::std::iter::ExactSizeIterator::len(src);
                 if n != <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES {
                     ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 3587c4e..8199e08 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -178,16 +178,16 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
             .and_then(|cap| {
                 let mut src = cap.iter();
                 let src = &mut src;
-                src.next().unwrap(); // skip the whole match
+                ::std::iter::Iterator::next(src).unwrap(); // skip the whole match
 
                 let mut matcher = || -> ::std::result::Result<_, ::std::boxed::Box<dyn ::std::error::Error>> {
                     ::std::result::Result::Ok( ( #(#matcher),* ) )
                 };
                 let res = matcher().map_err(|e| ::sscanf::errors::Error::ParsingFailed(e));
 
-                if res.is_ok() && src.len() != 0 {
+                if res.is_ok() && ::std::iter::ExactSizeIterator::len(src) != 0 {
                     ::std::panic!("sscanf: {} captures generated, but {} were taken",
-                        REGEX.captures_len(), REGEX.captures_len() - src.len()
+                        REGEX.captures_len(), REGEX.captures_len() - ::std::iter::ExactSizeIterator::len(src)
                     );
                 }
                 res
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 2f6c26e..5698d52 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -83,14 +83,14 @@ impl ToTokens for Converter {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match self {
             Converter::Str => tokens.extend(quote_hygienic! {
-                src.next()
+                ::std::iter::Iterator::next(src)
                    .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                    .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                    .as_str()
             }),
             Converter::CowStr => tokens.extend(quote_hygienic! {
                 ::std::borrow::Cow::Borrowed(
-                    src.next()
+                    ::std::iter::Iterator::next(src)
                         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                         .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                         .as_str()
@@ -127,13 +127,13 @@ impl ToTokens for Matcher {
         tokens.extend(quote_hygienic! {
             {
                 #[cfg(debug_assertions)]
-                let start_len = src.len();
+                let start_len = ::std::iter::ExactSizeIterator::len(src);
 
                 let value = #converter;
 
                 #[cfg(debug_assertions)]
                 {
-                    let n = start_len - src.len();
+                    let n = start_len - ::std::iter::ExactSizeIterator::len(src);
                     let expected = #num_captures;
                     if n != expected {
                         ::std::panic!(
@@ -304,7 +304,7 @@ fn regex_from_radix(
     let ty = ty.inner();
     let span = ty.span();
 
-    let get_input = quote_hygienic! { src.next()
+    let get_input = quote_hygienic! { ::std::iter::Iterator::next(src)
         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
         .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
         .as_str()
-- 
2.43.0

