From 6b071ec0b5db179aff05d092066c0bc3675a2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 01/48] fix: keep the leading slash when setting path segments

Joining the segments without the leading slash dropped an empty first segment and made documented no-ops on the path / an error.
---
 src/types/url_part.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 8ca41af..6b962cd 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -1134,9 +1134,9 @@ impl UrlPart {
 
             (Self::Path, Some(to)) => url.set_path(to),
             (Self::Path, None    ) => Err(UrlPartSetError::PathCannotBeNone)?,
-            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/")).filter(|x| !x.is_empty()))?,
+            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/"))))?,
+            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/"))))?,
+            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/"))))?,
             (Self::NextPathSegment     , _) => if let Some(to) = to {url.path_segments_mut()?.pop_if_empty().push(to);},
 
 
-- 
2.43.0


From 2b5fe70eeded8f4bb7547c31dba488e958df82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 02/48] fix: recompute the host details and serialization after
 setting the host

Removing a host left the details of the old one behind, and panicked in debug builds for a URL without a path.
On schemes that are not special the details of a set domain could differ from those of the resulting host.
---
 src/types/better_url.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..e1e7e27 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -5,7 +5,7 @@ use std::str::{FromStr, Split};
 use std::ops::Deref;
 
 use serde::{Serialize, Deserialize};
-use url::{Url, UrlQuery, PathSegmentsMut, ParseError};
+use url::{Url, UrlQuery, PathSegmentsMut, ParseError, Position};
 use form_urlencoded::Serializer;
 use thiserror::Error;
 
@@ -159,6 +159,20 @@ pub enum SetDomainHostError {
 #[error("The URL does not have path segments.")]
 pub struct UrlDoesNotHavePathSegments;
 
+/// Parses the serialization a [`Url`] without an authority should have.
+///
+/// [`Url`]'s setters neither add nor remove the `/.` that keeps a path starting with `//` from being read as a host.
+/// # Errors
+/// If the call to [`Url::parse`] returns an error, that error is returned.
+fn reparse_without_authority(url: &Url) -> Result<Url, ParseError> {
+    let prefix = match url.path() {
+        "" => "/",
+        path if path.starts_with("//") => "/.",
+        _ => ""
+    };
+    Url::parse(&format!("{}:{prefix}{}", url.scheme(), &url[Position::BeforePath..]))
+}
+
 impl BetterUrl {
     /// Parse a URL.
     /// # Errors
@@ -350,11 +364,25 @@ impl BetterUrl {
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_host`] returns an error, the error is returned..
-    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {self.url.set_host(host)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}
+    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {
+        let mut url = self.url.clone();
+        let remove_authority = host.is_none() && url.has_host() && url.scheme() != "file";
+        // [`Url::set_host`] can only remove the host of a URL with a path.
+        if remove_authority && url.path().is_empty() {url.set_path("/");}
+        url.set_host(host)?;
+        // [`Url::set_host`] keeps the kind of a removed host.
+        *self = if remove_authority {reparse_without_authority(&url)?} else {Url::parse(url.as_str())?}.into();
+        Ok(())
+    }
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_ip_host`] returns an error, returns the error [`SetIpHostError`].
-    pub fn set_ip_host      (&mut self, address : IpAddr      ) -> Result<(), SetIpHostError>   {self.url.set_ip_host(address).map_err(|()| SetIpHostError)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}
+    pub fn set_ip_host      (&mut self, address : IpAddr      ) -> Result<(), SetIpHostError>   {
+        let mut url = self.url.clone();
+        url.set_ip_host(address).map_err(|()| SetIpHostError)?;
+        *self = Url::parse(url.as_str()).map_err(|_| SetIpHostError)?.into();
+        Ok(())
+    }
     /// Sets the [`UrlPart::Port`].
     /// # Errors
     /// If the call to [`Url::set_port`] returns an error, returns the error [`SetPortError`].
@@ -378,9 +406,8 @@ impl BetterUrl {
     ///
     /// If the call to [`HostDetails::from_host_str`] doesn't return a [`HostDetails::Domain`], returns the error [`SetDomainHostError::ProvidedHostIsNotADomain`].
     pub fn set_domain_host(&mut self, domain: &str) -> Result<(), SetDomainHostError> {
-        if let Ok(host_details @ HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
-            self.url.set_host(Some(domain))?;
-            self.host_details = Some(host_details);
+        if let Ok(HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
+            self.set_host(Some(domain)).map_err(|SetHostError(e)| e)?;
         } else {
             Err(SetDomainHostError::ProvidedHostIsNotADomain)?;
         }
-- 
2.43.0


From f9806d1241ff3ced8b0ab32986ad09c7b1f40580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 03/48] fix: don't let a path set on a URL without an authority
 become one

---
 src/types/better_url.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index e1e7e27..71b1c6d 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -388,7 +388,11 @@ impl BetterUrl {
     /// If the call to [`Url::set_port`] returns an error, returns the error [`SetPortError`].
     pub fn set_port         (&mut self, port    : Option<u16> ) -> Result<(), SetPortError>     {self.url.set_port(port).map_err(|()| SetPortError)}
     /// [`Url::set_path`].
-    pub fn set_path         (&mut self, path    : &str        )                                 {self.url.set_path(path)}
+    pub fn set_path         (&mut self, path    : &str        )                                 {
+        let has_authority = self.url.has_authority();
+        self.url.set_path(path);
+        if !has_authority && !self.url.cannot_be_a_base() && let Ok(url) = reparse_without_authority(&self.url) {self.url = url;}
+    }
     /// [`Url::set_query`].
     pub fn set_query        (&mut self, query   : Option<&str>)                                 {self.url.set_query(query)}
     /// [`Url::query_pairs_mut`].
-- 
2.43.0


From d2452dae1d7f7580f9d6d7b9cb346cb964e8608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 04/48] fix: return an error instead of panicking when toggling
 the FQDN period makes the host invalid

---
 src/types/better_url.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 71b1c6d..2506bf9 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when the resulting host isn't valid.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -584,6 +587,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the call to [`Self::set_host`] returns an error, that error is returned.
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -605,9 +610,9 @@ impl BetterUrl {
     pub fn set_fqdn(&mut self, to: bool) -> Result<(), SetFqdnPeriodError> {
         match (self.host_details(), to) {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host."))))?},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From 5173164e7e4223fc9f73fa14991de6f1faf76d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 05/48] fix: find the public suffix of internationalized
 domains

The host of a URL has its labels in Punycode but psl only knows their Unicode form.
---
 src/types/better_url/host_details/domain.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url/host_details/domain.rs b/src/types/better_url/host_details/domain.rs
index ee04e83..f9a096a 100644
--- a/src/types/better_url/host_details/domain.rs
+++ b/src/types/better_url/host_details/domain.rs
@@ -1,5 +1,6 @@
 //! Details of a domain host.
 
+use std::borrow::Cow;
 use std::ops::Bound;
 
 use serde::{Serialize, Deserialize};
@@ -52,9 +53,25 @@ impl DomainDetails {
     /// If you are at all possibly not workign with a domain (like an IP host), please use [`Self::from_domain_str`] instead.
     #[allow(clippy::arithmetic_side_effects, reason = "Shouldn't be possible.")]
     pub fn from_domain_str_unchecked(domain: &str) -> Self {
+        // [`psl`] only knows the Unicode form of internationalized suffixes.
+        let lookup = &*if domain.contains("xn--") {
+            Cow::Owned(domain.split('.').map(|label| match label.starts_with("xn--").then(|| url::quirks::domain_to_unicode(label)) {
+                Some(unicode) if !unicode.is_empty() => unicode,
+                _ => label.to_string()
+            }).collect::<Vec<_>>().join("."))
+        } else {
+            Cow::Borrowed(domain)
+        };
+
+        // The index in `domain` of a part of `lookup`, found by the amount of periods before it.
+        let start = |part: &str| match lookup.get(..(part.as_ptr() as usize) - (lookup.as_ptr() as usize))?.matches('.').count() {
+            0 => Some(0),
+            periods => domain.match_indices('.').nth(periods - 1).map(|(i, _)| i + 1)
+        };
+
         Self {
-            middle_start: psl::domain_str(domain).map(|notsub| (notsub.as_ptr() as usize) - (domain.as_ptr() as usize)),
-            suffix_start: psl::suffix_str(domain).map(|suffix| (suffix.as_ptr() as usize) - (domain.as_ptr() as usize)),
+            middle_start: psl::domain_str(lookup).and_then(start),
+            suffix_start: psl::suffix_str(lookup).and_then(start),
             fqdn_period : domain.strip_suffix('.').map(|x| x.len())
         }
     }
-- 
2.43.0


From 28e1b6d8cec908a3e04e7f078fc5e23ccb358e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 06/48] fix: let StringModification::Insert insert at the end
 of the string

It is documented to return InvalidIndex only when String::insert_str would
panic, which inserting at the length does not.
---
 src/types/string_modification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/string_modification.rs b/src/types/string_modification.rs
index d1d8fda..2d8b816 100644
--- a/src/types/string_modification.rs
+++ b/src/types/string_modification.rs
@@ -598,7 +598,7 @@ impl StringModification {
                 let suffix = get_str!(suffix, task_state, StringModificationError);
                 if to.ends_with  (suffix) {to.truncate(to.len()-suffix.len());};
             },
-            Self::Insert{index, value} => if to.is_char_boundary(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.insert_str(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?, get_str!(value, task_state, StringModificationError));} else {Err(StringModificationError::InvalidIndex)?;},
+            Self::Insert{index, value} => if to.is_char_boundary(neg_range_boundary(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.insert_str(neg_range_boundary(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?, get_str!(value, task_state, StringModificationError));} else {Err(StringModificationError::InvalidIndex)?;},
             Self::RemoveChar(index)    => if to.is_char_boundary(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.remove    (neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?                                                      );} else {Err(StringModificationError::InvalidIndex)?;},
             Self::KeepRange{start, end}  => *to = to.get(neg_range(*start, *end, to.len()).ok_or(StringModificationError::InvalidSlice)?).ok_or(StringModificationError::InvalidSlice)?.to_string(),
             #[cfg(feature = "regex")]
-- 
2.43.0


From 570b0fa636a6043712c80f589eb75821b84015a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 07/48] fix: give a glob written as a string the documented
 default options

---
 src/glue/glob.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glue/glob.rs b/src/glue/glob.rs
index a54c4b6..54b6f94 100644
--- a/src/glue/glob.rs
+++ b/src/glue/glob.rs
@@ -47,7 +47,11 @@ impl From<Pattern> for GlobWrapper {
     fn from(value: Pattern) -> Self {
         Self {
             pattern: value,
-            options: Default::default()
+            options: MatchOptions {
+                case_sensitive: true,
+                require_literal_separator: false,
+                require_literal_leading_dot: true
+            }
         }
     }
 }
-- 
2.43.0


From 262f825821e9c41eecbd8f35817bc4bf66aec9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 08/48] fix: return an error instead of panicking on radix 0 or
 1 in CharMatcher::IsDigitRadix

---
 src/types/char_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..1d5a2a8 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is not between 2 and 36 inclusive, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 6bf2409ec676456f50872aad7c2e0b12909b1abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 09/48] fix: decode the JavaScript escapes \f and \x8., \x9.

---
 src/glue/parse/js/string_literal_prefix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 912a8cb..cebc29d 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -103,7 +103,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
             (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
-            (StringLiteralPrefixLastState::Start           , 'g'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
+            (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
             (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
@@ -116,7 +116,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
-            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='7' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
+            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::AsciiHex1       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'u'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeU        ;},
             (StringLiteralPrefixLastState::UnicodeU        , '{'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeLeftBrace;},
-- 
2.43.0


From 33b8ca39e2dbfb8db706bdf2e83fa811f1274135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 10/48] fix: use byte indices to slice HTML attributes, so
 non-ASCII tags don't panic or shift them

---
 src/glue/parse/html/get_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..db117d8 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
-- 
2.43.0


From 979496243284a3ece1454c2f2c94b289b214155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 11/48] fix: keep track of valueless HTML attributes wherever
 they stand in the tag

---
 src/glue/parse/html/get_attribute.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index db117d8..77b625e 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -225,8 +225,8 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} else {state.ret = None;} munch(state, i, c)?;},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
+        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
         (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
         (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
         (LB::AttributeName, _                             ) => {},
@@ -235,8 +235,8 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
         (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..i] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; munch(state, i, c)?;},
+        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
+        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; state.attr_name_start = i; munch(state, i, c)?;},
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
-- 
2.43.0


From 3b804d2a002b82559cf296a3199b904bd2eecfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 12/48] fix: match HTML attribute names case-insensitively and
 treat form feed as HTML whitespace

---
 src/glue/parse/html/get_attribute.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 77b625e..b7d8dda 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -208,7 +208,7 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::TagOpen, _                    ) => Err(EK::InvalidStartOfTagName)?,
 
 
-        (LB::TagName, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName;},
+        (LB::TagName, '\t' | '\r' | '\n' | '\x0c' | ' ') => {state.last_bite = LB::BeforeAttributeName;},
         (LB::TagName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag;},
         (LB::TagName, '\0'                    ) => Err(EK::UnexpectedNullCharacter)?,
         (LB::TagName, '>'                     ) => {state.last_bite = LB::Done;},
@@ -219,27 +219,27 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::SelfClosingStartTag, _  ) => Err(EK::UnexpectedSolidusInTag)?,
 
 
-        (LB::BeforeAttributeName, '\t' | '\r' | '\n' | ' ') => {},
+        (LB::BeforeAttributeName, '\t' | '\r' | '\n' | '\x0c' | ' ') => {},
         (LB::BeforeAttributeName, '/' | '>'               ) => {state.last_bite = LB::AfterAttributeName; munch(state, i, c)?;},
         (LB::BeforeAttributeName, '='                     ) => Err(EK::UnexpextedEqualsSignBeforeAttributeName)?,
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
+        (LB::AttributeName, '\t' | '\r' | '\n' | '\x0c' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(None);} munch(state, i, c)?;},
+        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(None);} munch(state, i, c)?;},
         (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
         (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
         (LB::AttributeName, _                             ) => {},
 
 
-        (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
+        (LB::AfterAttributeName, '\t' | '\r' | '\n' | '\x0c' | ' ') => {},
         (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
         (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
         (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
+        (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | '\x0c' | ' ') => {},
         #[allow(clippy::arithmetic_side_effects, reason = "Can't happen.")]
         (LB::BeforeAttributeValue, '"'                     ) => {state.last_bite = LB::AttributeValueDoubleQuoted; state.attr_value_start = i+1;},
         #[allow(clippy::arithmetic_side_effects, reason = "Can't happen.")]
@@ -248,26 +248,26 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeValue, _                       ) => {state.last_bite = LB::AttributeValueUnquoted; state.attr_value_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeValueDoubleQuoted, '"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueDoubleQuoted, '"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueDoubleQuoted, '&' ) => {}, // Processed later.
         (LB::AttributeValueDoubleQuoted, '\0') => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueDoubleQuoted, _   ) => {},
 
 
-        (LB::AttributeValueSingleQuoted, '\'') => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueSingleQuoted, '\'') => {state.last_bite = LB::AfterAttributeValueQuoted; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueSingleQuoted, '&' ) => {}, // Processed later.
         (LB::AttributeValueSingleQuoted, '\0') => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueSingleQuoted, _   ) => {},
 
 
-        (LB::AttributeValueUnquoted, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueUnquoted, '\t' | '\r' | '\n' | '\x0c' | ' ') => {state.last_bite = LB::BeforeAttributeName; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueUnquoted, '&'                     ) => {}, // Processed later.
-        (LB::AttributeValueUnquoted, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueUnquoted, '>'                     ) => {state.last_bite = LB::Done; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueUnquoted, '\0'                    ) => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueUnquoted, _                       ) => {},
 
 
-        (LB::AfterAttributeValueQuoted, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName;},
+        (LB::AfterAttributeValueQuoted, '\t' | '\r' | '\n' | '\x0c' | ' ') => {state.last_bite = LB::BeforeAttributeName;},
         (LB::AfterAttributeValueQuoted, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag;},
         (LB::AfterAttributeValueQuoted, '>'                     ) => {state.last_bite = LB::Done;},
         (LB::AfterAttributeValueQuoted, _                       ) => Err(EK::MissingWhitespaceBetweenAttributes)?,
-- 
2.43.0


From a3894af11e46b6490f88b72a83062ec1998d7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 13/48] fix: refuse duplicate entries in params, params diffs
 and docs

---
 src/types/config/docs.rs   | 18 +++++++++---------
 src/types/config/params.rs | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/types/config/docs.rs b/src/types/config/docs.rs
index 7c3ccfb..fef7b77 100755
--- a/src/types/config/docs.rs
+++ b/src/types/config/docs.rs
@@ -21,31 +21,31 @@ pub struct ConfigDocs {
     #[serde(default, skip_serializing_if = "is_default")]
     pub description: Option<Vec<String>>,
     /// The documentation of the flags in [`Params::flags`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashMap<String, String>,
     /// The documentation of the cars in [`Params::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// The documentation of the environment variables used.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub environment_vars: HashMap<String, String>,
     /// The documentation of the sets in [`Params::sets`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, String>,
     /// The documentation of the lists in [`Params::lists`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, String>,
     /// The documentation of the maps in [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, String>,
     /// The documentation of the named partitionings in [`Params::named_partitionings`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, String>,
     /// The documentation of the stuff used in [`JobContext`]s.
@@ -61,7 +61,7 @@ pub struct ConfigDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct JobContextDocs {
     /// Documentation for the vars in [`JobContext::vars`]
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
@@ -71,7 +71,7 @@ pub struct JobContextDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct TaskContextDocs {
     /// Documentation for the vars in [`TaskContext::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..b9c9e39 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 
 use serde::{Serialize, Deserialize};
 use thiserror::Error;
-use serde_with::serde_as;
+use serde_with::{serde_as, MapPreventDuplicates, SetPreventDuplicates};
 
 use crate::types::*;
 use crate::glue::*;
@@ -19,25 +19,25 @@ pub struct Params {
     /// Flags allow enabling and disabling certain behavior.
     ///
     /// Defaults to an empty [`HashSet`].
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashSet<String>,
     /// Vars allow setting strings used for certain behaviors.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// Sets allow quickly checking if a string is in a certain genre of possible values.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, HashSet<String>>,
     /// Lists are a niche thing that lets you iterate over a set of values in a known order.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, Vec<String>>,
     /// Maps allow mapping input values to output values.
@@ -45,7 +45,7 @@ pub struct Params {
     /// Please note that [`Map`]s make this more powerful than a normal [`HashMap`], notably including a default value.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, Map<String>>,
     /// Named partitionings effectively let you check which if several sets a value is in.
@@ -53,7 +53,7 @@ pub struct Params {
     /// See [this Wikipedia article](https://en.wikipedia.org/wiki/Partition_of_a_set) for the math end of this idea.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, NamedPartitioning>,
     /// If [`true`], things that interact with the cache will read from the cache.
@@ -103,26 +103,26 @@ impl Default for Params {
 #[derive(Debug, Clone, Default, Deserialize, Serialize, PartialEq, Eq)]
 pub struct ParamsDiff {
     /// [`Params::flags`] to set.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub flags  : HashSet<String>,
     /// [`Params::flags`] to unset.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unflags: HashSet<String>,
     /// [`Params::vars`] to set.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub vars  : HashMap<String, String>,
     /// [`Params::vars`] to unset.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unvars: HashSet<String>,
     /// [`Params::sets`] to init.
     ///
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_sets: Vec<String>,
     /// [`Params::sets`] and values to insert into them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub insert_into_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] and values to remove from them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub remove_from_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_sets: Vec<String>,
@@ -131,7 +131,7 @@ pub struct ParamsDiff {
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_maps: Vec<String>,
     /// [`MapDiff`]s to apply to [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub map_diffs: HashMap<String, MapDiff<String>>,
     /// [`Params::maps`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_maps: Vec<String>,
-- 
2.43.0


From bd435e1294593448833d5800801bc6714d212956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 14/48] fix: let null, booleans and arrays be written plainly
 in JSON request bodies

---
 src/glue/json.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index 68afc9f..17614ff 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -59,7 +59,11 @@ impl From<String> for StringSourceJsonValue {
 #[allow(clippy::missing_errors_doc, reason = "Who cares?")]
 impl Serialize for StringSourceJsonValue {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        <StringSourceJsonValue>::serialize(self, serializer)
+        match self {
+            // The derived serialization of this is a string, which would be deserialized into [`Self::String`].
+            Self::Null => serializer.serialize_unit(),
+            _ => <StringSourceJsonValue>::serialize(self, serializer)
+        }
     }
 }
 
@@ -83,6 +87,20 @@ impl<'de> Deserialize<'de> for StringSourceJsonValue {
                 Self::Value::deserialize(serde::de::value::MapAccessDeserializer::new(map))
             }
 
+            fn visit_seq<S: serde::de::SeqAccess<'de>>(self, mut seq: S) -> Result<Self::Value, S::Error> {
+                let mut ret = Vec::new();
+                while let Some(x) = seq.next_element()? {ret.push(x);}
+                Ok(Self::Value::Array(ret))
+            }
+
+            fn visit_unit<E>(self) -> Result<Self::Value, E> {
+                Ok(Self::Value::Null)
+            }
+
+            fn visit_bool<E>(self, value: bool) -> Result<Self::Value, E> {
+                Ok(Self::Value::Bool(value))
+            }
+
             fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E> {
                 Ok(Value::Number(value.into()).into())
             }
-- 
2.43.0


From c7c9bbce1ada801e5258f43d76f1e83c7d9984fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 15/48] fix: apply the referer setting of HttpClientConfigDiff
 to referer, not no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From 4e7346d20c3d2d2267c01045b3b3f8e79bbff60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 16/48] fix: let repeated --insert-into-set, --insert-into-map
 and their opposites add up, and heed a lone --no-proxy

---
 src/types/config/params.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index b9c9e39..490c889 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,8 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: self.insert_into_set.into_iter().try_fold(HashMap::<_, Vec<_>>::new(), |mut ret, mut x| if !x.is_empty() {let vs = x.split_off(1); ret.entry(x.swap_remove(0)).or_default().extend(vs); Ok(ret)} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)})?,
+            remove_from_sets: self.remove_from_set.into_iter().try_fold(HashMap::<_, Vec<_>>::new(), |mut ret, mut x| if !x.is_empty() {let vs = x.split_off(1); ret.entry(x.swap_remove(0)).or_default().extend(vs); Ok(ret)} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)})?,
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +354,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +364,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
@@ -391,7 +391,7 @@ impl ParamsDiffArgParser {
         let mut feature_flag_make_params_diff = false;
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
-        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some() || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From 845c51fc92eb8638ac5900f380f1d102bf2949f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 17/48] fix: serialize the in-memory cache path as :memory:,
 which is read back as itself

---
 src/glue/caching.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..b776d0c 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -109,6 +109,7 @@ pub enum CachePath {
     ///
     /// Has the string representation of `:memory:`.
     #[default]
+    #[serde(rename = ":memory:", alias = "Memory")]
     Memory,
     /// A filesystem/network/whatever path.
     Path(String)
-- 
2.43.0


From 597658e9c222b409cc4458fb2e66817ecfc91ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 18/48] fix: serialize header values that aren't ASCII

---
 src/glue.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glue.rs b/src/glue.rs
index 67e9ba3..5dca264 100644
--- a/src/glue.rs
+++ b/src/glue.rs
@@ -37,9 +37,9 @@ pub(crate) mod serde_headervalue {
 
     /// Serializes a [`HeaderValue`].
     /// # Errors
-    /// If the call to [`HeaderValue::to_str`] returns an error, that error is returned.
+    /// If the call to [`std::str::from_utf8`] returns an error, that error is returned.
     pub fn serialize<S: Serializer>(x: &HeaderValue, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_str(x.to_str().map_err(S::Error::custom)?)
+        s.serialize_str(std::str::from_utf8(x.as_bytes()).map_err(S::Error::custom)?)
     }
 }
 
@@ -61,8 +61,8 @@ pub(crate) mod serde_headermap {
 
     /// Serializes a [`HeaderMap`].
     /// # Errors
-    /// Never returns an error.
+    /// If a call to [`std::str::from_utf8`] returns an error, that error is returned.
     pub fn serialize<S: Serializer>(x: &HeaderMap, s: S) -> Result<S::Ok, S::Error> {
-        s.collect_map(x.into_iter().map(|(k, v)| v.to_str().map(|v| (k.as_str().to_string(), v.to_string()))).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)
+        s.collect_map(x.into_iter().map(|(k, v)| std::str::from_utf8(v.as_bytes()).map(|v| (k.as_str().to_string(), v.to_string()))).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)
     }
 }
-- 
2.43.0


From 3ddcd85b2e6bcdd65e6918de942eab160004f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 19/48] fix: overwrite the cache entry when writing the same
 key again

---
 src/glue/caching.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index b776d0c..8601e4a 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -305,14 +305,17 @@ impl InnerCache {
     /// # Errors
     /// If the call to [`Self::connect`] returns an error, that error is returned.
     ///
-    /// If the call to [`RunQueryDsl::get_result`] returns an error, that error is returned.
+    /// If a call to [`RunQueryDsl::execute`] returns an error, that error is returned.
     pub fn write(&mut self, category: &str, key: &str, value: Option<&str>) -> Result<(), WriteToCacheError> {
         debug!(InnerCache::write, self, category, key, value);
-        diesel::replace_into(cache::table)
-            .values(&NewCacheEntry {category, key, value})
-            .returning(CacheEntry::as_returning())
-            .get_result(self.connect()?)?;
-        Ok(())
+        self.connect()?.immediate_transaction(|connection| {
+            diesel::delete(cache::table.filter(cache::dsl::category.eq(category)).filter(cache::dsl::key.eq(key)))
+                .execute(connection)?;
+            diesel::insert_into(cache::table)
+                .values(&NewCacheEntry {category, key, value})
+                .execute(connection)?;
+            Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 8f15443f33f9381ba9dcc4d1f400cdf3267f4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 20/48] fix: initialize cache databases whose file exists but
 has no table yet

---
 src/glue/caching.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 8601e4a..d683123 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -27,7 +27,7 @@ diesel::table! {
 }
 
 /// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -252,10 +252,6 @@ impl InnerCache {
 
     /// Returns the connection, connecting if not already connected.
     /// # Errors
-    /// If the call to [`std::fs::exists`] to check if the database exists returns an error, that error is returned.
-    ///
-    /// If the call to [`std::fs::File::create_new`] to create the database returns an error, that error is returned.
-    ///
     /// If the call to [`SqliteConnection::establish`] to connect to the database returns an error, that error is returned.
     ///
     /// If the call to [`SqlQuery::execute`] to initialize the database returns an error, that error is returned.
@@ -263,17 +259,8 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
-            if let CachePath::Path(path) = &self.path {
-                if !std::fs::exists(path)? {
-                    needs_init = true;
-                    std::fs::File::create_new(path)?;
-                }
-            }
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From 6573986f6f061eb17978154bc10756d7e4e8459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 21/48] fix: wait for other users of a cache database instead
 of failing

---
 src/glue/caching.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index d683123..7b087b2 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -8,6 +8,7 @@ use std::path::Path;
 use thiserror::Error;
 use serde::{Serialize, Deserialize};
 use diesel::prelude::*;
+use diesel::connection::SimpleConnection;
 
 use crate::types::*;
 use crate::util::*;
@@ -260,6 +261,7 @@ impl InnerCache {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
+            connection.batch_execute("PRAGMA busy_timeout = 5000")?;
             diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
-- 
2.43.0


From e4e999057f110c39fcd5e5f953039a5f7ea86bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 22/48] fix: resolve relative Location headers when expanding
 redirects

---
 src/types/rules/mappers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/rules/mappers.rs b/src/types/rules/mappers.rs
index ee496e9..04eb8bc 100644
--- a/src/types/rules/mappers.rs
+++ b/src/types/rules/mappers.rs
@@ -340,7 +340,7 @@ pub enum Mapper {
     ///
     /// If the `Location` header's call to [`std::str::from_utf8`] returns an error, that error is returned.
     ///
-    /// If the `Location` header's call to [`BetterUrl::parse`] returns an error, that error is returned.
+    /// If the `Location` header's call to [`Url::join`] (as it may be relative to the request's URL) returns an error, that error is returned.
     #[cfg_attr(feature = "cache", doc = "")]
     #[cfg_attr(feature = "cache", doc = "If the call to [`Cache::write`] returns an error, that error is returned.")]
     #[cfg(feature = "http")]
@@ -777,8 +777,8 @@ impl Mapper {
                     }
                 }
                 let response = task_state.to_view().http_client(http_client_config_diff.as_deref())?.get(task_state.url.as_str()).headers(headers.clone()).send()?;
-                let new_url = if response.status().is_redirection() {
-                    BetterUrl::parse(std::str::from_utf8(response.headers().get("location").ok_or(MapperError::LocationHeaderNotFound)?.as_bytes())?)?
+                let new_url: BetterUrl = if response.status().is_redirection() {
+                    response.url().join(std::str::from_utf8(response.headers().get("location").ok_or(MapperError::LocationHeaderNotFound)?.as_bytes())?)?.into()
                 } else {
                     response.url().clone().into()
                 };
-- 
2.43.0


From 485ee5a3c30f50f23376ef1c9fddbe4a1ac87f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 23/48] fix: write a command's STDIN while reading its STDOUT

---
 src/glue/command.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 5b48067..72b0648 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -138,7 +138,7 @@ impl CommandConfig {
     ///
     /// If the call to [`StringSource::get`] returns [`None`], returns the errorr [`CommandError::StringSourceIsNone`].
     ///
-    /// If the call to [`ChildStdin::write_all`] returns an error, that error is returned.
+    /// If the call to [`ChildStdin::write_all`] returns an error other than [`std::io::ErrorKind::BrokenPipe`], that error is returned.
     ///
     /// If the call to [`Child::wait_with_output`] returns an error, that error is returned.
     ///
@@ -149,16 +149,25 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
-        let child = if let Some(stdin) = &self.stdin {
-            command.stdin(Stdio::piped());
-            let mut child=command.spawn()?;
-            let child_stdin=child.stdin.as_mut().expect("The STDIN just set to be available."); // This never panics.
-            child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
-            child
-        } else {
-            command.spawn()?
+        // Evaluated before the command starts so an error doesn't leave it running.
+        let stdin = match &self.stdin {
+            Some(stdin) => {command.stdin(Stdio::piped()); Some(get_string!(stdin, job_state, CommandError))},
+            None => None
         };
-        Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
+        let mut child = command.spawn()?;
+        let child_stdin = child.stdin.take();
+        // STDIN has to be written while STDOUT is being read because both pipes have a limited capacity.
+        let (written, output) = std::thread::scope(|s| {
+            let writer = child_stdin.zip(stdin).map(|(mut child_stdin, stdin)| s.spawn(move || child_stdin.write_all(stdin.as_bytes())));
+            let output = child.wait_with_output();
+            (writer.map_or(Ok(()), |writer| writer.join().expect("Writing to never panic.")), output)
+        });
+        match written {
+            // A command is free to not read all of its STDIN.
+            Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => {},
+            x => x?
+        }
+        Ok(from_utf8(&output?.stdout)?.to_string())
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0


From 9b0a30764ff194f3f8671f1ba4327ce246284647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 24/48] fix: don't let commands without a configured STDIN read
 the process's

---
 src/glue/command.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 72b0648..2c3af05 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -127,7 +127,10 @@ impl CommandConfig {
     ///
     /// If the call to [`ExitStatus::code`] returns [`None`], returns the error [`CommandError::SignalTermination`].
     pub fn exit_code(&self, job_state: &TaskStateView) -> Result<i32, CommandError> {
-        self.build(job_state)?.status()?.code().ok_or(CommandError::SignalTermination)
+        let mut command = self.build(job_state)?;
+        // Inheriting STDIN would let the command read what's meant for this process.
+        command.stdin(Stdio::null());
+        command.status()?.code().ok_or(CommandError::SignalTermination)
     }
 
     /// Executes the command and returns its STDOUT.
@@ -152,7 +155,8 @@ impl CommandConfig {
         // Evaluated before the command starts so an error doesn't leave it running.
         let stdin = match &self.stdin {
             Some(stdin) => {command.stdin(Stdio::piped()); Some(get_string!(stdin, job_state, CommandError))},
-            None => None
+            // Inheriting STDIN would let the command read what's meant for this process.
+            None => {command.stdin(Stdio::null()); None}
         };
         let mut child = command.spawn()?;
         let child_stdin = child.stdin.take();
-- 
2.43.0


From dc495feac3c900cbac39822f090f24a6606b666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 25/48] fix: give commands their STDIN when only their exit
 code is wanted

---
 src/glue/command.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 2c3af05..82350c3 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -2,7 +2,7 @@
 //!
 //! No the default config does not and will never use this.
 
-use std::process::{Command, Stdio};
+use std::process::{Command, Output, Stdio};
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::{from_utf8, FromStr};
@@ -127,10 +127,7 @@ impl CommandConfig {
     ///
     /// If the call to [`ExitStatus::code`] returns [`None`], returns the error [`CommandError::SignalTermination`].
     pub fn exit_code(&self, job_state: &TaskStateView) -> Result<i32, CommandError> {
-        let mut command = self.build(job_state)?;
-        // Inheriting STDIN would let the command read what's meant for this process.
-        command.stdin(Stdio::null());
-        command.status()?.code().ok_or(CommandError::SignalTermination)
+        self.run(self.build(job_state)?, job_state)?.status.code().ok_or(CommandError::SignalTermination)
     }
 
     /// Executes the command and returns its STDOUT.
@@ -152,6 +149,11 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
+        Ok(from_utf8(&self.run(command, job_state)?.stdout)?.to_string())
+    }
+
+    /// Runs `command`, giving it [`Self::stdin`].
+    fn run(&self, mut command: Command, job_state: &TaskStateView) -> Result<Output, CommandError> {
         // Evaluated before the command starts so an error doesn't leave it running.
         let stdin = match &self.stdin {
             Some(stdin) => {command.stdin(Stdio::piped()); Some(get_string!(stdin, job_state, CommandError))},
@@ -171,7 +173,7 @@ impl CommandConfig {
             Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => {},
             x => x?
         }
-        Ok(from_utf8(&output?.stdout)?.to_string())
+        Ok(output?)
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0


From 70b59e4ea0dc6e7dfc1ddf21a577b0817eb1abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 26/48] fix: print each error on one line of STDERR

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 58a60fd..de552dc 100755
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,6 +105,11 @@ fn str_to_json_str(s: &str) -> String {
     serde_json::to_string(s).expect("Serializing a string to never fail.")
 }
 
+/// The [`Debug`](std::fmt::Debug) representations of some errors (such as [`regex::Error`]) contain newlines, but each error has to be exactly one line.
+fn debug_on_one_line<T: std::fmt::Debug>(e: &T) -> String {
+    format!("{e:?}").replace('\n', "\\n")
+}
+
 fn main() -> Result<ExitCode, CliError> {
     let some_ok  = std::sync::Mutex::new(false);
     let some_err = std::sync::Mutex::new(false);
@@ -256,12 +261,12 @@ fn main() -> Result<ExitCode, CliError> {
                             },
                             Ok(Ok(Err(e))) => {
                                 println!();
-                                eprintln!("DoTaskError\t{e:?}");
+                                eprintln!("DoTaskError\t{}", debug_on_one_line(&e));
                                 *some_err_ref_lock = true;
                             }
                             Ok(Err(e)) => {
                                 println!();
-                                eprintln!("MakeTaskError\t{e:?}");
+                                eprintln!("MakeTaskError\t{}", debug_on_one_line(&e));
                                 *some_err_ref_lock = true;
                             }
                             Err(_) => break
-- 
2.43.0


From 55ecd5235c49e1e2d49caa29a50630523e9bf2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 27/48] fix: keep the text of query parameters that aren't
 edited

---
 src/types/rules/mappers.rs | 32 ++++++++++++++++----------------
 src/types/url_part.rs      |  9 +++++----
 src/util.rs                |  7 +++++++
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/types/rules/mappers.rs b/src/types/rules/mappers.rs
index 04eb8bc..e0b6132 100644
--- a/src/types/rules/mappers.rs
+++ b/src/types/rules/mappers.rs
@@ -700,38 +700,38 @@ impl Mapper {
             // Query.
 
             Self::RemoveQuery => task_state.url.set_query(None),
-            Self::RemoveQueryParam(name) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
+            Self::RemoveQueryParam(name) => if task_state.url.query().is_some() {
                 let task_state_view = task_state.to_view();
                 let name = get_cow!(name, task_state_view, MapperError);
-                let new_query = form_urlencoded::Serializer::new(String::with_capacity(query_len)).extend_pairs(task_state.url.query_pairs().filter(|(x, _)| *x != name)).finish();
+                let new_query = raw_query_pairs(task_state.url).filter(|(x, _)| *x != name).map(|(_, raw)| raw).collect::<Vec<_>>().join("&");
                 task_state.url.set_query((!new_query.is_empty()).then_some(&new_query));
             },
-            Self::RemoveQueryParams(names) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
-                let new_query=form_urlencoded::Serializer::new(String::with_capacity(query_len)).extend_pairs(task_state.url.query_pairs().filter(|(name, _)| !names.contains(name.as_ref()))).finish();
+            Self::RemoveQueryParams(names) => if task_state.url.query().is_some() {
+                let new_query = raw_query_pairs(task_state.url).filter(|(name, _)| !names.contains(name.as_ref())).map(|(_, raw)| raw).collect::<Vec<_>>().join("&");
                 task_state.url.set_query((!new_query.is_empty()).then_some(&new_query));
             },
-            Self::AllowQueryParams(names) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
-                let new_query=form_urlencoded::Serializer::new(String::with_capacity(query_len)).extend_pairs(task_state.url.query_pairs().filter(|(name, _)|  names.contains(name.as_ref()))).finish();
+            Self::AllowQueryParams(names) => if task_state.url.query().is_some() {
+                let new_query = raw_query_pairs(task_state.url).filter(|(name, _)|  names.contains(name.as_ref())).map(|(_, raw)| raw).collect::<Vec<_>>().join("&");
                 task_state.url.set_query((!new_query.is_empty()).then_some(&new_query));
             },
-            Self::RemoveQueryParamsMatching(matcher) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
-                let mut new_query=form_urlencoded::Serializer::new(String::with_capacity(query_len));
-                for (name, value) in task_state.url.query_pairs() {
+            Self::RemoveQueryParamsMatching(matcher) => if task_state.url.query().is_some() {
+                let mut new_query = Vec::new();
+                for (name, raw) in raw_query_pairs(task_state.url) {
                     if !matcher.satisfied_by(&name, &task_state.to_view())? {
-                        new_query.append_pair(&name, &value);
+                        new_query.push(raw);
                     }
                 }
-                let x = new_query.finish();
+                let x = new_query.join("&");
                 task_state.url.set_query((!x.is_empty()).then_some(&x));
             },
-            Self::AllowQueryParamsMatching(matcher) => if let Some(query_len) = task_state.url.query().map(|x| x.len()) {
-                let mut new_query=form_urlencoded::Serializer::new(String::with_capacity(query_len));
-                for (name, value) in task_state.url.query_pairs() {
+            Self::AllowQueryParamsMatching(matcher) => if task_state.url.query().is_some() {
+                let mut new_query = Vec::new();
+                for (name, raw) in raw_query_pairs(task_state.url) {
                     if matcher.satisfied_by(&name, &task_state.to_view())? {
-                        new_query.append_pair(&name, &value);
+                        new_query.push(raw);
                     }
                 }
-                let x = new_query.finish();
+                let x = new_query.join("&");
                 task_state.url.set_query((!x.is_empty()).then_some(&x));
             },
             Self::GetUrlFromQueryParam(name) => {
diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 6b962cd..5e3d810 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -944,7 +944,8 @@ impl QueryParamSelector {
     /// assert_eq!(url.query(), None);
     /// ```
     pub fn set(&self, url: &mut BetterUrl, to: Option<&str>) -> Result<(), SetQueryParamError> {
-        let mut pairs = url.query_pairs().collect::<Vec<_>>();
+        let mut pairs = raw_query_pairs(url).map(|(name, raw)| (name, Cow::Borrowed(raw))).collect::<Vec<_>>();
+        let serialize_pair = |to: &str| form_urlencoded::Serializer::new(String::new()).append_pair(&self.name, to).finish();
 
         let mut found_matches = 0;
         let mut matched_index = None;
@@ -964,10 +965,10 @@ impl QueryParamSelector {
         // Set/remove/append the value.
         match (matched_index, to) {
             #[expect(clippy::indexing_slicing, reason = "`i` is always less than `pairs.len()`. If `pairs.len()` is `0`, `matched_index` is `None`.")]
-            (Some(i), Some(to)) => pairs[i].1 = to.into(),
+            (Some(i), Some(to)) => pairs[i].1 = serialize_pair(to).into(),
             (Some(i), None    ) => {pairs.remove(i);},
             (None   , Some(to)) => if self.index == found_matches {
-                pairs.push((self.name.clone().into(), to.into()));
+                pairs.push((self.name.clone().into(), serialize_pair(to).into()));
             } else {
                 Err(SetQueryParamError::QueryParamIndexNotFound)?
             },
@@ -978,7 +979,7 @@ impl QueryParamSelector {
         let serialized_query = if pairs.is_empty() {
             None
         } else {
-            Some(form_urlencoded::Serializer::new(String::with_capacity(url.query().unwrap_or_default().len())).extend_pairs(pairs).finish())
+            Some(pairs.into_iter().map(|(_, raw)| raw).collect::<Vec<_>>().join("&"))
         };
 
         url.set_query(serialized_query.as_deref());
diff --git a/src/util.rs b/src/util.rs
index 8709ab5..d196695 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -214,3 +214,10 @@ mod tests {
         assert_eq!(neg_range( 3, Some( 3), 2), None);
     }
 }
+
+/// The decoded name and the unchanged text of each query parameter of `url`.
+///
+/// Turning decoded query parameters back into a query would change how they're encoded, which can't be undone for values that aren't UTF-8.
+pub(crate) fn raw_query_pairs(url: &url::Url) -> impl Iterator<Item = (std::borrow::Cow<'_, str>, &str)> {
+    url.query().unwrap_or_default().split('&').filter_map(|raw| form_urlencoded::parse(raw.as_bytes()).next().map(|(name, _)| (name, raw)))
+}
-- 
2.43.0


From 864baa70ee0871f1dc58944dc19642c66b129f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 28/48] fix: shareasale and tinyurl respect the no-network flag

---
 default-config.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/default-config.json b/default-config.json
index 560e03e..c3e2fe4 100755
--- a/default-config.json
+++ b/default-config.json
@@ -636,7 +636,7 @@
 															]}
 														}}
 													}},
-													{"All": [
+													{"If": {"condition": {"Not": {"FlagIsSet": "no-network"}}, "mapper": {"All": [
 														{"SetHost": "shareasale-analytics.com"},
 														{"AllowQueryParams": ["b", "u", "m"]},
 														{"Common": "universal"},
@@ -655,11 +655,11 @@
 																"modification": "GetJsStringLiteralPrefix"
 															}}
 														}}
-													]}
+													]}}}
 												]}
 											}},
 											"shareasale.com": {"If": {
-												"condition": {"PathIs": "/r.cfm"},
+												"condition": {"All": [{"PathIs": "/r.cfm"}, {"Not": {"FlagIsSet": "no-network"}}]},
 												"mapper": {"All": [
 													{"SetHost": "shareasale-analytics.com"},
 													{"AllowQueryParams": ["b", "u", "m"]},
@@ -770,7 +770,7 @@
 											}},
 											"t.umblr.com": {"GetUrlFromQueryParam": "z"},
 											"tee.pub": {"SetHost": "www.teepublic.com"},
-											"tinyurl.com": {"All": [
+											"tinyurl.com": {"If": {"condition": {"Not": {"FlagIsSet": "no-network"}}, "mapper": {"All": [
 												{"PartMap": {
 													"part": {"PathSegment": 0},
 													"map": {
@@ -788,7 +788,7 @@
 														}
 													}
 												}}
-											]},
+											]}}},
 											"toyhou.se": {"If": {
 												"condition": {"PathIs": "/~r"},
 												"mapper": {"GetUrlFromQueryParam": "q"}
-- 
2.43.0


From 99f4c87e120c53dcbf08ca538ca5cd25d1629bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 29/48] fix: tumblr safe mode links are handled with the other
 redirects

---
 default-config.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/default-config.json b/default-config.json
index c3e2fe4..5147666 100755
--- a/default-config.json
+++ b/default-config.json
@@ -406,7 +406,7 @@
 						{"TreatErrorAsFail": {"PartMatches": {
 							"part": "RegDomain",
 							"matcher": {"Any": [
-								{"IsOneOf": ["smartadserver.com", "lnk.to"]},
+								{"IsOneOf": ["smartadserver.com", "lnk.to", "tumblr.com"]},
 								{"InSet": "redirect-reg-domains"}
 							]}
 						}}}
@@ -865,6 +865,10 @@
 												"condition": {"PathIs": "/click"},
 												"mapper": {"GetUrlFromQueryParam": "go"}
 											}},
+											"tumblr.com": {"If": {
+												"condition": {"PathIs": "/safe-mode"},
+												"mapper": {"GetUrlFromQueryParam": "url"}
+											}},
 											"visitlink.me": {"SetPart": {"part": "Subdomain", "value": null}},
 											"vk.com": {"If": {
 												"condition": {"PathIs": "/away.php"},
@@ -1376,10 +1380,6 @@
 										"RemoveQuery"
 									]}
 								},
-								{
-									"condition": {"PathIs": "/safe-mode"},
-									"mapper": {"GetUrlFromQueryParam": "url"}
-								},
 								{
 									"condition": {"Not": {"PartIs": {"part": {"PathSegment": 0}, "value": "search"}}},
 									"mapper": "RemoveQuery"
-- 
2.43.0


From d16713161acde4e8b9b02d187fe47a3ac18d3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 30/48] fix: unmobile removes every mobile segment in one go

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 5147666..57bcbf4 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1018,7 +1018,7 @@
 								}
 							}}}
 						]},
-						"rules": [
+						"rules": [{"Repeat": {"rules": [
 							{
 								"condition": {"Any": [
 									{"PartIs": {"part": {"SubdomainSegment": 0}, "value": "m"}},
@@ -1033,7 +1033,7 @@
 								]},
 								"mapper": {"SetPart": {"part": {"SubdomainSegment": 1}, "value": null}}
 							}
-						]
+						]}}]
 					}
 				},
 
-- 
2.43.0


From 85b9f0fcd851749ba8ce3ed26b33bd4a5dbf1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 31/48] fix: breezewiki flags leave links without a wiki alone

---
 default-config.json | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/default-config.json b/default-config.json
index 57bcbf4..219c5c8 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1051,10 +1051,10 @@
 								]},
 								{"Not": {"PathIs": "/"}}
 							]},
-							"mapper": {"All": [
+							"mapper": {"IgnoreError": {"RevertOnError": {"All": [
 								{"SetHost": "fandom.com"},
 								{"MovePart": {"from": {"PathSegment": 0}, "to": "Subdomain"}}
-							]}
+							]}}}
 						}},
 						"discord-external": {"If": {
 							"condition": {"FlagIsSet": "discord-unexternal"},
@@ -1236,7 +1236,10 @@
 									}
 								}},
 								{"If": {
-									"condition": {"FlagIsSet": "breezewiki"},
+									"condition": {"All": [
+										{"FlagIsSet": "breezewiki"},
+										{"Not": {"Any": [{"SubdomainIs": "www"}, {"SubdomainIs": null}]}}
+									]},
 									"mapper": {"All": [
 										{"CopyPart": {"from": "Subdomain", "to": {"BeforePathSegment": 0}}},
 										{"SetPart": {"part": "Host", "value": {"Var": "breezewiki-host"}}},
-- 
2.43.0


From 171742afc5566b081b59ac1d94c7f1bb1369feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 32/48] fix: discord-unexternal ignores paths without an
 external URL

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 219c5c8..d8e97b5 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1058,13 +1058,13 @@
 						}},
 						"discord-external": {"If": {
 							"condition": {"FlagIsSet": "discord-unexternal"},
-							"mapper": {"SetPart": {
+							"mapper": {"IgnoreError": {"SetPart": {
 								"part": "Whole",
 								"value": {"Modified": {
 									"value": {"Part": "Path"},
 									"modification": {"RegexReplace": {"regex": "/[^/]+/[^/]+/([^/]+)/([^/]+)/([^?#]+)", "replace": "$1://$2/$3"}}
 								}}
-							}}
+							}}}
 						}},
 						"disney": {"RemoveQueryParams": ["cid", "cmp", "att", "t", "DISCID", "r"]},
 						"fixvx": {"SetHost": "x.com"},
-- 
2.43.0


From 78c6ead0873c4d77ef96e7d913182ea5ba87624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 33/48] fix: youtu.be and at.tumblr.com links get the rules of
 the site they point at

---
 default-config.json | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/default-config.json b/default-config.json
index d8e97b5..720ab4d 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1165,6 +1165,31 @@
 
 
 
+				{
+					"PartMap": {
+						"part": "HostWithoutWWWDotPrefixAndFqdnPeriod",
+						"map": {
+							"at.tumblr.com": {"All": [
+								{"SetHost": "tumblr.com"},
+								{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
+								"RemoveQuery"
+							]}
+						}
+					}
+				},
+				{
+					"PartMap": {
+						"part": "RegDomain",
+						"map": {
+							"youtu.be": {"All": [
+								{"SetHost" : "youtube.com"},
+								{"CopyPart": {"from": {"PathSegment": 0}, "to": {"QueryParam": "v"}}},
+								{"SetPart" : {"part": "Path", "value": "watch"}},
+								{"RemoveQueryParams": ["si", "feature", "pp"]}
+							]}
+						}
+					}
+				},
 				{
 					"PartMap": {
 						"comment-1": "If you can't get a certain domain to work here, it may be because Mozilla's Public Suffix List, therefore the psl crate, and therefore UrlPart consideres it a suffix.",
@@ -1414,12 +1439,6 @@
 								}}
 							]},
 							"yahoo.com": {"RemoveQueryParams": ["p", "src", "pspid", "activity", ".src", "specId", "y"]},
-							"youtu.be": {"All": [
-								{"SetHost" : "youtube.com"},
-								{"CopyPart": {"from": {"PathSegment": 0}, "to": {"QueryParam": "v"}}},
-								{"SetPart" : {"part": "Path", "value": "watch"}},
-								{"RemoveQueryParams": ["si", "feature", "pp"]}
-							]},
 							"youtube.com": {"All": [
 								{"RemoveQueryParams": ["si", "feature", "pp", "app"]},
 								{"If": {
@@ -1472,11 +1491,6 @@
 								"mapper": "RemoveQuery"
 							}},
 							"apps.apple.com": {"RemoveQueryParams": ["pt", "ct", "mt"]},
-							"at.tumblr.com": {"All": [
-								{"SetHost": "tumblr.com"},
-								{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
-								"RemoveQuery"
-							]},
 							"bsky.app": {"Rules": [
 								{"SharedCondition": {
 									"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "profile"}},
-- 
2.43.0


From 3c7e81e47c59e5d735eff45db2afd868756e8da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 34/48] fix: cnn.com header image segments are all removed at
 once

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 720ab4d..6d57f9f 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1231,10 +1231,10 @@
 							"cnbc.com": {"RemoveQueryParams": ["par"]},
 							"cnn.com": {"All": [
 								{"RemoveQueryParams": ["bt_ee", "bt_ts"]},
-								{"If": {
+								{"Rule": {"Repeat": {"rules": [{
 									"condition": {"PartContains": {"part": {"PathSegment": -1}, "value": "h_", "where": "Start"}},
 									"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
-								}}
+								}]}}}
 							]},
 							"deviantart.com": {"If": {
 								"condition": {"All": [
-- 
2.43.0


From 6ab1376310910d9269264e33a3fd2bdf6f40be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 35/48] fix: tumblr-unsubdomain-blog leaves tumblr.com itself
 alone

---
 default-config.json | 1 +
 1 file changed, 1 insertion(+)

diff --git a/default-config.json b/default-config.json
index 6d57f9f..bbec3a7 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1419,6 +1419,7 @@
 								{
 									"condition": {"All": [
 										{"FlagIsSet": "tumblr-unsubdomain-blog"},
+										{"Not": {"SubdomainIs": null}},
 										{"Not": {"PartIsOneOf": {"part": "Subdomain", "values": ["at", "www"]}}}
 									]},
 									"mapper": {"All": [
-- 
2.43.0


From b8c283564fddc2495fd782c1c23254d3927492e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 36/48] fix: bsky.app profile embeds need a profile

---
 default-config.json | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index bbec3a7..995ccbf 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1494,7 +1494,11 @@
 							"apps.apple.com": {"RemoveQueryParams": ["pt", "ct", "mt"]},
 							"bsky.app": {"Rules": [
 								{"SharedCondition": {
-									"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "profile"}},
+									"condition": {"All": [
+										{"PartIs": {"part": {"PathSegment": 0}, "value": "profile"}},
+										{"Not": {"PartIs": {"part": {"PathSegment": 1}, "value": null}}},
+										{"Not": {"PartIs": {"part": {"PathSegment": 1}, "value": ""}}}
+									]},
 									"rules": [
 										{
 											"condition": {"PartContains": {"part": {"PathSegment": 1}, "where": "End", "value": ".bsky"}},
-- 
2.43.0


From 3e2118ebd4017ec4bbade4c8957916f1186e8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 37/48] fix: x.com login links without a destination are left
 alone

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 995ccbf..d51adb2 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1532,7 +1532,7 @@
 							"wlo.link": {"SetHost": "link.space"},
 							"x.com": {"Rules": [
 								{
-									"condition": {"PathIs": "/i/flow/login"},
+									"condition": {"All": [{"PathIs": "/i/flow/login"}, {"QueryHasParam": "redirect_after_login"}]},
 									"mapper": {"SetPart": {
 										"part": "Whole",
 										"value": {"Join": {"sources": ["https://x.com", {"Part": {"QueryParam": "redirect_after_login"}}]}}
-- 
2.43.0


From c3f575209782c6e1165f54d85aaff74c8891ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 38/48] fix: amazon paths are cleaned completely and keep
 numeric product ids

---
 default-config.json | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/default-config.json b/default-config.json
index d51adb2..fda8adb 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1562,6 +1562,18 @@
 						"part": "DomainMiddle",
 						"map": {
 							"amazon": {"Rules": [
+								{"Repeat": {"rules": [{
+									"condition": {"PartContains": {"part": {"PathSegment": -1}, "where": "Start", "value": "ref="}},
+									"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
+								}]}},
+								{
+									"condition": {"PartContains": {"part": "Path", "where": "Start", "value": "/gp/offer-listing/"}},
+									"mapper": {"All": [
+										{"SetPart": {"part": {"PathSegment": 0}, "value": "dp"}},
+										{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
+										{"SetPart": {"part": {"QueryParam": "aod"}, "value": "1"}}
+									]}
+								},
 								{
 									"condition": {"PartContains": {"part": "Path", "value": "/dp/"}},
 									"mapper": {"AllowQueryParams": ["aod"]}
@@ -1586,11 +1598,12 @@
 									"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "product-reviews"}},
 									"mapper": "RemoveQuery"
 								},
-								{
+								{"Repeat": {"rules": [{
 									"condition": {"Any": [
 										{"PartContains": {"part": {"PathSegment": -1}, "where": "Start", "value": "ref="}},
 										{"All": [
 											{"PartContains": {"part": "Path", "value": "/dp/"}},
+											{"Not": {"PartIs": {"part": {"PathSegment": -2}, "value": "dp"}}},
 											{"Any": [
 												{"PartContains": {"part": {"PathSegment": -1}, "where": "Anywhere", "value": "-"}},
 												{"PartMatches" : {"part": {"PathSegment": -1}, "matcher": {"OnlyTheseChars": ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "-"]}}}
@@ -1598,23 +1611,15 @@
 										]}
 									]},
 									"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
-								},
-								{
-									"condition": {"PartContains": {"part": "Path", "where": "Start", "value": "/gp/offer-listing/"}},
-									"mapper": {"All": [
-										{"SetPart": {"part": {"PathSegment": 0}, "value": "dp"}},
-										{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
-										{"SetPart": {"part": {"QueryParam": "aod"}, "value": "1"}}
-									]}
-								},
-								{
+								}]}},
+								{"Repeat": {"rules": [{
 									"condition": {"PartIs": {"part": {"PathSegment": 1}, "value": "dp"}},
 									"mapper": {"SetPart": {"part": {"PathSegment": 0}, "value": null}}
 								},
 								{
 									"condition": {"PartIs": {"part": {"PathSegment": 3}, "value": "dp"}},
 									"mapper": {"SetPart": {"part": {"PathSegment": 2}, "value": null}}
-								}
+								}]}}
 							]},
 							"bestbuy": {"Mapper": {"RemoveQueryParams": ["icmp"]}},
 							"ebay": {
-- 
2.43.0


From e05fe51d2e062e1919d0b49979e78aed5cb006b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 39/48] fix: walmart product ids survive a second cleaning

---
 default-config.json | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index fda8adb..d49f386 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1651,7 +1651,11 @@
 								"mapper": "RemoveQuery"
 							},
 							"walmart": {
-								"condition": {"PartIs": {"part": {"PathSegment": 1}, "value": "ip"}},
+								"condition": {"All": [
+									{"PartIs": {"part": {"PathSegment": 1}, "value": "ip"}},
+									{"Not": {"PartIs": {"part": {"PathSegment": 3}, "value": null}}},
+									{"PartIs": {"part": {"PathSegment": 4}, "value": null}}
+								]},
 								"mapper": {"SetPart": {"part": {"PathSegment": 2}, "value": null}}
 							}
 						}
-- 
2.43.0


From ec2ab28f10140f19d7d29453dfe695af06ba91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 40/48] fix: the bluesky-embed-host variable is used

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index d49f386..d6cf6d6 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1515,7 +1515,7 @@
 								}},
 								{
 									"condition": {"FlagIsSet": "embed-compatibility"},
-									"mapper": {"SetPart": {"part": "RegDomain", "value": "fxbsky.app"}}
+									"mapper": {"SetPart": {"part": "RegDomain", "value": {"Var": "bluesky-embed-host"}}}
 								}
 							]},
 							"danbooru.donmai.us": {"If": {
-- 
2.43.0


From 536facebcf39986476a475d0341b2b51ae7d3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 41/48] fix: open.substack.com links to something that cannot
 be a subdomain are left alone

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index d6cf6d6..0e9a416 100755
--- a/default-config.json
+++ b/default-config.json
@@ -590,11 +590,11 @@
 											"open-api.tiktok.com": {"AllowQueryParams": ["open_id"]},
 											"open.substack.com": {"If": {
 												"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "pub"}},
-												"mapper": {"All": [
+												"mapper": {"IgnoreError": {"RevertOnError": {"All": [
 													{"CopyPart": {"from": {"PathSegment": 1}, "to": "Subdomain"}},
 													{"SetPart": {"part": {"PathSegment": 0}, "value": null}},
 													{"SetPart": {"part": {"PathSegment": 0}, "value": null}}
-												]}
+												]}}}
 											}},
 											"out.reddit.com": {"GetUrlFromQueryParam": "url"},
 											"pixiv.net": {"If": {
-- 
2.43.0


From 4e732433a7850bb68929d39ef45c51e77e9a11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 42/48] fix: tumblr blog searches keep their query on
 tumblr.com/blog/search too

---
 default-config.json | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 0e9a416..29f48fe 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1409,7 +1409,13 @@
 									]}
 								},
 								{
-									"condition": {"Not": {"PartIs": {"part": {"PathSegment": 0}, "value": "search"}}},
+									"condition": {"Not": {"Any": [
+										{"PartIs": {"part": {"PathSegment": 0}, "value": "search"}},
+										{"All": [
+											{"PartIs": {"part": {"PathSegment": 1}, "value": "search"}},
+											{"Any": [{"SubdomainIs": "www"}, {"SubdomainIs": null}]}
+										]}
+									]}},
 									"mapper": "RemoveQuery"
 								},
 								{
-- 
2.43.0


From 9cbf6828de99f141f42dd995af3be4ba4c09779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 43/48] fix: instagram-unprofilecard removes every profilecard
 segment at once

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 29f48fe..0d4f303 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1320,13 +1320,13 @@
 								"condition": {"PathIs": "/submissionsviewall.php"},
 								"mapper": {"RemoveQueryParams": ["rid"]}
 							}},
-							"instagram.com": {"If": {
+							"instagram.com": {"Rule": {"Repeat": {"rules": [{
 								"condition": {"All": [
 									{"FlagIsSet": "instagram-unprofilecard"},
 									{"PartIs": {"part": {"PathSegment": 1}, "value": "profilecard"}}
 								]},
 								"mapper": {"SetPart": {"part": {"PathSegment": 1}, "value": null}}
-							}},
+							}]}}},
 							"ipetitions.com": {"If": {
 								"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "petition"}},
 								"mapper": "RemoveQuery"
-- 
2.43.0


From 2499e1cae7e82c2077bdbef4106c9417c1510363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 44/48] fix: x.com login links can only redirect within x.com

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 0d4f303..51e094f 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1538,7 +1538,7 @@
 							"wlo.link": {"SetHost": "link.space"},
 							"x.com": {"Rules": [
 								{
-									"condition": {"All": [{"PathIs": "/i/flow/login"}, {"QueryHasParam": "redirect_after_login"}]},
+									"condition": {"All": [{"PathIs": "/i/flow/login"}, {"QueryHasParam": "redirect_after_login"}, {"PartContains": {"part": {"QueryParam": "redirect_after_login"}, "value": "/", "where": "Start"}}]},
 									"mapper": {"SetPart": {
 										"part": "Whole",
 										"value": {"Join": {"sources": ["https://x.com", {"Part": {"QueryParam": "redirect_after_login"}}]}}
-- 
2.43.0


From 2389d1e458880c928ce08db39f7b29bee50b9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 45/48] fix: the suitability check looks into computed names of
 sets, maps and partitionings

---
 src/util/suitability.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/suitability.rs b/src/util/suitability.rs
index 08a95cf..dfe262a 100644
--- a/src/util/suitability.rs
+++ b/src/util/suitability.rs
@@ -31,11 +31,11 @@ always_suitable!(char, str, String, u8, u16, u32, u64, u128, usize, i8, i16, i32
 #[cfg(feature = "glob")] always_suitable!(glob::Pattern, glob::MatchOptions);
 
 /// Suitability helper function to check that a set is documented.
-pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}")}}
+pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {match name {StringSource::String(name) => assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}"), name => name.assert_suitability(config)}}
 /// Suitability helper function to check that a map is documented.
-pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}")}}
+pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {match name {StringSource::String(name) => assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}"), name => name.assert_suitability(config)}}
 /// Suitability helper function to check that a named partitioning is documented.
-pub(crate) fn named_partitioning_is_documented(name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.named_partitionings.contains_key(name), "Undocumented NamedPartitioning: {name}")}}
+pub(crate) fn named_partitioning_is_documented(name: &StringSource, config: &Config) {match name {StringSource::String(name) => assert!(config.docs.named_partitionings.contains_key(name), "Undocumented NamedPartitioning: {name}"), name => name.assert_suitability(config)}}
 
 impl<K: Suitability, V: Suitability> Suitability for HashMap<K, V> {
     fn assert_suitability(&self, config: &Config) {
-- 
2.43.0


From d322fb074e0151e4c7f03142007faec27a960767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 46/48] Revert "fix: find the public suffix of
 internationalized domains"

This reverts commit 5173164e7e4223fc9f73fa14991de6f1faf76d64.
---
 src/types/better_url/host_details/domain.rs | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/types/better_url/host_details/domain.rs b/src/types/better_url/host_details/domain.rs
index f9a096a..ee04e83 100644
--- a/src/types/better_url/host_details/domain.rs
+++ b/src/types/better_url/host_details/domain.rs
@@ -1,6 +1,5 @@
 //! Details of a domain host.
 
-use std::borrow::Cow;
 use std::ops::Bound;
 
 use serde::{Serialize, Deserialize};
@@ -53,25 +52,9 @@ impl DomainDetails {
     /// If you are at all possibly not workign with a domain (like an IP host), please use [`Self::from_domain_str`] instead.
     #[allow(clippy::arithmetic_side_effects, reason = "Shouldn't be possible.")]
     pub fn from_domain_str_unchecked(domain: &str) -> Self {
-        // [`psl`] only knows the Unicode form of internationalized suffixes.
-        let lookup = &*if domain.contains("xn--") {
-            Cow::Owned(domain.split('.').map(|label| match label.starts_with("xn--").then(|| url::quirks::domain_to_unicode(label)) {
-                Some(unicode) if !unicode.is_empty() => unicode,
-                _ => label.to_string()
-            }).collect::<Vec<_>>().join("."))
-        } else {
-            Cow::Borrowed(domain)
-        };
-
-        // The index in `domain` of a part of `lookup`, found by the amount of periods before it.
-        let start = |part: &str| match lookup.get(..(part.as_ptr() as usize) - (lookup.as_ptr() as usize))?.matches('.').count() {
-            0 => Some(0),
-            periods => domain.match_indices('.').nth(periods - 1).map(|(i, _)| i + 1)
-        };
-
         Self {
-            middle_start: psl::domain_str(lookup).and_then(start),
-            suffix_start: psl::suffix_str(lookup).and_then(start),
+            middle_start: psl::domain_str(domain).map(|notsub| (notsub.as_ptr() as usize) - (domain.as_ptr() as usize)),
+            suffix_start: psl::suffix_str(domain).map(|suffix| (suffix.as_ptr() as usize) - (domain.as_ptr() as usize)),
             fqdn_period : domain.strip_suffix('.').map(|x| x.len())
         }
     }
-- 
2.43.0


From da4a3a36c2ab6f29d2650fcfe3c34a18ace9fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 47/48] fix: the redirect rules of mfy.gg, qudsnen.co and
 subdomains of pulse.ly, carleton.ca and vk.com are reached

---
 default-config.json | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/default-config.json b/default-config.json
index 51e094f..ca8fc96 100755
--- a/default-config.json
+++ b/default-config.json
@@ -120,7 +120,7 @@
 				"wlgrn.com", "wlo.link", "wn.nr", "wp.me", "wwdc.io", "x.gd", "xbx.ly", "xhslink.com", "yrp.ca", "square.link", "rog.gg", "lnkd.in"
 			],
 			"redirect-reg-domains": [
-				"goo.gl", "o93x.net", "pusle.ly", "visitlink.me", "page.link", "onelink.me"
+				"goo.gl", "o93x.net", "pulse.ly", "visitlink.me", "page.link", "onelink.me"
 			],
 			"remove-www-subdomain-reg-domain-blacklist": ["shorturl.at", "proozy.com"],
 			"unmobile-reg-domain-blacklist": ["tumblr.com", "deviantart.com"],
@@ -394,8 +394,8 @@
 									"bugzil.la", "buymeacoff.ee", "buymeacoffee.com", "cach.me", "carleton.ca", "cash.app", "click.notification.elsevier.com",
 									"deviantart.com", "duckduckgo.com", "duckduckgo.com", "duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion",
 									"e.emailalerts.cnn.com", "facebook.com", "goodreads.com", "google.com", "gprivate.com", "href.li", "instagr.am", "instagram.com",
-									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "old.reddit.com", "open.substack.com",
-									"out.reddit.com", "pawoo.net", "pixiv.net", "preview.tinyurl.com", "proxy.notsobot.com", "rd.goodreads.com", "reddit.com", "reurl.cc",
+									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "mfy.gg", "old.reddit.com", "open.substack.com",
+									"out.reddit.com", "pawoo.net", "pixiv.net", "preview.tinyurl.com", "proxy.notsobot.com", "qudsnen.co", "rd.goodreads.com", "reddit.com", "reurl.cc",
 									"shareasale-analytics.com", "shareasale.com", "sketchfab.com", "sketchfab.com", "skfb.ly", "smarturl.it", "ss3.shipstation.com",
 									"steamcommunity.com", "subscribestar.adult", "substack.com", "t.umblr.com", "tee.pub", "teepublic.com", "tinyurl.com", "toyhou.se",
 									"twpf.jp", "urldefense.com", "vk.com", "youtube.com"
@@ -406,7 +406,7 @@
 						{"TreatErrorAsFail": {"PartMatches": {
 							"part": "RegDomain",
 							"matcher": {"Any": [
-								{"IsOneOf": ["smartadserver.com", "lnk.to", "tumblr.com"]},
+								{"IsOneOf": ["carleton.ca", "smartadserver.com", "lnk.to", "tumblr.com", "vk.com"]},
 								{"InSet": "redirect-reg-domains"}
 							]}
 						}}}
-- 
2.43.0


From 9893f4f1805c3ffdf7592903628062cba18ab2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 48/48] fix: the parameters of addons.mozilla.org are removed

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index ca8fc96..7f80773 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1197,7 +1197,6 @@
 						"part": "RegDomain",
 						"map": {
 							"acer.com": {"RemoveQueryParamsMatching": {"Contains": {"where": "Start", "value": "internal_"}}},
-							"addons.mozilla.org": {"RemoveQueryParams": ["platform", "appver"]},
 							"alibaba.com": {"RemoveQueryParams": ["spm", "selectedCarrierCode", "fsb", "tracelog", "wx_navbar_tramsparent"]},
 							"amtrak.com": {"RemoveQueryParams": ["atv", "cmp"]},
 							"atom.bio": {"RemoveQueryParams": ["menu_origin"]},
@@ -1493,6 +1492,7 @@
 					"PartMap": {
 						"part": "HostWithoutWWWDotPrefixAndFqdnPeriod",
 						"map": {
+							"addons.mozilla.org": {"RemoveQueryParams": ["platform", "appver"]},
 							"aliexpress.com": {"If": {
 								"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "item"}},
 								"mapper": "RemoveQuery"
-- 
2.43.0

