From f9571c444e24ef888d796ba2c550ed2254636232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 01/18] fix: StringModification::Insert accepts the end of the
 string

Inserting at index == len is what String::insert_str allows; it was rejected as an invalid index.
---
 src/types/string_modification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/string_modification.rs b/src/types/string_modification.rs
index d1d8fda..2d8b816 100644
--- a/src/types/string_modification.rs
+++ b/src/types/string_modification.rs
@@ -598,7 +598,7 @@ impl StringModification {
                 let suffix = get_str!(suffix, task_state, StringModificationError);
                 if to.ends_with  (suffix) {to.truncate(to.len()-suffix.len());};
             },
-            Self::Insert{index, value} => if to.is_char_boundary(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.insert_str(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?, get_str!(value, task_state, StringModificationError));} else {Err(StringModificationError::InvalidIndex)?;},
+            Self::Insert{index, value} => if to.is_char_boundary(neg_range_boundary(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.insert_str(neg_range_boundary(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?, get_str!(value, task_state, StringModificationError));} else {Err(StringModificationError::InvalidIndex)?;},
             Self::RemoveChar(index)    => if to.is_char_boundary(neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?) {to.remove    (neg_index(*index, to.len()).ok_or(StringModificationError::InvalidIndex)?                                                      );} else {Err(StringModificationError::InvalidIndex)?;},
             Self::KeepRange{start, end}  => *to = to.get(neg_range(*start, *end, to.len()).ok_or(StringModificationError::InvalidSlice)?).ok_or(StringModificationError::InvalidSlice)?.to_string(),
             #[cfg(feature = "regex")]
-- 
2.43.0


From 8f62b6eb495383d82060df9d48733cf2296e48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 02/18] fix: CharMatcher::IsDigitRadix returns an error instead
 of panicking for radix 0 and 1

---
 src/types/char_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..18f64f6 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is less than 2 or greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 22af09bf2bfc09790dd524ffdcdb94ad8d79e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 03/18] fix: BetterUrl::set_domain_host keeps the host details
 of the host it actually set

---
 src/types/better_url.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..6a1cb05 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -378,9 +378,10 @@ impl BetterUrl {
     ///
     /// If the call to [`HostDetails::from_host_str`] doesn't return a [`HostDetails::Domain`], returns the error [`SetDomainHostError::ProvidedHostIsNotADomain`].
     pub fn set_domain_host(&mut self, domain: &str) -> Result<(), SetDomainHostError> {
-        if let Ok(host_details @ HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
+        if let Ok(HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
             self.url.set_host(Some(domain))?;
-            self.host_details = Some(host_details);
+            // The host of a URL with a non-special scheme isn't normalized like `domain` was above.
+            self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
         } else {
             Err(SetDomainHostError::ProvidedHostIsNotADomain)?;
         }
-- 
2.43.0


From be7b28298f55e301adc0779959a1ec9e25f783a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 04/18] fix: BetterUrl::set_fqdn returns an error instead of
 panicking when the new host is invalid

---
 src/types/better_url.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6a1cb05..8144f17 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when the host wouldn't be valid with/without the period.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -554,6 +557,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the call to [`Self::set_host`] returns an error, that error is returned.
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -575,9 +580,9 @@ impl BetterUrl {
     pub fn set_fqdn(&mut self, to: bool) -> Result<(), SetFqdnPeriodError> {
         match (self.host_details(), to) {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host."))))?},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From bf3b1aa304d7af2ddca74ad7e8e970ca7b17d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 05/18] fix: setting a path segment keeps empty leading
 segments

---
 src/types/url_part.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 8ca41af..fda0395 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -1134,9 +1134,9 @@ impl UrlPart {
 
             (Self::Path, Some(to)) => url.set_path(to),
             (Self::Path, None    ) => Err(UrlPartSetError::PathCannotBeNone)?,
-            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/")).filter(|x| !x.is_empty()))?,
+            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?).filter(|x| !x.is_empty()).map(|x| format!("/{}", x.join("/"))).as_deref())?,
+            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?).filter(|x| !x.is_empty()).map(|x| format!("/{}", x.join("/"))).as_deref())?,
+            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?).filter(|x| !x.is_empty()).map(|x| format!("/{}", x.join("/"))).as_deref())?,
             (Self::NextPathSegment     , _) => if let Some(to) = to {url.path_segments_mut()?.pop_if_empty().push(to);},
 
 
-- 
2.43.0


From 94a76f388fcb11c262ecf9549ae9eb11c4965928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 06/18] fix: HTML attribute extraction handles non-ASCII text
 and valueless attributes

---
 src/glue/parse/html/get_attribute.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..d064006 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
@@ -196,6 +196,11 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
     Err(GAVError::UnfinishedTag)
 }
 
+/// If the most recent attribute, which doesn't have a value, is the one being searched for, set the return value accordingly.
+fn end_valueless_attribute(state: &mut GAVState) {
+    if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);}
+}
+
 /// Advance the state of the [`get_attribute_name`] DFA.
 fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKind> {
     match (state.last_bite, c) {
@@ -220,23 +225,23 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
 
 
         (LB::BeforeAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::BeforeAttributeName, '/' | '>'               ) => {state.last_bite = LB::AfterAttributeName; munch(state, i, c)?;},
+        (LB::BeforeAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag;},
+        (LB::BeforeAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
         (LB::BeforeAttributeName, '='                     ) => Err(EK::UnexpextedEqualsSignBeforeAttributeName)?,
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} else {state.ret = None;} munch(state, i, c)?;},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName; state.attr_name_end = i; munch(state, i, c)?;},
         (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
         (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
         (LB::AttributeName, _                             ) => {},
 
 
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
+        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ; end_valueless_attribute(state);},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..i] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; munch(state, i, c)?;},
+        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done                ; end_valueless_attribute(state);},
+        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; end_valueless_attribute(state); state.attr_name_start = i; munch(state, i, c)?;},
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
-- 
2.43.0


From 9a26ba5de2bb59e1ce4ae5d81ea35acd3d905e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/18] fix: JavaScript string literals decode \x8H, \x9H and
 \f

---
 src/glue/parse/js/string_literal_prefix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 912a8cb..cebc29d 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -103,7 +103,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
             (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
-            (StringLiteralPrefixLastState::Start           , 'g'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
+            (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
             (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
@@ -116,7 +116,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
-            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='7' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
+            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::AsciiHex1       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'u'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeU        ;},
             (StringLiteralPrefixLastState::UnicodeU        , '{'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeLeftBrace;},
-- 
2.43.0


From cc46f83f61e10ff98f43b147396797c8a52e4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 08/18] fix: HttpClientConfigDiff::referer sets the referer
 option instead of no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From 616a1a68d01e35589e21dc57d594dbd77f47ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 09/18] fix: --no-proxy on its own is no longer ignored

---
 src/types/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..2355e51 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -391,7 +391,7 @@ impl ParamsDiffArgParser {
         let mut feature_flag_make_params_diff = false;
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
-        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some() || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From f0b9d8c79d2ea915195ece5565c3bb220750e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 10/18] fix: repeated --insert-into-set, --remove-from-set,
 --insert-into-map and --remove-from-map for the same name all take effect

---
 src/types/config/params.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index 2355e51..bc389cf 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,26 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for mut x in self.insert_into_set {
+                    if x.is_empty() {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)?;}
+                    ret.entry(x.remove(0)).or_default().append(&mut x);
+                }
+
+                ret
+            },
+            remove_from_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for mut x in self.remove_from_set {
+                    if x.is_empty() {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)?;}
+                    ret.entry(x.remove(0)).or_default().append(&mut x);
+                }
+
+                ret
+            },
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +372,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +382,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
-- 
2.43.0


From 52b7e88a0a4d4f821477043e0f86e396ae010719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 11/18] fix: refuse duplicate keys in params, params diffs and
 docs as their attributes intend

`#[serde_with = "MapPreventDuplicates<_, _>"]` is stripped by `serde_as` and does nothing;
the attribute is `#[serde_as(as = "...")]`.
---
 src/types/config/docs.rs   | 18 +++++++++---------
 src/types/config/params.rs | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/types/config/docs.rs b/src/types/config/docs.rs
index 7c3ccfb..fef7b77 100755
--- a/src/types/config/docs.rs
+++ b/src/types/config/docs.rs
@@ -21,31 +21,31 @@ pub struct ConfigDocs {
     #[serde(default, skip_serializing_if = "is_default")]
     pub description: Option<Vec<String>>,
     /// The documentation of the flags in [`Params::flags`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashMap<String, String>,
     /// The documentation of the cars in [`Params::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// The documentation of the environment variables used.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub environment_vars: HashMap<String, String>,
     /// The documentation of the sets in [`Params::sets`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, String>,
     /// The documentation of the lists in [`Params::lists`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, String>,
     /// The documentation of the maps in [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, String>,
     /// The documentation of the named partitionings in [`Params::named_partitionings`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, String>,
     /// The documentation of the stuff used in [`JobContext`]s.
@@ -61,7 +61,7 @@ pub struct ConfigDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct JobContextDocs {
     /// Documentation for the vars in [`JobContext::vars`]
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
@@ -71,7 +71,7 @@ pub struct JobContextDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct TaskContextDocs {
     /// Documentation for the vars in [`TaskContext::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index bc389cf..4d2bbdd 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 
 use serde::{Serialize, Deserialize};
 use thiserror::Error;
-use serde_with::serde_as;
+use serde_with::{serde_as, MapPreventDuplicates, SetPreventDuplicates};
 
 use crate::types::*;
 use crate::glue::*;
@@ -19,25 +19,25 @@ pub struct Params {
     /// Flags allow enabling and disabling certain behavior.
     ///
     /// Defaults to an empty [`HashSet`].
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashSet<String>,
     /// Vars allow setting strings used for certain behaviors.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// Sets allow quickly checking if a string is in a certain genre of possible values.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, HashSet<String>>,
     /// Lists are a niche thing that lets you iterate over a set of values in a known order.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, Vec<String>>,
     /// Maps allow mapping input values to output values.
@@ -45,7 +45,7 @@ pub struct Params {
     /// Please note that [`Map`]s make this more powerful than a normal [`HashMap`], notably including a default value.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, Map<String>>,
     /// Named partitionings effectively let you check which if several sets a value is in.
@@ -53,7 +53,7 @@ pub struct Params {
     /// See [this Wikipedia article](https://en.wikipedia.org/wiki/Partition_of_a_set) for the math end of this idea.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, NamedPartitioning>,
     /// If [`true`], things that interact with the cache will read from the cache.
@@ -103,26 +103,26 @@ impl Default for Params {
 #[derive(Debug, Clone, Default, Deserialize, Serialize, PartialEq, Eq)]
 pub struct ParamsDiff {
     /// [`Params::flags`] to set.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub flags  : HashSet<String>,
     /// [`Params::flags`] to unset.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unflags: HashSet<String>,
     /// [`Params::vars`] to set.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub vars  : HashMap<String, String>,
     /// [`Params::vars`] to unset.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unvars: HashSet<String>,
     /// [`Params::sets`] to init.
     ///
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_sets: Vec<String>,
     /// [`Params::sets`] and values to insert into them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub insert_into_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] and values to remove from them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub remove_from_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_sets: Vec<String>,
@@ -131,7 +131,7 @@ pub struct ParamsDiff {
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_maps: Vec<String>,
     /// [`MapDiff`]s to apply to [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub map_diffs: HashMap<String, MapDiff<String>>,
     /// [`Params::maps`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_maps: Vec<String>,
-- 
2.43.0


From 1ac4a7ba3ee50c98dbacecf0e13a93a6a54a3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 12/18] fix: a glob written as a string gets the documented
 default options, including case sensitivity

---
 src/glue/glob.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glue/glob.rs b/src/glue/glob.rs
index a54c4b6..bba506b 100644
--- a/src/glue/glob.rs
+++ b/src/glue/glob.rs
@@ -47,7 +47,12 @@ impl From<Pattern> for GlobWrapper {
     fn from(value: Pattern) -> Self {
         Self {
             pattern: value,
-            options: Default::default()
+            // Same as the defaults of [`SerdeMatchOptions`]. [`MatchOptions::default`] is case insensitive.
+            options: MatchOptions {
+                case_sensitive: true,
+                require_literal_separator: false,
+                require_literal_leading_dot: true
+            }
         }
     }
 }
-- 
2.43.0


From bda7fd0cd0273c515655da71572bf1df1f6e5a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 13/18] fix: the in-memory cache path is written as `:memory:`
 so that it is read back as itself

---
 src/glue/caching.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..73e0506 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -109,6 +109,7 @@ pub enum CachePath {
     ///
     /// Has the string representation of `:memory:`.
     #[default]
+    #[serde(rename = ":memory:")]
     Memory,
     /// A filesystem/network/whatever path.
     Path(String)
-- 
2.43.0


From 7fa85d013cd5cc2f2f5ab248cebe8d735bcd370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 14/18] fix: JSON request bodies can contain null, booleans and
 arrays

---
 src/glue/json.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index 68afc9f..7f7a3c2 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -59,7 +59,11 @@ impl From<String> for StringSourceJsonValue {
 #[allow(clippy::missing_errors_doc, reason = "Who cares?")]
 impl Serialize for StringSourceJsonValue {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        <StringSourceJsonValue>::serialize(self, serializer)
+        match self {
+            // A unit variant would be written as the string `"Null"`, which is read as a `Self::String`.
+            Self::Null => serializer.serialize_unit(),
+            _ => <StringSourceJsonValue>::serialize(self, serializer)
+        }
     }
 }
 
@@ -83,6 +87,22 @@ impl<'de> Deserialize<'de> for StringSourceJsonValue {
                 Self::Value::deserialize(serde::de::value::MapAccessDeserializer::new(map))
             }
 
+            fn visit_unit<E>(self) -> Result<Self::Value, E> {
+                Ok(Self::Value::Null)
+            }
+
+            fn visit_bool<E>(self, value: bool) -> Result<Self::Value, E> {
+                Ok(Self::Value::Bool(value))
+            }
+
+            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+                let mut ret = Vec::new();
+                while let Some(value) = seq.next_element()? {
+                    ret.push(value);
+                }
+                Ok(Self::Value::Array(ret))
+            }
+
             fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E> {
                 Ok(Value::Number(value.into()).into())
             }
-- 
2.43.0


From 5dd5d2c39a1fbd3849c01b910ca199b7202841e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:44 +0000
Subject: [PATCH 15/18] fix: read the cache entry that was written last

The cache table has no unique key for replace_into to replace by, so writing an
already cached key adds a second row, and reads kept returning the first one.
---
 src/glue/caching.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 73e0506..0418c21 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -294,6 +294,7 @@ impl InnerCache {
         Ok(cache::dsl::cache
             .filter(cache::dsl::category.eq(category))
             .filter(cache::dsl::key.eq(key))
+            .order(cache::dsl::id.desc())
             .limit(1)
             .select(CacheEntry::as_select())
             .load(self.connect()?)?
-- 
2.43.0


From 88461dbd6c695bf3601ac59e99402f4846b2e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:55 +0000
Subject: [PATCH 16/18] fix: a cache file whose creation was interrupted can be
 used

A cache file created without its table (the process ended in between) made every
read and write fail from then on.
---
 src/glue/caching.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 0418c21..b8ccfbd 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -27,7 +27,7 @@ diesel::table! {
 }
 
 /// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -263,17 +263,13 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
             if let CachePath::Path(path) = &self.path {
                 if !std::fs::exists(path)? {
-                    needs_init = true;
                     std::fs::File::create_new(path)?;
                 }
             }
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From 0f561e69fcfe3ae4a9f5410a3eb7a4771c6e027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:55 +0000
Subject: [PATCH 17/18] fix: a cache path starting with file:// is created and
 opened as that file

The existence check and the creation took the file:// as part of the path, so
connecting to such a cache always failed.
---
 src/glue/caching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index b8ccfbd..707903e 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -263,7 +263,7 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            if let CachePath::Path(path) = &self.path {
+            if let Some(path) = self.path.as_path() {
                 if !std::fs::exists(path)? {
                     std::fs::File::create_new(path)?;
                 }
-- 
2.43.0


From 9818e97720d0f0aaf426269a2a8d6f4058fc6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 18/18] fix: a command whose input and output are both long
 ends instead of waiting forever

---
 src/glue/command.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 5b48067..a7bc465 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -149,16 +149,22 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
-        let child = if let Some(stdin) = &self.stdin {
+        let output = if let Some(stdin) = &self.stdin {
             command.stdin(Stdio::piped());
             let mut child=command.spawn()?;
-            let child_stdin=child.stdin.as_mut().expect("The STDIN just set to be available."); // This never panics.
-            child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
-            child
+            let mut child_stdin=child.stdin.take().expect("The STDIN just set to be available."); // This never panics.
+            let stdin = get_string!(stdin, job_state, CommandError);
+            // The STDIN is written while the STDOUT is read. Otherwise, when neither fits its pipe, both processes would wait for each other forever.
+            std::thread::scope(|scope| {
+                let writer = std::thread::Builder::new().spawn_scoped(scope, move || child_stdin.write_all(stdin.as_bytes()))?;
+                let output = child.wait_with_output()?;
+                writer.join().expect("Writing to the STDIN to not panic.")?;
+                Ok::<_, CommandError>(output)
+            })?
         } else {
-            command.spawn()?
+            command.spawn()?.wait_with_output()?
         };
-        Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
+        Ok(from_utf8(&output.stdout)?.to_string())
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0

