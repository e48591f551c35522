//! C17: configuration text.
use crate::ctx::*;
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;
use std::collections::*;
pub fn b<T>(x: T) -> Box<T> { Box::new(x) }
/// Every form of every configurable thing, around one text, one number and an optional number.
pub struct V { pub t: String, pub n: isize, pub o: Option<isize> }
impl V {
    fn t(&self) -> String { self.t.clone() }
    fn s(&self) -> StringSource { StringSource::String(self.t()) }
    fn bs(&self) -> Box<StringSource> { b(self.s()) }
    fn set(&self) -> HashSet<String> { [self.t(), "second".to_string()].into() }
    fn map<T: Clone>(&self, x: T) -> Map<T> { Map { map: [(self.t(), x.clone())].into(), if_null: None, r#else: Some(b(x)) } }
    fn map2<T: Clone>(&self, x: T) -> Map<T> { Map { map: [].into(), if_null: Some(b(x)), r#else: None } }
    fn common(&self) -> CommonCall { CommonCall { name: self.bs(), args: CommonCallArgsSource { flags: self.set(), vars: [(self.t(), StringSource::None)].into() } } }
    fn common2(&self) -> CommonCall { CommonCall { name: bs("n"), args: Default::default() } }
    pub fn flag(&self) -> Vec<FlagRef> { vec![FlagRef { r#type: FlagType::Params, name: self.s() }, FlagRef { r#type: FlagType::Scratchpad, name: self.s() }, FlagRef { r#type: FlagType::Common, name: StringSource::None }] }
    pub fn var(&self) -> Vec<VarRef> { [VarType::Params, VarType::JobContext, VarType::TaskContext, VarType::Common, VarType::Scratchpad, VarType::Env].into_iter().map(|x| VarRef { r#type: x, name: self.s() }).chain([VarRef { r#type: VarType::Params, name: StringSource::Part(UrlPart::Host) }]).collect() }
    pub fn part(&self) -> Vec<UrlPart> { use UrlPart::*; let n = self.n; vec![Whole, Scheme, Username, Password, Host, HostWithoutWWWDotPrefixAndFqdnPeriod, DomainSegment(n), BeforeDomainSegment(n), AfterDomainSegment(n), NextDomainSegment, SubdomainSegment(n), BeforeSubdomainSegment(n), AfterSubdomainSegment(n), NextSubdomainSegment, DomainSuffixSegment(n), BeforeDomainSuffixSegment(n), AfterDomainSuffixSegment(n), NextDomainSuffixSegment, Domain, Subdomain, RegDomain, NotDomainSuffix, DomainMiddle, DomainSuffix, FqdnPeriod, Port, Path, PathSegment(n), BeforePathSegment(n), AfterPathSegment(n), NextPathSegment, Query, QueryParam(QueryParamSelector { name: self.t(), index: 0 }), QueryParam(QueryParamSelector { name: self.t(), index: n.unsigned_abs() }), Fragment, Debug(b(Port))] }
    pub fn chars(&self) -> Vec<CharMatcher> { use CharMatcher::*; let c = self.t.chars().next().unwrap_or('x'); vec![Always, Never, Error, Debug(b(Never)), If { r#if: b(Always), then: b(Equals(c)), r#else: b(Error) }, All(vec![]), All(vec![Equals(c), Always]), Any(vec![IsAscii]), Not(b(IsDigit)), TreatErrorAsPass(b(Error)), TreatErrorAsFail(b(Equals(c))), TryElse { r#try: b(Error), r#else: b(Always) }, Equals(c), Between { min: c, max: 'z' }, IsOneOf([c, 'q'].into()), FirstNotError(vec![Error, Equals(c)]), IsAlphabetic, IsAlphanumeric, IsAscii, IsAsciiAlphabetic, IsAsciiAlphanumeric, IsAsciiControl, IsAsciiDigit, IsAsciiGraphic, IsAsciiHexdigit, IsAsciiLowercase, IsAsciiPunctuation, IsAsciiUppercase, IsAsciiWhitespace, IsControl, IsDigit, IsDigitRadix(16), IsLowercase, IsNumeric, IsUppercase, IsWhitespace] }
    pub fn location(&self) -> Vec<StringLocation> { use StringLocation::*; let (n, o) = (self.n, self.o); vec![Always, Never, Error(self.t()), Debug(b(Start)), If { r#if: b(Always), then: b(StartsAt(n)), r#else: b(End) }, All(vec![StartsAt(n)]), Any(vec![]), Not(b(Equals)), TreatErrorAsPass(b(EndsAt(n))), TreatErrorAsFail(b(Anywhere)), TryElse { r#try: b(Error(self.t())), r#else: b(Start) }, FirstNotError(vec![Start, End]), Anywhere, Start, End, StartsAt(n), EndsAt(n), After(n), Before(n), Equals, Range { start: n, end: o, location: b(Anywhere) }, AnySegment { split: self.t(), location: b(Equals) }, NthSegment { split: self.t(), n, location: b(Start) }] }
    pub fn regexes(&self) -> Vec<RegexWrapper> { let mut r = vec![RegexWrapper::from(&self.t[..])]; for i in 0..9 { let mut c = RegexConfig::default(); match i { 0 => c.case_insensitive = true, 1 => c.crlf = true, 2 => c.dot_matches_new_line = true, 3 => c.ignore_whitespace = true, 4 => c.line_terminator = 0, 5 => c.multi_line = true, 6 => c.octal = true, 7 => c.swap_greed = true, _ => c.unicode = false } r.push(RegexParts { pattern: self.t(), config: c }.into()); } r }
    pub fn globs(&self) -> Vec<GlobWrapper> { let mut r = vec![]; for i in 0..8u8 { let mut g: GlobWrapper = "a*?".parse().unwrap(); g.options.case_sensitive = i & 1 != 0; g.options.require_literal_separator = i & 2 != 0; g.options.require_literal_leading_dot = i & 4 != 0; r.push(g); } r.push("".parse().unwrap()); r.push("[!a]\"é\\".parse().unwrap()); r }
    pub fn matcher(&self) -> Vec<StringMatcher> { use StringMatcher::*; let mut r = vec![Always, Never, Error(self.t()), Debug(b(Never)), If { r#if: b(Is(self.s())), then: b(Always), r#else: b(Never) }, Not(b(Always)), All(vec![]), All(vec![Always, Is(self.s())]), Any(vec![Never]), TreatErrorAsPass(b(Error(self.t()))), TreatErrorAsFail(b(Never)), TryElse { r#try: b(Never), r#else: b(Is(self.s())) }, FirstNotError(vec![Always]), ContainsAny { values: vec![self.s(), StringSource::None], r#where: StringLocation::StartsAt(self.n) }, ContainsAnyInList { r#where: StringLocation::Equals, list: self.s() }, Is(self.s()), Is(StringSource::None), IsOneOf(self.set()), IsOneOf([].into()), InSet(self.s()), Modified { modification: StringModification::Append(self.s()), matcher: b(Always) }, Modified { modification: StringModification::Lowercase, matcher: b(Is(self.s())) }, OnlyTheseChars(self.t.chars().collect()), IsAscii, NthSegmentMatches { split: self.s(), n: self.n, matcher: b(Always) }, AnySegmentMatches { split: self.s(), matcher: b(Never) }, LengthIs(self.n.unsigned_abs()), SegmentsStartWith { split: self.bs(), value: self.bs() }, SegmentsEndWith { split: self.bs(), value: b(StringSource::None) }, Common(self.common()), Common(self.common2())];
        r.extend(self.location().into_iter().map(|x| Contains { value: self.s(), r#where: x })); r.extend(self.chars().into_iter().map(AllCharsMatch)); r.push(AnyCharMatches(CharMatcher::IsDigit)); r.extend(self.regexes().into_iter().map(Regex)); r.extend(self.globs().into_iter().map(Glob)); r }
    pub fn modification(&self) -> Vec<StringModification> { use StringModification::*; let (n, o) = (self.n, self.o); let mut r = vec![None, Debug(b(Lowercase)), Error(self.t()), IgnoreError(b(None)), RevertOnError(b(Lowercase)), TryElse { r#try: b(Error(self.t())), r#else: b(None) }, All(vec![]), All(vec![Lowercase, Append(self.s())]), FirstNotError(vec![UrlDecode]), If { condition: b(Condition::Always), then: b(None), r#else: Option::None }, If { condition: b(Condition::Never), then: b(None), r#else: Some(b(Uppercase)) }, IfMatches { matcher: b(StringMatcher::Always), then: b(None), r#else: Option::None }, IfMatches { matcher: b(StringMatcher::Is(self.s())), then: b(None), r#else: Some(b(Set(self.s()))) }, Set(self.s()), Set(StringSource::None), Append(self.s()), Prepend(self.s()), Replace { find: self.s(), replace: self.s() }, ReplaceRange { start: n, end: o, replace: self.s() }, Lowercase, Uppercase, StripPrefix(self.s()), StripSuffix(self.s()), StripMaybePrefix(self.s()), StripMaybeSuffix(self.s()), Replacen { find: self.s(), replace: self.s(), count: n.unsigned_abs() }, Insert { value: self.s(), index: n }, RemoveChar(n), KeepRange { start: n, end: o }, UrlEncode(UrlEncodeAlphabet::JsEncodeUriComponent), UrlEncode(UrlEncodeAlphabet::JsEncodeUri), UrlEncode(UrlEncodeAlphabet::NonAlphanumeric), UrlDecode, GetJsStringLiteralPrefix, UnescapeHtmlText, GetHtmlAttribute(self.s()), JsonPointer(self.s()), RemoveQueryParamsMatching(b(StringMatcher::Always)), AllowQueryParamsMatching(b(StringMatcher::Is(self.s()))), ExtractBetween { start: self.s(), end: self.s() }, KeepNthSegment { split: self.s(), index: n }, KeepSegmentRange { split: self.s(), start: n, end: o }, KeepSegmentRange { split: self.s(), start: 0, end: o }, SetSegment { split: self.s(), index: n, value: StringSource::None }, InsertSegment { split: self.s(), index: n, value: self.s() }, StringMap { value: self.bs(), map: self.map(Lowercase) }, StringMap { value: b(StringSource::None), map: self.map2(Append(self.s())) }, Common(self.common()), Common(self.common2())];
        for x in [Base64Alphabet::UrlSafe, Base64Alphabet::Standard] { for (p, q) in [(true, Base64DecodePaddingMode::Indifferent), (false, Base64DecodePaddingMode::RequireCanonical), (true, Base64DecodePaddingMode::RequireNone)] { let c = Base64Config { alphabet: x.clone(), encode_padding: p, decode_padding: q }; r.push(Base64Encode(c.clone())); r.push(Base64Decode(c)); } }
        for x in self.regexes() { r.push(RegexFind(x.clone())); } let x = RegexWrapper::from("a"); r.extend([RegexCaptures { regex: x.clone(), replace: self.s() }, JoinAllRegexCaptures { regex: x.clone(), replace: self.s(), join: self.s() }, RegexReplace { regex: x.clone(), replace: self.s() }, RegexReplaceAll { regex: x.clone(), replace: self.s() }, RegexReplacen { regex: x, n: n.unsigned_abs(), replace: self.s() }]); r }
    pub fn source(&self) -> Vec<StringSource> { use StringSource::*; let mut r = vec![None, Error(self.t()), ErrorToNone(self.bs()), ErrorToEmptyString(b(None)), TryElse { r#try: self.bs(), r#else: b(None) }, Debug(self.bs()), NoneToEmptyString(self.bs()), NoneTo { value: b(None), if_none: self.bs() }, Join { sources: vec![self.s(), None], join: self.t() }, Join { sources: vec![], join: "".into() }, IfStringMatches { value: self.bs(), matcher: b(StringMatcher::Always), then: b(None), r#else: self.bs() }, IfStringIsNone { value: self.bs(), then: b(None), r#else: self.bs() }, Map { value: self.bs(), map: self.map(self.s()) }, Map { value: b(None), map: self.map2(self.s()) }, String(self.t()), String("None".into()), ExtractPart { value: self.bs(), part: UrlPart::Port }, ParamsMap { name: self.bs(), key: b(None) }, ParamsNamedPartitioning { name: self.bs(), element: b(None) }, ExtractBetween { value: self.bs(), start: self.bs(), end: b(None) }, Common(self.common()), Common(self.common2())];
        r.extend(self.flag().into_iter().map(|x| IfFlag { flag: b(x), then: self.bs(), r#else: b(None) })); r.extend(self.part().into_iter().map(Part)); r.extend(self.var().into_iter().map(|x| Var(b(x)))); r.extend(self.modification().into_iter().map(|x| Modified { value: self.bs(), modification: b(x) })); r.extend(self.regexes().into_iter().map(|x| RegexFind { value: self.bs(), regex: x })); r
    }
    pub fn condition(&self) -> Vec<Condition> { use Condition::*; let mut r = vec![Always, Never, Error(self.t()), Debug(b(Never)), If { r#if: b(Always), then: b(Never), r#else: b(PathIs(self.t())) }, Not(b(PathIs(self.t()))), All(vec![]), Any(vec![Always, PathIs(self.t())]), PartMap { part: UrlPart::PathSegment(self.n), map: self.map(Always) }, PartMap { part: UrlPart::Port, map: self.map2(PathIs(self.t())) }, StringMap { value: self.s(), map: self.map(Never) }, StringMap { value: StringSource::None, map: self.map2(Never) }, TryElse { r#try: b(Always), r#else: b(PathIs(self.t())), filter: Default::default() }, HostIs(Some(self.t())), HostIs(None), SubdomainIs(Some(self.t())), SubdomainIs(None), RegDomainIs(None), RegDomainIs(Some(self.t())), DomainIs(None), DomainIs(Some(self.t())), DomainMiddleIs(Some(self.t())), NotDomainSuffixIs(Some(self.t())), DomainSuffixIs(Some(self.t())), HostIsOneOf(self.set()), UrlHasHost, HostIsFqdn, HostIsDomain, HostIsIp, HostIsIpv4, HostIsIpv6, QueryHasParam(self.t()), PathIs(self.t()), PartIs { part: UrlPart::Query, value: self.s() }, PartIs { part: UrlPart::Query, value: StringSource::None }, PartMatches { part: UrlPart::Host, matcher: StringMatcher::Is(self.s()) }, PartIsOneOf { part: UrlPart::PathSegment(self.n), values: self.set() }, StringIs { left: self.s(), right: StringSource::None }, StringMatches { value: self.s(), matcher: StringMatcher::Always }, Common(self.common()), Common(self.common2())];
        for x in [ConditionErrorFilter(None), ConditionErrorFilter(Some([].into())), ConditionErrorFilter(Some([ConditionErrorNames::PartIsNone, ConditionErrorNames::ExplicitError].into()))] { r.extend([TreatErrorAsPass { condition: b(PathIs(self.t())), filter: x.clone() }, TreatErrorAsFail { condition: b(PartMap { part: UrlPart::Port, map: self.map(Always) }), filter: x.clone() }, TryElse { r#try: b(Always), r#else: b(Never), filter: x }]); }
        for x in [StringLocation::Anywhere, StringLocation::StartsAt(self.n), StringLocation::Start] { r.push(PartContains { part: UrlPart::Path, value: self.s(), r#where: x.clone() }); r.push(StringContains { value: self.s(), substring: self.s(), r#where: x }); }
        r.extend(self.flag().into_iter().map(FlagIsSet)); r.extend(self.var().into_iter().map(|x| VarIs { var: x, value: self.s() })); r }
    pub fn mapper(&self) -> Vec<Mapper> { use Mapper::*; let mut r = vec![None, Error(self.t()), Debug(b(None)), If { condition: Condition::Always, mapper: b(None), else_mapper: Option::None }, If { condition: Condition::PathIs(self.t()), mapper: b(None), else_mapper: Some(b(RemoveQuery)) }, ConditionChain(vec![ConditionChainLink { condition: Condition::Always, mapper: None }]), All(vec![]), All(vec![RemoveQuery, Error(self.t())]), PartMap { part: UrlPart::Host, map: self.map(RemoveQuery) }, PartMap { part: UrlPart::PathSegment(self.n), map: self.map2(None) }, StringMap { value: self.s(), map: self.map(None) }, StringMap { value: StringSource::None, map: self.map2(Error(self.t())) }, IgnoreError(b(None)), RevertOnError(b(Error(self.t()))), TryElse { r#try: b(None), r#else: b(RemoveQuery) }, FirstNotError(vec![None]), RemoveQuery, RemoveQueryParam(self.s()), RemoveQueryParams(self.set()), RemoveQueryParams([].into()), AllowQueryParams(self.set()), RemoveQueryParamsMatching(StringMatcher::Always), AllowQueryParamsMatching(StringMatcher::Is(self.s())), GetUrlFromQueryParam(self.s()), SetHost(Option::None), SetHost(Some(self.t())), Join(self.s()), SetPart { part: UrlPart::Query, value: StringSource::None }, SetPart { part: UrlPart::PathSegment(self.n), value: self.s() }, ModifyPart { part: UrlPart::Query, modification: StringModification::Lowercase }, ModifyPart { part: UrlPart::Query, modification: StringModification::RemoveChar(self.n) }, CopyPart { from: UrlPart::Query, to: UrlPart::Host }, MovePart { from: UrlPart::PathSegment(self.n), to: UrlPart::Host }, SetScratchpadFlag { name: self.s(), value: true }, SetScratchpadFlag { name: self.s(), value: false }, SetScratchpadVar { name: self.s(), value: StringSource::None }, ModifyScratchpadVar { name: self.s(), modification: StringModification::Uppercase }, Rule(b(url_cleaner::types::Rule::Mapper(None))), Rule(b(url_cleaner::types::Rule::Normal { condition: Condition::Always, mapper: None, else_mapper: Option::None })), Rules(url_cleaner::types::Rules(vec![url_cleaner::types::Rule::Repeat { rules: Default::default(), limit: 3 }])), Common(self.common()), Common(self.common2())];
        for (x, l) in [(0, 10), (1000, 0), (1500, 255)] { r.push(Retry { mapper: b(RemoveQuery), delay: std::time::Duration::from_millis(x), limit: l }); } r }
    pub fn rule(&self) -> Vec<Rule> { use Rule::*; let m = self::Mapper::RemoveQuery; let n = Normal { condition: Condition::PathIs(self.t()), mapper: self::Mapper::None, else_mapper: None }; let rs = url_cleaner::types::Rules(vec![n.clone()]); let part = UrlPart::PathSegment(self.n);
        vec![PartMap { part: part.clone(), map: self.map(m.clone()) }, PartRuleMap { part: part.clone(), map: self.map(n.clone()) }, PartRulesMap { part: part.clone(), map: self.map(rs.clone()) }, StringMap { value: self.s(), map: self.map2(m.clone()) }, StringRuleMap { value: StringSource::None, map: self.map2(n.clone()) }, StringRulesMap { value: self.s(), map: self.map2(rs.clone()) }, Repeat { rules: rs.clone(), limit: 10 }, Repeat { rules: rs.clone(), limit: u64::MAX }, SharedCondition { condition: Condition::Always, rules: rs.clone() }, Rules(rs), Rules(Default::default()), Mapper(m.clone()), Common(self.common()), Common(self.common2()), n, Normal { condition: Condition::Always, mapper: m.clone(), else_mapper: Some(self::Mapper::None) }, Normal { condition: Condition::Always, mapper: m.clone(), else_mapper: Some(m) }] }
}
pub fn back<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) {
    let t = match serde_json::to_string(x) { Ok(t) => t, Err(_) => { sym::check(false, "can-be-written"); return; } }; sym::observe(t.len() as u64);
    match serde_json::from_str::<T>(&t) { Ok(y) => { sym::cover("read-back"); sym::check(y == *x, "reads-back-the-same"); } Err(_) => sym::check(false, "reads-back") }
}
fn one<T: Clone + Serialize + DeserializeOwned + PartialEq + Debug>(v: Vec<T>) -> T { sym::pick(&v) }
/// A text and a number.
pub fn vals() -> V { sym::opaque_hash(); let (t, n) = match sym::choose(6) { 0 => (sym::pick(&["\"", "\\", "a"]).to_string(), 0isize), 1 => ("".into(), -1), 2 => ("None".into(), isize::MIN), 3 => ("\"\\\n\u{1}\u{1f}".into(), isize::MAX), 4 => ("é\u{10ffff}".into(), 12), _ => ("null".into(), 1) }; V { t, n, o: if n < 0 { None } else { Some(n) } } }
fn parse<T: DeserializeOwned>(t: &str) -> Option<T> { serde_json::from_str(t).ok() }
/// Both texts are understood, and mean the same.
fn alike<T: Serialize + DeserializeOwned + PartialEq + Debug>(a: &str, b: &str) { match (parse::<T>(a), parse::<T>(b)) { (Some(x), Some(y)) => { sym::cover("forms"); sym::observe(a.len() as u64); sym::check(x == y, "short-form-means-the-long-form"); back(&x) } _ => sym::check(false, "both-forms-are-understood") } }
/// The text is understood (the first) or refused (the second).
fn twice<T: DeserializeOwned>(ok: &str, bad: &str) { sym::observe(ok.len() as u64); sym::check(parse::<T>(ok).is_some(), "distinct-names-are-accepted"); sym::check(parse::<T>(bad).is_none(), "a-name-given-twice-is-refused"); sym::cover("twice"); }
/// Whatever text is accepted is written back such that it means the same.
fn junk<T: Serialize + DeserializeOwned + PartialEq + Debug>(t: &str) { match parse::<T>(t) { Some(x) => { sym::cover("accepted"); sym::observe(1); back(&x) } None => { sym::observe(0); sym::cover("refused") } } }
fn reads<T: DeserializeOwned + PartialEq>(t: &str, want: T) { sym::observe(t.len() as u64); sym::check(parse::<T>(t).is_some_and(|x| x == want), "means-what-it-says"); sym::cover("reads"); }
fn one_rule(r: Rule) -> Config { Config { docs: Default::default(), #[cfg(feature = "full")] cache_path: Default::default(), params: Default::default(), commons: Default::default(), rules: url_cleaner::types::Rules(vec![r]) } }
fn normal(c: Condition, m: Mapper, e: Option<Mapper>) -> Rule { Rule::Normal { condition: c, mapper: m, else_mapper: e } }
fn brief() -> V { sym::opaque_hash(); if sym::flip() { V { t: "None".into(), n: -1, o: None } } else { V { t: "\"é".into(), n: 2, o: Some(3) } } }
fn cc(x: &[&str]) -> String { let mut r = String::with_capacity(64); for y in x { r.push_str(y); } r }
fn names() -> String { sym::pick(&["a", "N", "/:", " "]).to_string() }
harnesses! {
    fn h_c17_refs() { let v = vals(); match sym::choose(3) { 0 => back(&one(v.flag())), 1 => back(&one(v.var())), _ => back(&one(v.part())) } }
    fn h_c17_chars() { let v = vals(); back(&one(v.chars())) }
    fn h_c17_location() { let v = vals(); back(&one(v.location())) }
    fn h_c17_matcher() { let v = vals(); back(&one(v.matcher())) }
    fn h_c17_modification() { let v = vals(); back(&one(v.modification())) }
    fn h_c17_source() { let v = vals(); back(&one(v.source())) }
    fn h_c17_condition() { let v = vals(); back(&one(v.condition())) }
    fn h_c17_mapper() { let v = vals(); back(&one(v.mapper())) }
    fn h_c17_rule() { let v = vals(); back(&one(v.rule())) }
    fn h_c17_text() { sym::opaque_hash(); let t = sym::text(1, 4); match sym::choose(3) { 0 => back(&StringSource::String(t)), 1 => back(&CharMatcher::Equals(match t.chars().next() { Some(c) => c, None => return })), _ => back(&Condition::PathIs(t)) } }
    fn h_c17_text_two() { let t = sym::text(2, 1); back(&Mapper::Error(t)) }
    fn h_c17_number() { let neg = sym::flip(); let n = 1 + sym::choose(2); let d = sym::over_n(n, b"0123456789"); if n > 1 { sym::assume(d.as_bytes()[0] != b'0'); } let mut v = 0isize; for c in d.bytes() { v = v * 10 + (c - b'0') as isize; } if neg { sym::assume(v != 0); v = -v; }
        let j = cc(&["{\"PathSegment\":", if neg { "-" } else { "" }, &d, "}"]); match parse::<UrlPart>(&j) { Some(UrlPart::PathSegment(x)) => { sym::cover("number"); sym::check(x == v, "number-means-itself") } _ => sym::check(false, "number-is-understood") } }
    fn h_c17_nested() { let v = brief(); let n = Mapper::None; back(&one_rule(match sym::choose(6) {
        0 => normal(one(v.condition()), n, None), 1 => normal(Condition::Always, one(v.mapper()), None), 2 => normal(Condition::Never, n, Some(one(v.mapper()))),
        3 => Rule::Mapper(Mapper::If { condition: Condition::TreatErrorAsPass { condition: b(one(v.condition())), filter: ConditionErrorFilter(None) }, mapper: b(n), else_mapper: None }),
        4 => Rule::SharedCondition { condition: Condition::PartMatches { part: UrlPart::Host, matcher: StringMatcher::TreatErrorAsFail(b(one(v.matcher()))) }, rules: url_cleaner::types::Rules(vec![normal(Condition::Always, n, None)]) },
        _ => Rule::Mapper(Mapper::ModifyPart { part: UrlPart::Query, modification: StringModification::IgnoreError(b(one(v.modification()))) }) })) }
    fn h_c17_commons() { let v = brief(); let mut c = one_rule(Rule::Mapper(Mapper::None)); let k = v.t.clone(); match sym::choose(6) { 0 => { c.commons.rules.insert(k, one(v.rule())); } 1 => { c.commons.conditions.insert(k, one(v.condition())); } 2 => { c.commons.mappers.insert(k, one(v.mapper())); } 3 => { c.commons.string_sources.insert(k, one(v.source())); } 4 => { c.commons.string_modifications.insert(k, one(v.modification())); } _ => { c.commons.string_matchers.insert(k, one(v.matcher())); } } back(&c) }
    fn h_c17_config() { sym::opaque_hash(); let mut c = one_rule(Rule::Mapper(Mapper::None)); let t = names(); let f = sym::choose(12); let p = &mut c.params; let m: HashMap<String, String> = [(t.clone(), "v".to_string()), ("w".into(), t.clone())].into(); match f {
        0 => p.flags = [t, "other".into()].into(), 1 => p.vars = m, 2 => p.sets = [(t.clone(), [t, "e".into()].into()), ("empty".into(), [].into())].into(), 3 => p.lists = [(t.clone(), vec!["1".into(), t, "1".into()]), ("empty".into(), vec![])].into(), 4 => p.maps = [(t.clone(), Map { map: m, if_null: Some(b("n".into())), r#else: Some(b(t)) }), ("empty".into(), Map { map: [].into(), if_null: None, r#else: None })].into(),
        5 => p.named_partitionings = [(t.clone(), NamedPartitioning::try_from_iter([("one".to_string(), vec![t]), ("".into(), vec![]), ("three".into(), vec!["x y".into()])]).unwrap())].into(),
        6 => { c.docs.title = Some(t.clone()); c.docs.description = Some(vec![t, "".into()]); } 7 => { c.docs.flags = m.clone(); c.docs.vars = m; } 8 => { c.docs.sets = m.clone(); c.docs.lists = m.clone(); c.docs.environment_vars = m; } 9 => { c.docs.maps = m.clone(); c.docs.named_partitionings = m; } 10 => { c.docs.job_context.vars = m.clone(); c.docs.task_context.vars = m; } _ => c.rules = Default::default() } back(&c) }
    fn h_c17_diffs() { let t = names(); sym::opaque_hash(); let mut d = ParamsDiff::default(); let m: HashMap<String, String> = [(t.clone(), "v".to_string())].into(); let vs: HashMap<String, Vec<String>> = [(t.clone(), vec!["x".to_string(), t.clone()])].into(); let set: HashSet<String> = [t.clone(), "z z".into()].into(); match sym::choose(11) { 0 => d.flags = set, 1 => d.unflags = set, 2 => d.vars = m, 3 => d.unvars = set, 4 => d.init_sets = vec![t], 5 => d.insert_into_sets = vs, 6 => d.remove_from_sets = vs, 7 => d.delete_sets = vec![t], 8 => d.init_maps = vec![t], 9 => d.map_diffs = [(t, MapDiff { insert_into_map: m, remove_from_map: set })].into(), _ => d.delete_maps = vec![t, "".into()] } back(&d) }
    fn h_c17_defaults() { match sym::choose(5) {
        0 => reads(r#"{"rules":[]}"#, Config { rules: Default::default(), ..one_rule(Rule::Mapper(Mapper::None)) }),
        1 => { sym::check(parse::<Config>("{}").is_none(), "rules-are-required"); sym::check(parse::<Rule>(r#"{"condition":"Always"}"#).is_none(), "a-mapper-is-required") }
        2 => { reads("{}", Params::default()); let p: Params = parse("{}").unwrap(); sym::check(p.flags.is_empty() && p.vars.is_empty() && p.sets.is_empty() && p.lists.is_empty() && p.maps.is_empty() && p.named_partitionings.is_empty(), "parameters-start-empty"); #[cfg(feature = "full")] { sym::check(p.read_cache && p.write_cache, "cache-used-unless-told-otherwise"); let h = &p.http_client_config; sym::check(h.redirect_policy == RedirectPolicy::Limited(10) && !h.https_only && !h.no_proxy && h.proxies.is_empty() && h.extra_certificates.is_empty() && h.default_headers.is_empty(), "documented-client-defaults") } }
        3 => { reads("{}", ParamsDiff::default()); reads("{}", JobContext::default()); reads("{}", TaskContext::default()); }
        _ => { reads(r#"{"condition":"Always","mapper":"RemoveQuery"}"#, normal(Condition::Always, Mapper::RemoveQuery, None)); reads(r#"{"Repeat":{"rules":[]}}"#, Rule::Repeat { rules: Default::default(), limit: 10 }); reads(r#"{"Retry":{"mapper":"None","delay":1.5}}"#, Mapper::Retry { mapper: b(Mapper::None), delay: std::time::Duration::from_millis(1500), limit: 10 }); reads(r#"{"KeepRange":{"start":2}}"#, StringModification::KeepRange { start: 2, end: None }); reads(r#"{"If":{"condition":"Always","mapper":"None"}}"#, Mapper::If { condition: Condition::Always, mapper: b(Mapper::None), else_mapper: None }); } } }
    fn h_c17_forms() { let t = names(); let q = |a: &str, z: &str| cc(&[a, &t, z]); match sym::choose(10) {
        0 => alike::<FlagRef>(&q("\"", "\""), &q("{\"type\":\"Params\",\"name\":{\"String\":\"", "\"}}")), 1 => alike::<VarRef>(&q("\"", "\""), &q("{\"type\":\"Params\",\"name\":\"", "\"}")), 2 => alike::<CommonCall>(&q("\"", "\""), &q("{\"name\":\"", "\",\"args\":{\"flags\":[],\"vars\":{}}}")), 3 => alike::<QueryParamSelector>(&q("\"", "\""), &q("{\"name\":\"", "\",\"index\":0}")),
        4 => alike::<StringSource>(&q("\"", "\""), &q("{\"String\":\"", "\"}")), 5 => alike::<UrlPart>(&q("{\"QueryParam\":\"", "\"}"), &q("{\"QueryParam\":{\"name\":\"", "\",\"index\":0}}")), 6 => alike::<StringMatcher>(&q("{\"Is\":\"", "\"}"), &q("{\"Is\":{\"String\":\"", "\"}}")),
        7 => alike::<Condition>(&q("{\"FlagIsSet\":\"", "\"}"), &q("{\"FlagIsSet\":{\"name\":\"", "\"}}")), 8 => alike::<GlobWrapper>(&q("\"", "*\""), &q("{\"pattern\":\"", "*\",\"case_sensitive\":true,\"require_literal_separator\":false,\"require_literal_leading_dot\":true}")),
        _ => alike::<RegexWrapper>(&q("\"", "\""), &q("{\"pattern\":\"", "\",\"case_insensitive\":false,\"crlf\":false,\"dot_matches_new_line\":false,\"ignore_whitespace\":false,\"line_terminator\":10,\"multi_line\":false,\"octal\":false,\"swap_greed\":false,\"unicode\":true}")) } }
    fn h_c17_twice() { sym::opaque_hash(); let c = names(); let d = sym::pick(&["a", "N", "b"]).to_string(); if c == d { return; }
        // One object (or list) with the names `x` and `y`; the same with `x` given twice.
        let obj = |val: &str| { let f = |y: &str| cc(&["{\"", &c, "\":", val, ",\"", y, "\":", val, "}"]); (f(&d), f(&c)) }; let lst = || { let f = |y: &str| cc(&["[\"", &c, "\",\"", y, "\"]"]); (f(&d), f(&c)) };
        fn put<T: DeserializeOwned>(pre: &str, (ok, bad): (String, String), post: &str) { twice::<T>(&cc(&[pre, &ok, post]), &cc(&[pre, &bad, post])) }
        let key = |n: &str| cc(&["{\"", n, "\":"]);
        match sym::choose(9) {
            0 => { let (n, o) = sym::pick(&[("flags", false), ("vars", true)]); put::<Params>(&key(n), if o { obj("\"v\"") } else { lst() }, "}") }
            1 => { let (n, v) = sym::pick(&[("sets", "[]"), ("lists", "[]"), ("maps", "{\"map\":{}}"), ("named_partitionings", "{}")]); put::<Params>(&key(n), obj(v), "}") }
            2 => { let n = sym::pick(&["flags", "unflags", "unvars"]); put::<ParamsDiff>(&key(n), lst(), "}") }
            3 => { let (n, v) = sym::pick(&[("vars", "\"v\""), ("insert_into_sets", "[]"), ("remove_from_sets", "[]"), ("map_diffs", "{\"insert_into_map\":{},\"remove_from_map\":[]}")]); put::<ParamsDiff>(&key(n), obj(v), "}") }
            4 => { let n = sym::pick(&["flags", "vars", "environment_vars", "sets", "lists", "maps", "named_partitionings"]); put::<ConfigDocs>(&key(n), obj("\"v\""), "}") }
            5 => { put::<JobContext>("{\"vars\":", obj("\"v\""), "}"); put::<TaskContext>("{\"vars\":", obj("\"v\""), "}") }
            6 => { let n = sym::pick(&["RemoveQueryParams", "AllowQueryParams"]); put::<Mapper>(&key(n), lst(), "}") }
            7 => { put::<Map<String>>("{\"map\":", obj("\"v\""), "}"); put::<NamedPartitioning>("", obj("[]"), "") }
            _ => { let f = |y: &str| cc(&["{\"p\":[\"", &c, "\"],\"q\":[\"", y, "\"]}"]); put::<NamedPartitioning>("", (f(&d), f(&c)), "") } } }
    fn h_c17_junk() { let t = sym::over(0, 3, b"{\"}[]:,1n"); match sym::choose(4) { 0 => junk::<StringSource>(&t), 1 => junk::<Rules>(&t), 2 => junk::<UrlPart>(&t), _ => junk::<StringModification>(&t) } }
    fn h_c17t_junk() { let t = sym::over(0, 4, b"{\"}[]:,1n"); match sym::choose(4) { 0 => junk::<Config>(&t), 1 => junk::<Params>(&t), 2 => junk::<Condition>(&t), _ => junk::<Mapper>(&t) } }
    fn h_c17_unknown() { let t = sym::pick(&["\"Sometimes\"", "{\"Sometimes\":1}", "[]", "1", "null", "true", "{\"Error\":\"x\",\"Always\":\"y\"}", "\"Not\""]); sym::observe(t.len() as u64); match sym::choose(6) { 0 => sym::check(parse::<Condition>(t).is_none(), "unknown-is-refused"), 1 => sym::check(parse::<Mapper>(t).is_none(), "unknown-is-refused"), 2 => sym::check(parse::<UrlPart>(t).is_none(), "unknown-is-refused"), 3 => sym::check(parse::<StringMatcher>(t).is_none(), "unknown-is-refused"), 4 => sym::check(parse::<StringModification>(t).is_none(), "unknown-is-refused"), _ => sym::check(parse::<StringLocation>(t).is_none(), "unknown-is-refused") } }
    fn h_c17_task() { let h = sym::pick(&["a", "Z", "", " ", "a/"]).to_string(); let u = cc(&["http://", &h, "/p?q"]); let plain = u.parse::<TaskConfig>().ok(); let quoted = cc(&["\"", &u, "\""]).parse::<TaskConfig>().ok(); let long = cc(&["{\"url\":\"", &u, "\"}"]).parse::<TaskConfig>().ok(); let real = url::Url::parse(&u).ok();
        sym::observe(real.is_some() as u64); sym::check(plain.as_ref().map(|x| x.url.as_str().to_string()) == real.map(|x| x.as_str().to_string()), "a-line-is-its-url"); sym::check(plain == quoted && plain == long, "short-form-means-the-long-form"); if let Some(x) = plain { sym::cover("task"); sym::check(x.context.vars.is_empty(), "no-context"); back(&x); let mut y = x.clone(); y.context.vars.insert("a".into(), h); back(&y); sym::check(serde_json::to_string(&y).ok().and_then(|t| t.parse::<TaskConfig>().ok()).is_some_and(|z| z == y), "reads-back-as-a-line") } }
    fn h_c17_http() { #[cfg(feature = "full")] { use url_cleaner::glue::*; sym::opaque_hash(); let t = names(); match sym::choose(8) {
        0 => { let mut c = HttpClientConfig::default(); match sym::choose(8) { 0 => c.https_only = true, 1 => c.no_proxy = true, 2 => c.referer = true, 3 => c.extra_certificates = [t].into(), 4 => c.redirect_policy = RedirectPolicy::None, 5 => c.redirect_policy = RedirectPolicy::Limited(sym::pick(&[0, 11, usize::MAX])), 6 => { c.default_headers.insert("x-a", "v\u{7e}".parse().unwrap()); c.default_headers.insert("accept", "".parse().unwrap()); } _ => c.proxies = vec!["http://a/".parse().unwrap(), ProxyConfig { url: "socks5://b:1".parse().unwrap(), mode: ProxyMode::Https, auth: Some(ProxyAuth::Basic { username: t.clone(), password: t }) }] } back(&c) }
        1 => back(&sym::pick(&[ProxyMode::Http, ProxyMode::Https, ProxyMode::All])),
        2 => { let s = StringSource::String(t.clone()); let x = sym::pick(&[StringSourceJsonValue::Null, StringSourceJsonValue::Bool(true), StringSourceJsonValue::Bool(false), StringSourceJsonValue::Number(serde_json::Number::from(-3)), StringSourceJsonValue::Number(serde_json::Number::from(u64::MAX)), StringSourceJsonValue::String(s.clone()), StringSourceJsonValue::String(StringSource::Part(UrlPart::Host)), StringSourceJsonValue::Array(vec![]), StringSourceJsonValue::Array(vec![StringSourceJsonValue::Null, StringSourceJsonValue::String(s.clone())]), StringSourceJsonValue::Object([(t.clone(), StringSourceJsonValue::Null)].into()), StringSourceJsonValue::Object([("a".to_string(), StringSourceJsonValue::Array(vec![StringSourceJsonValue::Bool(true)]))].into())]); back(&x); back(&RequestBody::Json(x)) }
        3 => { let s = StringSource::String(t.clone()); back(&sym::pick(&[RequestBody::Text(s.clone()), RequestBody::Form([(t, s)].into())])) }
        4 => { let s = StringSource::String(t); back(&sym::pick(&[ResponseHandler::Body, ResponseHandler::Url, ResponseHandler::Header(s.clone()), ResponseHandler::Cookie(s)])) }
        5 => { let x = sym::pick(&[("null", StringSourceJsonValue::Null), ("true", StringSourceJsonValue::Bool(true)), ("[]", StringSourceJsonValue::Array(vec![])), ("[null,\"a\"]", StringSourceJsonValue::Array(vec![StringSourceJsonValue::Null, StringSourceJsonValue::String(s("a"))])), ("\"a\"", StringSourceJsonValue::String(s("a"))), ("-1", StringSourceJsonValue::Number(serde_json::Number::from(-1)))]); reads(x.0, x.1) }
        6 => { back(&sym::pick(&[CachePath::Memory, CachePath::Path(cc(&["x", &t]))])); reads("\":memory:\"", CachePath::Memory); let mut c = one_rule(Rule::Mapper(Mapper::None)); c.cache_path = CachePath::Path(t); c.params.read_cache = false; c.params.write_cache = sym::flip(); back(&c) }
        _ => { let mut r = RequestConfig { url: StringSource::Part(UrlPart::Whole), ..RequestConfig::default() }; match sym::choose(4) { 0 => (), 1 => r.url = s(&t), 2 => r.headers = [(t, StringSource::None)].into(), _ => r.client_config_diff = Some(HttpClientConfigDiff { https_only: Some(false), ..Default::default() }) } back(&r); back(&StringSource::HttpRequest(b(r))) } } } }
}
