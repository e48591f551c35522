SM = "src/types/string_modification.rs"
PROPS = [
dict(id="C01", title="Range, index, affix and substring edits of a string are exact and total",
 statement="Editing a string by byte index, byte range, prefix, suffix, delimiters or substring yields exactly the string the documented Python-like (negative counts from the end) semantics define, for every string and every index. When the position does not exist, falls inside a multi-byte character, or a required value is absent, the edit reports an error, never crashes, and leaves the string as it was.",
 over=["inputs"], quant="all strings up to the stated length over all of Unicode, all 64-bit indices, all replacement values within bounds",
 why="The unit tests never evaluate these edits at negative, extreme or mid-character positions; the guarantee is over every (string, index) pair.",
 files=[SM, "src/util.rs"], mech=[("neg_index / neg_range / neg_range_boundary", "src/util.rs"), ("StringModification::apply", SM)],
 bounds="strings of <=3 arbitrary Unicode chars (<=40 ASCII chars in h_c01_long), every 64-bit index, replacements <=2 chars; thorough: wider chars and longer strings"),
dict(id="C02", title="Segment edits of a delimited string are list operations",
 statement="Keeping, setting, inserting, removing and ranging over the delimiter-separated segments of a string gives exactly the result of splitting the string into a list, doing the same list operation with Python-like indices, and joining it again. A segment or boundary that does not exist, or an absent delimiter, is an error that leaves the string untouched; no input crashes.",
 over=["inputs"], quant="all strings, delimiters, indices (all 64-bit values) and values within bounds",
 why="Tests sample a few hand-written strings; off-by-one errors at the ends, negative indices and repeated delimiters need every combination.",
 files=[SM, "src/util.rs"], mech=[("segment arms of StringModification::apply", SM), ("neg_nth, neg_range, neg_vec_keep", "src/util.rs")],
 bounds="strings <=4 chars over a delimiter-rich alphabet (up to 19 segments in h_c02_many), delimiters <=2 chars, every 64-bit index"),
dict(id="C03", title="String and character matchers answer exactly what they document",
 statement="Asking whether a string contains another one at a location (anywhere, start, end, equal, at/before/after an index, in a range, in the n-th or any segment), is one of a set, or consists of given kinds of characters gives exactly the documented answer. Positions that do not exist, missing values and invalid radices are reported as errors, and no input crashes.",
 over=["inputs"], quant="all haystacks, needles, 64-bit positions and characters within bounds",
 why="Tests do not evaluate location semantics beyond a few constants; the answer must be right for every haystack, needle, index and char.",
 files=["src/types/string_location.rs", "src/types/string_matcher.rs", "src/types/char_matcher.rs"], mech=[("StringLocation::satisfied_by", "src/types/string_location.rs"), ("StringMatcher::satisfied_by", "src/types/string_matcher.rs"), ("CharMatcher::satisfied_by", "src/types/char_matcher.rs")],
 bounds="haystacks <=3 Unicode chars or <=5 over {a,b}, needles <=2 chars (3 over {a,b}), every 64-bit index, every Unicode char for ASCII-defined classes; Unicode-defined classes on all ASCII and 14 chosen chars"),
dict(id="C04", title="Boolean and error-handling combinators of conditions and matchers",
 statement="All, Any, Not, If, TreatErrorAsPass/Fail, TryElse, FirstNotError and the error filters of conditions, string matchers, string locations and character matchers return exactly what their truth tables say for every combination of true, false and error of their operands: errors are never swallowed unless the combinator says so, operands are evaluated left to right and only as far as needed, and nesting composes.",
 over=["inputs"], quant="all outcomes (true, false, error) of every leaf of combinator trees of depth 2-3",
 why="Each combinator has 3^n operand outcomes and nests; the tests touch a handful of them.",
 files=["src/types/rules/conditions.rs", "src/types/string_matcher.rs", "src/types/string_location.rs", "src/types/char_matcher.rs"], mech=[("Condition::satisfied_by", "src/types/rules/conditions.rs"), ("StringMatcher::satisfied_by", "src/types/string_matcher.rs"), ("CharMatcher::satisfied_by", "src/types/char_matcher.rs")],
 bounds="trees of depth 2 with up to 3 children and depth 3 with up to 2, every outcome of every leaf"),
dict(id="C05", title="Control flow and rollback of rules, mappers and string modifications",
 statement="Sequencing, branching, error handling and repetition of mappers, rules and string modifications (All, If, condition chains, IgnoreError, RevertOnError, TryElse, FirstNotError, Repeat, shared conditions, rule lists) run exactly the documented steps in the documented order for every outcome of every step: the first error stops a sequence and is returned, what is documented to roll back leaves the task exactly as it was, and repetition stops when a round changes nothing or at its limit.",
 over=["inputs", "histories"], quant="all outcomes of every step (true, false, error; changes or not) of composite rules within bounds",
 why="A step's failure at any point of any nesting must roll back or propagate; tests exercise only successful straight lines.",
 files=["src/types/rules/mappers.rs", "src/types/rules.rs", SM], mech=[("Mapper::apply", "src/types/rules/mappers.rs"), ("Rule::apply, Rules::apply", "src/types/rules.rs"), ("StringModification::apply combinators", SM)],
 bounds="composites of depth 2-3 with up to 3 steps, repeat limits <=3 and all of 6, every outcome of every step; fixed outcomes for 270 steps, 257 rounds and 255 retries"),
dict(id="C09", title="A URL's host and its cached parts never disagree",
 statement="Whatever sequence of host, domain, subdomain, suffix, middle, not-subdomain, FQDN-period and segment edits a URL goes through, the cached host details always are those of the host the URL really has, subdomain/middle/suffix are the parts the public suffix list defines, an edit of one part leaves the other parts alone, reading back gives what was set, and an edit that fails leaves the URL exactly as it was; nothing panics.",
 over=["inputs", "histories"], quant="all hosts over small label alphabets incl. trailing periods, multi-label, wildcard and exception suffixes, IPs and opaque hosts; all sequences of 2 edits with all values within bounds",
 why="The cache is maintained incrementally by each setter; staleness only shows after particular hosts and edit combinations.",
 files=["src/types/better_url.rs", "src/types/better_url/host_details.rs", "src/types/better_url/host_details/domain.rs"], mech=[("BetterUrl::set_domain_host, set_subdomain, set_domain_suffix, set_fqdn, ...", "src/types/better_url.rs"), ("HostDetails::from_host", "src/types/better_url/host_details.rs"), ("DomainDetails", "src/types/better_url/host_details/domain_details.rs")],
 bounds="hosts of <=4 labels over a small label set and <=5-char strings over a host alphabet; histories of 2 edits; opaque hosts of <=3 characters"),
dict(id="C10", title="Reading and writing the parts of a URL is exact, isolated and atomic",
 statement="Reading any part of a URL (whole, scheme, credentials, host, domain parts, port, path, path/domain/subdomain/suffix segments at Python-like indices, query, fragment) gives exactly that component. Writing one part changes exactly that component to the value (escaped so that it cannot leak into another), leaves every other component alone, treats segments as list elements, and writing back what was read changes nothing. A part that does not exist, cannot be absent, or gets an invalid value is an error that leaves the URL as it was; nothing panics.",
 over=["inputs"], quant="all combinations of optional components, all values over small alphabets, every 64-bit segment index",
 why="Setters normalise, escape and re-parse; interactions between components and empty or missing parts escape sampled tests.",
 files=["src/types/url_part.rs", "src/types/better_url.rs", "src/util.rs"], mech=[("UrlPart::get, UrlPart::set", "src/types/url_part.rs"), ("set_rel_segment, neg_nth", "src/util.rs"), ("BetterUrl setters", "src/types/better_url.rs")],
 bounds="URLs of 3 schemes x 4 credentials x 5 hosts x ports x 3 paths x 4 query/fragment combinations; paths of <=4 segments of <=1 char; values <=3 chars; every 64-bit index"),
dict(id="C11", title="Query parameter operations act on exactly the selected parameters",
 statement="Removing, allowing, reading and setting query parameters by name, name set, matcher or (name, index) affects exactly the selected parameters: all others keep their decoded names and values in order, every other component of the URL stays as it was, a query without parameters disappears, and getting a URL out of a parameter takes the first one of that name. Absent names, indices past the end, failing matchers and values that are not URLs are errors that change nothing.",
 over=["inputs"], quant="all query texts over {a, b, =, &, +, %} up to the bound plus multi-parameter, escaped and non-ASCII ones; all names, sets and 64-bit indices",
 why="Duplicates, empty items, missing `=`, escapes and positions interact; tests use one ordinary query.",
 files=["src/types/rules/mappers.rs", "src/types/url_part.rs", SM], mech=[("query mappers of Mapper::apply", "src/types/rules/mappers.rs"), ("QueryParamSelector", "src/types/url_part.rs"), ("RemoveQueryParamsMatching, AllowQueryParamsMatching", SM)],
 bounds="query texts of <=6 arbitrary characters of {a,=,&} (5 of {a,b,=,&,+}), fixed queries of <=9 parameters; every 64-bit index; thorough: <=8"),
dict(id="C12", title="Part-level conditions and mappers compose reading and writing exactly",
 statement="Conditions on the host, its parts, the path and any URL part answer exactly whether that part equals, contains, matches or is one of the given values, and report an error when a part they need is absent. Setting, copying, moving and modifying parts, setting the host and joining a reference do precisely the composition of reading and writing they document, a move being all or nothing; whatever fails leaves the URL and its cached host details as they were, and afterwards the cached details always are those of the new host.",
 over=["inputs", "histories"], quant="all pairs of parts, all URLs of the stated structure, all values over small alphabets",
 why="Twenty kinds of parts combine pairwise with each other and with failing writes at either step; tests sample none of the failures.",
 files=["src/types/rules/mappers.rs", "src/types/rules/conditions.rs", "src/types/url_part.rs"], mech=[("Mapper::SetPart, CopyPart, MovePart, ModifyPart, SetHost, Join", "src/types/rules/mappers.rs"), ("Condition::satisfied_by part and host conditions", "src/types/rules/conditions.rs")],
 bounds="96 URL shapes x 27 parts (729 pairs), values <=4 chars over small alphabets"),
dict(id="C06", title="HTML character references decode to exactly what the standard says",
 statement="Decoding HTML text replaces every named, decimal and hexadecimal character reference by exactly the character or characters the HTML standard gives for it, for every code point and every known name, and leaves all other text as it is. A reference that is unknown, malformed, unterminated or denotes a forbidden code point (surrogate, out of range, control, whitespace) is an error, never silently wrong text; no digit string, however long, panics or wraps around.",
 over=["inputs"], quant="all names of the entity table and all near misses within bounds, all digit strings up to the bound in both radixes, all short texts over the reference alphabet",
 why="2,125 names, 1.1 million code points and overflow at the number's end cannot be sampled by example tests.",
 files=["src/glue/parse/html/unescape.rs", SM], mech=[("parse_char_ref, parse_num_char_ref, unescape_text", "src/glue/parse/html/unescape.rs"), ("UnescapeHtmlText", SM)],
 bounds="all table names; unknown names of <=3 alphanumerics (4 thorough); <=7 symbolic decimal and <=6 hex digits plus long fixed ones; texts <=5 chars over the reference alphabet (7 thorough)"),
dict(id="C07", title="HTML attribute extraction finds exactly the element's own attribute",
 statement="Extracting an attribute from the start tag a text begins with gives exactly the value the HTML tokenizer gives the last attribute of that name (as documented): quoted, unquoted, empty or valueless, with any whitespace, in any position, its character references decoded; an attribute that is not there, a text that is no start tag and a tag that never ends are told apart and never yield another attribute's text. No text makes it panic.",
 over=["inputs"], quant="all short texts over the tag alphabet after each of the stated prefixes; all two- and three-attribute tags of the stated forms",
 why="The hand-written tokenizer has a state per character class; the failures sit in state transitions tests do not take.",
 files=["src/glue/parse/html/get_attribute.rs", SM], mech=[("get_attribute_value", "src/glue/parse/html/get_attribute.rs"), ("GetHtmlAttribute", SM)],
 bounds="texts of <=5 arbitrary characters over the tag alphabets (7 thorough) after the prefixes `<a `, `<a b=`, `<a b`; 2 attributes of all forms, 3 of seven forms"),
dict(id="C08", title="JavaScript string literals are read to exactly their value",
 statement="Reading the JavaScript string literal at the start of a text gives exactly the string ECMAScript says it denotes: simple escapes, \\xHH, \\uHHHH, \\u{...}, identity escapes and line continuations, ending at the matching unescaped quote and ignoring what follows. Malformed escapes, lone surrogates, code points out of range and texts that do not start with a quote are errors; nothing panics.",
 over=["inputs"], quant="all short texts over the literal alphabet, every ASCII escape character, all two-digit hex escapes, unicode escapes with symbolic digits",
 why="Every escape is its own path through a hand-written scanner; tests decode a handful.",
 files=["src/glue/parse/js/string_literal_prefix.rs", SM], mech=[("string_literal_prefix", "src/glue/parse/js/string_literal_prefix.rs"), ("GetJsStringLiteralPrefix", SM)],
 bounds="texts <=5 arbitrary characters of the literal alphabet (7 thorough); all \\c and \\xHH; \\u and \\u{} with fixed first and symbolic last digits"),
dict(id="C13", title="Parameter diffs and command-line options change exactly what they name",
 statement="Applying a ParamsDiff (or a sequence of them) to the parameters sets and unsets exactly the named flags, variables, sets, set members, maps, map entries, cache switches and HTTP client options, additions before removals, and leaves everything else as it was. Every command-line option about parameters, alone, combined and repeated, in long and short form, has exactly that effect; unusable ones (missing or extra values, keys without values) are refused; a command line with no such option changes nothing and one with any is never ignored.",
 over=["inputs", "histories"], quant="all subsets, presence/absence combinations and option sequences within bounds; symbolic values",
 why="Each option interacts with what is already there and with its own repetitions; no test covers diffs or these options in combination.",
 files=["src/types/config/params.rs", "src/types/map.rs", "src/glue/http_client_config.rs", "src/main.rs"], mech=[("ParamsDiff::apply", "src/types/config/params.rs"), ("ParamsDiffArgParser (clap), build, does_anything", "src/types/config/params.rs"), ("MapDiff::apply", "src/types/map.rs"), ("HttpClientConfigDiff::apply", "src/glue/http_client_config.rs")],
 features=["full"],
 bounds="3-name universes, sets and maps of <=2 elements, histories of <=3 diffs, <=2 repetitions of each option with <=3 values, command lines of <=2 options"),
    dict(id="C14", title="String sources yield exactly the documented text, nothing, or error",
        statement="Every string source (literals, joins, conditionals, fallbacks, maps, modified strings, extracted substrings, URL parts) yields exactly the text, the absence of a text, or the error its documentation defines from what its own operands yield: failures of an operand are neither swallowed nor replaced unless the source says so, an absent value stays distinct from an empty one, and only the operands the choice selects are consulted.",
        over=["inputs"], quant="all trees of string sources within the bounds, every outcome of every leaf, symbolic texts",
        why="Absent, empty and failed operands interact in every nested combination; tests cover almost none of it.",
        files=["src/types/string_source.rs"], mech=[("StringSource::get", "src/types/string_source.rs")],
        bounds="trees of depth 2 (3 thorough) over leaves that fail, are absent, borrowed or owned; texts <=4 characters"),
    dict(id="C15", title="Flags, variables and shared snippets see exactly their own scope",
        statement="A flag or variable reference reads exactly the place it names (parameters, scratchpad, arguments of the enclosing snippet call, task or job context) and fails when that place or the name does not exist where the documentation says it fails; scratchpad writes change exactly the named entry and nothing when they fail; and calling a shared (common) snippet runs exactly the snippet named, with exactly the arguments given, computed where the call is made, visible only inside that call and to no nested call, whose result and effects are passed on unchanged.",
        over=["inputs", "histories"], quant="all combinations of place, name, presence, call arguments and snippet outcomes within bounds",
        why="Scoping bugs show only when the same name exists in several places or calls nest; tests do not do that.",
        files=["src/types/flag_var_thing/flag.rs", "src/types/flag_var_thing/var.rs", "src/types/config/common_call.rs", "src/types/rules/mappers.rs", "src/types/rules.rs"],
        mech=[("FlagRef::get, VarRef::get", "src/types/flag_var_thing.rs"), ("CommonCall, CommonCallArgsSource::build", "src/types/config/common_call.rs"), ("SetScratchpadFlag/SetScratchpadVar/ModifyScratchpadVar", "src/types/rules/mappers.rs")],
        bounds="5 places, names over a 6-letter alphabet, 2 scratchpad writes, calls with <=2 flags and <=2 variables, nesting 2"),
    dict(id="C16", title="Lookups select exactly the entry their key names and run only that",
        statement="A map lookup gives the entry under exactly the given text, else the map's else entry; an absent value gives the null entry, else the else entry; nothing otherwise. Every rule, condition, mapper, modification and string source that dispatches through a map runs exactly the selected entry, once, and passes its outcome on; without an entry it does nothing, and a failing value is an error. Set membership is exact; a named partitioning is refused if a name or a value occurs twice and otherwise names exactly the partition of each value.",
        over=["inputs"], quant="all subsets of entries, values present, absent or failing, symbolic keys and values, every outcome of every entry",
        why="Keys, null and else entries interact in ways the sampled examples do not cover, and each dispatching construct has its own code.",
        files=["src/types/map.rs", "src/types/named_partitioning.rs", "src/types/rules.rs", "src/types/rules/mappers.rs", "src/types/rules/conditions.rs", "src/types/string_modification.rs", "src/types/string_source.rs", "src/types/string_matcher.rs"],
        mech=[("Map::get", "src/types/map.rs"), ("NamedPartitioning::try_from_iter/get_partition", "src/types/named_partitioning.rs"), ("PartMap, StringMap and kin", "src/types/rules.rs")],
        bounds="maps of <=5 entries (3 keys, null, else), keys and values <=2 characters, <=3 partitions of <=2 values"),
    dict(id="C17", title="Configuration text means what it says, wherever it is nested",
        statement="Every rule, condition, mapper, string source, modification, matcher, location, character matcher, regex, glob, URL part, flag and variable reference, params, params diff, HTTP setting and docs written as configuration text reads back as the same thing, alone or nested in a config. A short form (a bare string) means its documented long form; omitted fields mean their documented defaults; names, escapes and numbers survive unchanged. Unknown kinds and malformed text are refused without a crash, and so is a name given twice where duplicates are prevented. A task line starting with { or \" is JSON, any other is a URL.",
        over=["inputs"], quant="every variant of every configurable type, nested in configs and commons; texts with quotes, escapes, control and non-ASCII characters; symbolic text of 1 Unicode or 2 ASCII characters; all malformed texts up to 3 characters over JSON punctuation",
        why="A config is text; the serde layer (remote derives, untagged and flattened forms, string-or-object magic, defaults skipped when written) is code no unit test enumerates, and a config silently understood differently changes every cleaned URL.",
        files=["src/types/config.rs", "src/types/config/params.rs", "src/types/config/docs.rs", "src/types/config/commons.rs", "src/types/config/common_call.rs", "src/types/rules.rs", "src/types/rules/conditions.rs", "src/types/rules/mappers.rs", "src/types/string_source.rs", "src/types/string_modification.rs", "src/types/string_matcher.rs", "src/types/map.rs", "src/types/url_part.rs", "src/types/job/task_config.rs", "src/glue/glob.rs", "src/glue/regex.rs", "src/glue/http.rs", "src/glue/json.rs", "src/util/macros.rs"],
        mech=[("string_or_struct_magic", "src/util/macros.rs"), ("Rule (untagged Normal), Map, NamedPartitioning", "src/types/rules.rs"), ("duplicate prevention", "src/types/config/params.rs"), ("TaskConfig::from_str", "src/types/job/task_config.rs")],
        features=["full"], bounds="one configurable value of nesting depth <=4 per config; numbers of <=2 digits symbolic plus 0, 12, MIN, MAX; Map entries that are themselves the absent string source as null/else entry excluded (JSON null there means no entry)"),
    dict(id="C18", title="Every task of a job gets its own result, and a config's tests can be trusted",
        statement="A job yields exactly one task or error per item of its source, in order and on demand; each task runs the job's config on its own URL with its own context and the job's context, so its result depends on nothing another task did or failed to do, whatever the order tasks are run in; neither the config nor the job context changes. Running a config's tests passes if and only if every test of every set, under that set's params and context, yields exactly its stated URL.",
        over=["inputs", "histories"], quant="all jobs of valid, failing and unreadable tasks run as they come or in reverse, contexts present or absent, all combinations of passing, wrong and failing tests",
        why="Leaks between tasks need a particular sequence, and a test runner that passes wrongly hides every other bug; no existing test runs jobs of several tasks or a failing config test.",
        files=["src/types/job/job.rs", "src/types/job/task.rs", "src/types/job/task_config.rs", "src/types/job/task_state.rs", "src/types/config.rs", "src/testing.rs"],
        mech=[("Job::iter, TaskConfigsSource", "src/types/job/job.rs"), ("Task::do", "src/types/job/task.rs"), ("Config::apply/run_tests", "src/types/config.rs"), ("TestSet, Test", "src/testing.rs")],
        bounds="jobs of <=3 items (4 thorough) of 6 kinds, two orders of running; <=2 test sets of <=2 tests each of 5 kinds"),
    dict(id="C19", title="Percent-encoding, base64 and JSON pointers give exactly the standard result",
        statement="UrlEncode keeps exactly the characters of its alphabet (encodeURIComponent, encodeURI or ASCII alphanumerics) and writes every other byte as an upper-case percent escape; UrlDecode replaces exactly the well-formed escapes; Base64Encode and Base64Decode are RFC 4648 in the chosen alphabet and padding, refusing anything that is not exactly one encoding; decoding undoes encoding; JsonPointer gives exactly the string RFC 6901 names in valid JSON. Text that does not decode to valid UTF-8, or has no such value, is an error and stays unchanged.",
        over=["inputs"], quant="all short texts, every alphabet and padding mode, texts across the block sizes of the encoders, a pool of JSON documents and pointers",
        why="Redirect targets and tracking wrappers are unpacked by these; a wrong byte silently gives another URL, and no existing test decodes anything.",
        files=["src/types/string_modification.rs", "src/glue/base64.rs"],
        mech=[("UrlEncode/UrlDecode/UrlEncodeAlphabet", "src/types/string_modification.rs"), ("Base64Config", "src/glue/base64.rs"), ("JsonPointer", "src/types/string_modification.rs")],
        bounds="encoding: any 1 ASCII or wide char (2 thorough), 3 over a 5-letter alphabet; decoding: any 4 ASCII bytes, 5 (7) of 4 letters, escapes of any byte; base64: any <=4 ASCII bytes or <=3 to decode, tails of <=4 (8) symbols after 0, 4 or 32; JSON texts concrete but for one character"),
    dict(id="C20", title="Regexes and globs match and replace exactly what their pattern and options say",
        statement="A regex is compiled with exactly the options its flags or fields name (and only when needed, once); RegexFind gives the leftmost match, RegexCaptures and JoinAllRegexCaptures the expansion of the first or of every match, RegexReplace, ReplaceAll and Replacen replace the first, all or n matches and keep the text between them; no match, an invalid pattern or an absent argument is an error (or None for a source) and changes nothing. A glob matches exactly the whole texts its wildcards, classes and options describe. Compilation never shows in equality or in the written form.",
        over=["inputs"], quant="all short texts over each pattern's alphabet, all options, replacement templates with numbered, named, missing and literal references",
        why="Which options reach the matcher and how matches are walked shows only for particular combinations of pattern, option and text; no existing test applies a regex modification.",
        files=["src/glue/regex.rs", "src/glue/regex/regex_parts.rs", "src/glue/glob.rs", "src/types/string_modification.rs", "src/types/string_matcher.rs", "src/types/string_source.rs"],
        mech=[("RegexWrapper::get", "src/glue/regex.rs"), ("RegexParts::build, RegexConfig flags", "src/glue/regex/regex_parts.rs"), ("GlobWrapper::matches", "src/glue/glob.rs"), ("Regex modifications", "src/types/string_modification.rs")],
        features=["threads"], bounds="16 regexes and 13 globs of every basic construct, texts of <=3 characters (4 thorough), flag strings of <=2 letters over every initial setting; 2 threads with 2 delays"),
    dict(id="C21", title="The cache gives back exactly what was last stored, and spares the work",
        statement="Reading a category and key from the cache gives exactly the value (or stored absence) last written under that very category and key, and nothing if there was none, whatever else was written in between, through whichever clone, connection or, for a cache file, later process; a cache file can be used whatever point its creation was interrupted at, a path starting with file:// is the file after it, and a path where no file can be is an error. StringSource::Cache, CacheUrl and a cached redirect compute their value only when it is not read from the cache, store only successful results, read only if read_cache and write only if write_cache say so, and give the same result as computing would; a missing category or key is an error and computes nothing. All tasks of a job share its cache.",
        over=["inputs", "histories", "crash_points"], quant="all short histories of writes, reads, reconnections and reopenings over 2 categories x 2 keys, all short symbolic categories, keys and values, all flag combinations, cached and computed outcomes",
        why="What is read depends on the whole history of the store, across tasks and runs; no existing test touches the cache.",
        files=["src/glue/caching.rs", "src/types/string_source.rs", "src/types/rules/mappers.rs"],
        mech=[("Cache, InnerCache, CachePath", "src/glue/caching.rs"), ("StringSource::Cache", "src/types/string_source.rs"), ("Mapper::CacheUrl, Mapper::ExpandRedirect (cache hit)", "src/types/rules/mappers.rs")], features=["full", "sqlite"],
        bounds="histories of <=2 operations and a final read of everything (3 thorough); files: 2 operations (4 thorough); categories, keys and values of <=1 symbolic byte (keys 2 thorough) over an alphabet with quotes, NUL, case and wildcards; 2 threads with 1 delay (2 thorough)"),
    dict(id="C22", title="The command line answers every input in its place, however its threads run",
        statement="The nth line of standard output (or element of the JSON) is the result of the nth input, arguments before lines of standard input, and is empty (or an error object) exactly when that input could not be read, parsed or cleaned; the nth non-empty line of standard error then describes the nth failure; and the exit code is 0, 1 or 2 as none, all or some failed. This holds, and the program ends, for every number of threads and every schedule of them. Params diffs apply in the order given and those of the command line last; an unreadable config, diff, context or test file, a failing test or an unsuitable config ends the program with an error and without cleaning anything.",
        over=["schedules", "inputs", "configurations"], quant="all schedules within the delay bound of the program's own threads, all short lists of valid, failing, malformed, empty and non-UTF-8 inputs as arguments and as lines, thread counts, line ends, both output formats",
        why="Which worker finishes first differs from run to run, so a result printed in another's place, a lost line or a deadlock shows only under some schedules; no existing test runs the program.",
        files=["src/main.rs", "src/types/config/params.rs", "src/types/job/task_config.rs", "src/types/config.rs"],
        mech=[("main: task getter, worker and stdout threads", "src/main.rs"), ("ParamsDiffArgParser, ParamsDiff::apply", "src/types/config/params.rs"), ("Config::load_from_file, assert_suitability", "src/types/config.rs")], features=["cli"],
        bounds="<=2 arguments and <=2 lines (<=3 inputs) of 6 kinds, 1-3 workers; delays at atomic operations, locks and system calls: 1 for 3 inputs of 3 kinds with 2-3 workers (2 thorough), 2 for a fixed list of 3 and for no input; 70 lines and lines longer than the standard buffers under the first schedule"),
    dict(id="C23", title="A command gets exactly what its config says, and its output comes back exactly",
        statement="A command is run once, as exactly the program, arguments (whatever they contain), added environment variables, working directory and standard input that its config and the task give; if one of these cannot be had it is an error, and without usable arguments, variables, program or directory nothing is run. Its output is exactly what it wrote (an error if that is no text), its exit code exactly what it ended with, a signal an error, a URL the text before the final line ends. However much it reads and writes, in whatever order, the call returns.",
        over=["inputs", "schedules"], quant="all short arguments, variables, inputs and outputs, all exit codes, all orders in which a child reads and writes more or less than a pipe holds, within the delay bound",
        why="Quoting, encoding and the order in which two processes fill the pipes between them show only for particular texts and sizes; no existing test runs a command.",
        files=["src/glue/command.rs", "src/types/string_source.rs"],
        mech=[("CommandConfig::build, exit_code, output, get_url", "src/glue/command.rs"), ("StringSource::CommandOutput", "src/types/string_source.rs")], features=["threads"],
        bounds="<=3 arguments of <=1 character (one of <=3) of an alphabet of shell metacharacters, or of 2 Unicode characters; outputs of <=3 arbitrary bytes; children that read and write up to 9/4 of what a pipe holds in 5 orders, 1 delay; the kernel's pipes and process creation are modelled (engine/env/libc.c) and validated against real processes"),
]
NOT_APPLICABLE = []
NOTES = "Each check rebuilds /repo's crate with the harness crate, extracts rustc's LLVM IR, and executes every harness of the property symbolically; see DESIGN.md."
