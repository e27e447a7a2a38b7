#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "A URL's cached host details never go stale",
  "After any sequence of successful or failed edits to a URL (scheme, host, domain parts, port, userinfo, path, query, fragment), the host details it reports (kind of host, IP address, domain-part boundaries, fully-qualified flag) are exactly those of the host in its current serialization. An edit that reports an error leaves the URL, byte for byte, as it was.",
  ["histories", "inputs"], "for all starting URLs (special and non-special schemes, domains, IPv4/IPv6, opaque and empty hosts) and all sequences of edits with arbitrary arguments",
  "The unit tests call a handful of setters once on a handful of https URLs; nothing re-derives the cached details after a chain of edits or after a rejected edit.",
  ["src/types/better_url.rs", "src/types/better_url/host_details.rs", "src/types/better_url/host_details/domain.rs"],
  [("BetterUrl setters that refresh host_details", "src/types/better_url.rs"), ("HostDetails::from_host_str / DomainDetails", "src/types/better_url/host_details.rs")],
  [("host_details", "domain-part boundaries cached beside the URL", "src/types/better_url.rs")])

p("P02", "Domains decompose and recompose according to the public suffix list",
  "For every URL with a domain host, the reported subdomain, registrable domain, middle, non-suffix, suffix and trailing-period flag are those the public suffix list defines, they concatenate back to the host, and they are absent together for hosts that are not domains. Setting one of these parts replaces exactly that part and leaves the others, the rest of the URL, and the trailing period as they were.",
  ["inputs", "histories"], "for all hosts (multi-level and private suffixes, bare suffixes, single labels, punycode, trailing period, IPs) and all new part values",
  "Existing tests look at a few example.com / example.co.uk URLs; suffix rules, bare suffixes, trailing periods and their combinations with each setter are not sampled.",
  ["src/types/better_url.rs", "src/types/better_url/host_details/domain.rs", "src/types/url_part.rs"],
  [("DomainDetails bounds", "src/types/better_url/host_details/domain.rs"), ("domain part setters", "src/types/better_url.rs"), ("UrlPart domain variants", "src/types/url_part.rs")])

p("P03", "Reading and writing URL parts obey get/set laws with a strict frame",
  "For every URL part kind, reading it returns what the URL standard's serialization of the URL says; writing a value either fails and leaves the URL unchanged, or succeeds so that reading that part back gives the written value (up to the URL standard's own normalisation) while every other independent component of the URL keeps its value. A negative index addresses the same element as the corresponding non-negative one.",
  ["inputs"], "for all URLs, all part kinds with all indexes (negative, boundary, out of range) and all written values including none, empty, non-ASCII and delimiter characters",
  "The part tests check fixed URLs with friendly values; the frame condition and rejected writes over arbitrary values and indexes are unsampled.",
  ["src/types/url_part.rs", "src/types/better_url.rs", "src/util.rs"],
  [("UrlPart::get / UrlPart::set", "src/types/url_part.rs"), ("neg_index helpers", "src/util.rs")])

p("P04", "Query parameter edits touch only the selected parameters",
  "Removing, allow-listing (by name or by matcher), reading, or setting query parameters affects exactly the selected occurrences: every other pair keeps its text (and so its name and value), multiplicity and relative order, a query is dropped entirely exactly when no pair is left, and a URL without a query stays without one. The same holds for the string-level versions that filter an arbitrary query-shaped string such as a fragment.",
  ["inputs"], "for all queries (repeated names, empty names and values, percent- and plus-encoding, invalid UTF-8 escapes, missing '=') and all name lists, matchers and selectors",
  "Existing tests use short well-formed queries with distinct ASCII names.",
  ["src/types/rules/mappers.rs", "src/types/url_part.rs", "src/types/string_modification.rs"],
  [("Mapper query variants", "src/types/rules/mappers.rs"), ("UrlPart::QueryParam / QueryParamSelector", "src/types/url_part.rs"), ("StringModification query variants", "src/types/string_modification.rs")])

p("P05", "Path and domain segment edits behave like edits of a list of segments",
  "Reading, replacing, removing, or inserting the n-th path, subdomain, domain or suffix segment (counting from either end) gives the URL whose segment list is the corresponding list edit of the original segment list, with all other segments, including empty ones, preserved. An index outside the list reads as absent and, when written, is an error that changes nothing.",
  ["inputs", "histories"], "for all paths and domains (leading, trailing and repeated empty segments included), all indexes and values, and sequences of such edits",
  "Existing tests use two- or three-segment paths without empty segments and single edits.",
  ["src/types/url_part.rs", "src/util.rs"],
  [("PathSegment / BeforePathSegment / AfterPathSegment / NextPathSegment", "src/types/url_part.rs"), ("set_rel_segment, neg_nth, neg_range", "src/util.rs")])

p("P06", "Conditions evaluate to their documented truth value",
  "Evaluating any condition on any task state gives the documented truth value: the logical operators combine and short-circuit in order, the error-handling forms turn exactly the documented failures into a verdict or into the next alternative, and each leaf tests exactly what its documentation says. Evaluation never changes the task.",
  ["inputs", "programs"], "for all condition trees, URLs, params, contexts, scratchpads and commons",
  "Tests evaluate a few leaves on one URL; operator nesting with errors and the combination with state are not covered.",
  ["src/types/rules/conditions.rs"], [("Condition::satisfied_by", "src/types/rules/conditions.rs")])

p("P07", "String and character matchers decide exactly their documented language",
  "For every matcher, string location and character matcher, and every string, the verdict is the documented one (including byte/character offsets, negative indexes, ranges that are out of bounds or off a character boundary, and segments), logical and error-handling forms combine in order, and an error is reported exactly where the documentation says.",
  ["inputs", "programs"], "for all matcher trees and all haystacks and needles including empty and multi-byte strings",
  "Doc tests check a couple of ASCII haystacks per location variant; matchers have almost no tests.",
  ["src/types/string_matcher.rs", "src/types/string_location.rs", "src/types/char_matcher.rs"],
  [("StringMatcher::satisfied_by", "src/types/string_matcher.rs"), ("StringLocation::satisfied_by", "src/types/string_location.rs"), ("CharMatcher::satisfied_by", "src/types/char_matcher.rs")])

p("P08", "String modifications compute their documented result or report an error",
  "Applying any string modification to any string gives exactly the documented new string, and where the documentation says an edit is impossible (missing prefix, suffix, segment, index, boundary, match, delimiter, or decodable text) it reports an error instead. Error-handling and sequencing forms behave as documented, including what a partly completed sequence leaves behind.",
  ["inputs", "programs"], "for all modification trees and all strings including empty, multi-byte and delimiter-only ones, with all indexes and ranges",
  "Doc tests check one or two ASCII strings per variant.",
  ["src/types/string_modification.rs", "src/util.rs"], [("StringModification::apply", "src/types/string_modification.rs"), ("neg_index / neg_range", "src/util.rs")])

p("P09", "String sources yield the documented value from the right scope",
  "Evaluating any string source yields the documented string, absence, or error: variables and flags are read from exactly the scope named, maps and partitions are looked up in params with their documented fallbacks for missing and null keys, and conditional, joining, extracting and error-handling forms combine their inputs as documented. Evaluation never changes the task.",
  ["inputs", "programs"], "for all string source trees and all task states (scopes that define the same name differently, missing names, null keys)",
  "Doc tests check each variant once with one scope populated.",
  ["src/types/string_source.rs", "src/types/flag_var_thing/flag.rs", "src/types/flag_var_thing/var.rs", "src/types/map.rs", "src/types/named_partitioning.rs"],
  [("StringSource::get", "src/types/string_source.rs"), ("VarRef::get / FlagRef::get", "src/types/flag_var_thing"), ("Map::get", "src/types/map.rs"), ("NamedPartitioning::get_partition", "src/types/named_partitioning.rs")])

p("P10", "Mappers change the task exactly as documented and undo what they promise",
  "Applying any mapper leaves the URL and scratchpad in exactly the documented state and reports an error exactly when documented. In particular a mapper that promises to revert on error restores both URL and scratchpad, sequences stop at the first error keeping the earlier changes, alternatives run only after the previous one failed, and single-step edits that fail change nothing.",
  ["inputs", "programs", "fault_sequences"], "for all mapper trees and task states, with failures injected at any step",
  "Tests cover mostly successful single mappers; failure in the middle of nested sequences is not covered.",
  ["src/types/rules/mappers.rs", "src/types/job/task_scratchpad.rs"], [("Mapper::apply", "src/types/rules/mappers.rs")])

p("P11", "Rules select and repeat mappers as documented",
  "Applying any rule tree to any task runs exactly the mappers whose conditions hold, in order: maps pick the entry for the looked-up key or the documented fallback, shared conditions guard their whole group, an unmet condition is not a failure, and errors stop the run. A repeating rule stops as soon as a round leaves URL and scratchpad unchanged, and never runs more than its limit of rounds.",
  ["inputs", "programs"], "for all rule trees and task states, including rules that oscillate or converge slowly",
  "Tests run a few single rules; repetition limits and convergence over both URL and scratchpad are not covered.",
  ["src/types/rules.rs"], [("Rules::apply / Rule::apply", "src/types/rules.rs")])

p("P12", "Common calls see exactly the arguments given to them",
  "Calling a named common condition, mapper, string source, string matcher, string modification (or rule list) behaves like its definition evaluated in the caller's task with precisely the flags, vars and other arguments of that call visible in the common scope. Arguments are evaluated in the caller's scope, nested calls neither inherit nor leak arguments, effects on URL and scratchpad persist, and an unknown name is an error that changes nothing.",
  ["inputs", "programs"], "for all commons definitions (calling each other acyclically), call arguments and task states",
  "Doc tests call one common with one argument; nested calls with shadowed arguments are not covered.",
  ["src/types/config/common_call.rs", "src/types/config/commons.rs", "src/types/rules/mappers.rs", "src/types/string_source.rs"],
  [("CommonCallArgsSource::build", "src/types/config/common_call.rs"), ("Common variants", "src/types/rules/mappers.rs")])

p("P13", "No input or config can make cleaning panic",
  "For every config that deserializes and every task, cleaning ends with a cleaned URL or an error value and never panics, aborts or overflows. This covers hostile URLs, page text, escapes, indexes and ranges, and whatever a server or command answers, and holds for the helper parsers too; only exhausting the memory or the stack (values grown without bound, commons calling themselves without end) is excepted, as the panic policy says.",
  ["inputs", "programs", "configurations"], "for all deserializable configs (bounded depth, repeating rules bounded) and all parseable task URLs, vars and helper-parser inputs",
  "The panic policy is a claim about every config and URL; tests only run well-behaved ones.",
  ["src/types/job/task.rs", "src/types/better_url.rs", "src/types/string_modification.rs", "src/glue/parse/html/get_attribute.rs", "src/glue/http.rs", "src/glue/command.rs", "src/util.rs"],
  [("Task::do", "src/types/job/task.rs"), ("checked slicing and indexing", "src/util.rs")])

p("P14", "Configs survive serialization and their shorthands mean the long form",
  "Serializing any config, params, diff, task or job description and reading it back gives an equal value, every documented shorthand (a bare string or null in place of a structure) reads as its long form, and fields at their default may be left out. Text that gives a set, map or partition the same entry twice where duplicates are documented as refused is rejected rather than silently merged.",
  ["inputs", "configurations"], "for all values of the configuration types",
  "Only the default config and a few example configs are ever deserialized, and only one direction is tested.",
  ["src/types/config.rs", "src/util/macros.rs", "src/types/named_partitioning.rs", "src/types/config/params.rs", "src/glue/json.rs"],
  [("serde derives and string_or_struct_magic", "src/util/macros.rs"), ("MapPreventDuplicates / SetPreventDuplicates", "src/types/config/params.rs")])

p("P15", "The cache returns the last value written for a key",
  "A cache read returns exactly the value of the most recent write to the same category and key (a stored absent value being distinct from no entry), unaffected by other categories and keys. This holds across clones and threads sharing a cache, across disconnecting and reopening a file-backed cache from another handle or process, and after a crash at any point of creating the file.",
  ["histories", "schedules", "crash_points"], "for all histories of reads, writes, disconnects and reopenings over arbitrary strings, and for concurrent use of one cache file",
  "No test writes the same key twice, reopens a cache file, or shares it.",
  ["src/glue/caching.rs"], [("InnerCache::read / write / connect", "src/glue/caching.rs"), ("Cache mutex", "src/glue/caching.rs")],
  [("cache table", "rows of (category, key, value)", "src/glue/caching.rs")])

p("P16", "Cached work is done at most once and failures are never cached",
  "A cached string source, cached URL mapping or redirect expansion uses the stored result without redoing the work when an entry exists, otherwise does the work once and stores its result under the documented category and key, and stores nothing when the work fails. Turning cache reading off always redoes the work, turning cache writing off never stores; a cache that is needed and cannot be used is an error, and one that is switched off is not touched.",
  ["histories", "fault_sequences"], "for all sequences of cleaning tasks over a shared cache, with failing work injected and both switches in any position",
  "Needs a server or a counter behind the cached work and a history of calls; no test has one.",
  ["src/types/string_source.rs", "src/types/rules/mappers.rs", "src/glue/caching.rs"],
  [("StringSource::Cache", "src/types/string_source.rs"), ("Mapper::CacheUrl / Mapper::ExpandRedirect", "src/types/rules/mappers.rs")])

p("P17", "Params diffs and command-line params apply exactly the requested changes",
  "Applying a params diff adds, sets, and removes exactly the named flags, vars, set and map entries and HTTP client settings, removals winning over insertions, and leaves everything else unchanged. Command-line options describe the same change as the diff they stand for, repeated options accumulate, no given option is ignored, and malformed option lists are rejected.",
  ["inputs", "configurations"], "for all params, diffs, and command lines",
  "No test applies a diff with more than one entry or parses repeated options.",
  ["src/types/config/params.rs", "src/types/map.rs", "src/glue/http_client_config.rs"],
  [("ParamsDiff::apply", "src/types/config/params.rs"), ("ParamsDiffArgParser::build / does_anything", "src/types/config/params.rs"), ("MapDiff::apply", "src/types/map.rs"), ("HttpClientConfigDiff::apply", "src/glue/http_client_config.rs")])

p("P18", "The command line keeps inputs, outputs and errors aligned",
  "For every list of tasks given as arguments and lines of standard input, the n-th output line belongs to the n-th task, is empty exactly when that task failed, and the n-th error message belongs to the n-th empty line; JSON output lists the same results in the same order as valid JSON. The exit status tells whether any task succeeded or failed, and the number of threads changes none of this. A config, params diff or job context that cannot be read stops the program with a failing status before any result is printed.",
  ["inputs", "configurations", "schedules"], "for all mixes of valid, failing and malformed tasks, output modes and thread counts",
  "The CLI is only driven with one well-formed URL at a time and one thread count.",
  ["src/main.rs"], [("worker round-robin and ordered collection", "src/main.rs"), ("exit code selection", "src/main.rs")],
  observe=["stdout", "stderr", "exit status"])

p("P19", "Tasks are isolated: a batch gives what each task gives alone",
  "With caching and external effects aside, the result of a task depends only on the config, the params, the job context and that task: not on the other tasks of the job, their order, their failures, or on earlier jobs with the same config. A failing or malformed task affects only its own result.",
  ["inputs", "histories", "schedules"], "for all configs and batches of tasks, in any order and on any number of threads",
  "Tests run single tasks on fresh state.",
  ["src/types/job/job.rs", "src/types/job/task.rs", "src/types/job/task_state.rs"],
  [("Job iterator", "src/types/job/job.rs"), ("JobConfig / Task construction with fresh scratchpad", "src/types/job/task.rs")])

p("P20", "All spellings of a task mean the same task",
  "A task given as a bare URL, as a JSON string, as a JSON object with a context, or built in code denotes the same URL and context in every interface that accepts it, and text that is none of these is rejected as a failing task without affecting others. The URL and context variables visible to the rules are exactly those given.",
  ["inputs"], "for all URLs and contexts, in all accepted spellings and interfaces",
  "Tests only use bare https URLs.",
  ["src/types/job/task_config.rs", "src/types/job/task_context.rs", "src/types/job/job_context.rs", "src/main.rs"],
  [("TaskConfig FromStr / Deserialize", "src/types/job/task_config.rs")])

p("P21", "The default config changes nothing but tracking noise on ordinary sites",
  "For every http(s) URL on a site the default config has no special rules for, cleaning with the default config upgrades http to https and removes only a www subdomain, the trailing host period, the listed tracking parameters (from query and tracking-style fragments), the language parameter, and an empty query or fragment, each unless its documented flag or exemption applies. Everything else, including IP and single-label hosts, ports, paths and the order and values of other parameters, is preserved, no error occurs and no network is used.",
  ["inputs", "configurations"], "for all http(s) URLs outside the listed sites and all combinations of the documented universal flags",
  "tests.json samples a few URLs per listed site and almost none for unlisted sites.",
  ["default-config.json", "src/types/rules/mappers.rs"], [("universal common mapper", "default-config.json")])

p("P22", "Default-config cleaning is error-free, deterministic, idempotent and offline",
  "Cleaning any semantically valid URL with the default config and no-network set makes no request, succeeds, gives the same result every time, and cleaning the result again changes nothing. The only links that may fail are those of redirect services whose destination is missing or not a URL. This holds under any combination of documented flags that do not request opposite rewrites, and flags for one site do not change URLs of unrelated sites.",
  ["inputs", "configurations"], "for all valid URLs on listed and unlisted sites and all subsets of non-conflicting flags",
  "tests.json checks single passes over fixed URLs.",
  ["default-config.json", "src/types/rules.rs"], [("default config rules", "default-config.json")])

p("P23", "HTML text and attributes are decoded as the HTML standard says",
  "Unescaping HTML text replaces every named and numeric character reference by the characters the HTML standard assigns to it and leaves other text unchanged; malformed references (unknown, unterminated, out of range, or, as documented, numeric ones to control characters the standard remaps or forbids) are errors. Getting an attribute from a start tag returns the decoded value of the last attribute of that name wherever it stands among quoted, unquoted, valueless and non-ASCII neighbours, and reports absence only when the tag does not have it.",
  ["inputs"], "for all text and all well-formed start tags, and malformed ones",
  "The doc tests use one or two ASCII attributes and three references out of two thousand.",
  ["src/glue/parse/html/unescape.rs", "src/glue/parse/html/get_attribute.rs"],
  [("unescape_text / parse_char_ref", "src/glue/parse/html/unescape.rs"), ("get_attribute_value state machine", "src/glue/parse/html/get_attribute.rs")])

p("P24", "JavaScript string literals are decoded as JavaScript would",
  "For every text that starts with a single- or double-quoted JavaScript string literal written with the supported escapes, decoding gives the string the literal denotes and ignores what follows the closing quote. Text with a broken escape is an error.",
  ["inputs"], "for all strings, all ways of escaping their characters, and all trailing text",
  "The doc test decodes six fixed literals.",
  ["src/glue/parse/js/string_literal_prefix.rs"], [("string_literal_prefix state machine", "src/glue/parse/js/string_literal_prefix.rs")])

p("P25", "Encoders and decoders are inverse and extractors agree with their formats",
  "Base64- or percent-encoding any string and decoding it with the same settings returns the original, encoded text uses only the alphabet and padding asked for, and text that is not valid for the settings is an error. Extracting by JSON pointer returns the string a standard JSON reader finds at that pointer, or an error.",
  ["inputs", "configurations"], "for all strings, alphabets, padding modes, JSON documents and pointers",
  "Tests encode one fixed string per variant.",
  ["src/glue/base64.rs", "src/types/string_modification.rs"], [("Base64Config::build", "src/glue/base64.rs"), ("UrlEncode/UrlDecode/Base64/JsonPointer modifications", "src/types/string_modification.rs")])

p("P26", "Regexes and globs honour their options however they are written or shared",
  "A regex or glob read from a config matches exactly as the underlying engine does with the written pattern and each written option, no option influencing another, whether written as a string or with options, first used or reused, or used from many threads at once. Flag letters set, add, remove and list exactly the options they name.",
  ["inputs", "configurations", "schedules"], "for all patterns, option combinations, flag strings and haystacks, and concurrent first uses",
  "Tests check one flag and one glob option.",
  ["src/glue/regex.rs", "src/glue/regex/regex_parts.rs", "src/glue/glob.rs"], [("RegexParts::build", "src/glue/regex/regex_parts.rs"), ("RegexWrapper lazy cell", "src/glue/regex.rs"), ("GlobWrapper", "src/glue/glob.rs")])

p("P27", "HTTP requests and redirects happen as configured",
  "An HTTP request made for a string source sends exactly the configured method, URL, headers (default ones included, none-valued ones left out) and body, obeys the configured redirect and client settings after applying the request's own overrides, and returns exactly the requested part of the response or an error. Expanding a redirect yields the target the server named, resolved against the request, and sends nothing more.",
  ["inputs", "configurations", "fault_sequences"], "for all request configurations, client settings and overrides, and server responses including failures",
  "No offline test makes a request.",
  ["src/glue/http.rs", "src/glue/http_client_config.rs", "src/types/rules/mappers.rs", "src/types/job/task_state.rs"],
  [("RequestConfig::make / ResponseHandler", "src/glue/http.rs"), ("HttpClientConfig::make / HttpClientConfigDiff::apply", "src/glue/http_client_config.rs"), ("Mapper::ExpandRedirect", "src/types/rules/mappers.rs")])

p("P28", "Commands run with exactly the given inputs and their output comes back whole",
  "A configured command runs the named program with exactly the given arguments, environment additions, working directory and standard input, and its complete standard output (or exit code) is returned whatever the sizes involved. A command without configured input gets none of the caller's. Output that is not text, a program that cannot run, a missing value, and (where the exit code is asked for) death by signal are errors.",
  ["inputs", "configurations"], "for all argument, environment and input strings and sizes, and all output behaviours of the program",
  "No test runs a command.",
  ["src/glue/command.rs"], [("CommandConfig::build / output / exit_code", "src/glue/command.rs")])

p("P29", "The suitability and self-test gates accept exactly what they should",
  "The suitability check rejects a config if and only if something unsuitable (a debugging or external-command element, an uncompilable regex, an undocumented set, map, partition, flag or variable where documentation is required) occurs anywhere inside it, however deeply nested. The test runner succeeds exactly when every listed test's actual result equals its expectation.",
  ["configurations", "programs"], "for all configs with or without an unsuitable element planted at any position, and all test files",
  "The project only runs the gates on its own passing config and tests.",
  ["src/util/suitability.rs", "url-cleaner-macros/src/suitability.rs", "src/testing.rs", "src/main.rs"],
  [("Suitability derive", "url-cleaner-macros/src/suitability.rs"), ("Tests::do", "src/testing.rs")])

p("P30", "Debugging elements only observe",
  "Wrapping any element of a config in its debugging variant, anywhere and any number of times, changes neither what the element evaluates to, nor the error it gives, nor what it does to the task, nor anything the program writes to standard output or its exit code.",
  ["configurations", "inputs"], "for all configs, all sets of wrapped positions, and all tasks",
  "No test uses a debugging element.",
  ["src/types/rules/conditions.rs", "src/types/rules/mappers.rs", "src/types/string_source.rs", "src/types/string_modification.rs", "src/types/string_matcher.rs", "src/types/string_location.rs", "src/types/char_matcher.rs", "src/types/url_part.rs"],
  [("Debug variants", "src/types/rules/mappers.rs"), ("UrlPart::get / UrlPart::set", "src/types/url_part.rs")])

p("P31", "The default config leads where its documentation says it leads",
  "With the shipped default config and no network, a link of a supported redirect service that carries its destination (however deeply such links are nested, and whatever the destination contains) is cleaned to exactly what cleaning the destination itself gives; alternative addresses of a page (mirrors, short hosts, legacy paths, embed fixers) are cleaned to what the page's own address is cleaned to; each documented flag makes the documented rewrite, with the documented variable choosing the instance, and only when set; and the documented task variables of the page (redirect shortcut, handle, contact info) are believed only on the documented pages.",
  ["inputs", "configurations"], "for all destinations, nestings, pages and flags of the documented services",
  "The project's tests have about one fixed link per service, none nested, and few with flags, variables or awkward destinations.",
  ["default-config.json", "README.md"], [("the default config's rules", "default-config.json"), ("StringModification / StringSource / UrlPart they are made of", "src/types/string_modification.rs")])

p("P32", "Known sites lose exactly the noise listed for them",
  "With the shipped default config and no network, each site it lists loses exactly the query parameters listed for it, on exactly the pages they are listed for: nothing else of the query, its order, its spelling, the path or the fragment changes, other pages, subdomains outside the entry and look-alike hosts (and look-alike parameter names) are left alone; path and fragment noise of the listed sites goes the same way.",
  ["inputs", "configurations"], "for all listed sites and pages, all queries, and hosts and names near the listed ones",
  "The project's tests have one fixed link for some of the sites.",
  ["default-config.json"], [("the per-site rules (by RegDomain, HostWithoutWWWDotPrefixAndFqdnPeriod, DomainMiddle)", "default-config.json"), ("RemoveQueryParams / AllowQueryParams and their matchers", "src/types/rules/mappers.rs")])

p("P33", "Short links are followed by asking only their own service, once",
  "With the shipped default config and the network available, a link of each listed shortener (and each listed service that shows the destination in its page or API) is cleaned to exactly what its destination is cleaned to, through any chain of such links; the only requests made are one per link of the chain, to that service, over https unless upgrading is off, without tracking parameters, cookies or referrer; with the cache, cleaning it again makes no request and gives the same; an answer that names no destination is an error and is not remembered; other pages, look-alike hosts, and everything under no-network make no request at all.",
  ["inputs", "histories", "fault_sequences"], "for all listed services, chains, destinations, ways to answer and failures",
  "The project's network tests need the real services and are not run; six links.",
  ["default-config.json", "src/types/rules/mappers.rs"], [("the redirect rules and sets of the default config", "default-config.json"), ("Mapper::ExpandRedirect / CacheUrl", "src/types/rules/mappers.rs"), ("StringSource::HttpRequest / Cache", "src/types/string_source.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
