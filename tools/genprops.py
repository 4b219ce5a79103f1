#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent use is race-free and equals sequential use",
"After a bundle, catalog, localizer, plural rule or humanizer has been created, any number of goroutines may use it at once (create localizers, look up singular/plural messages, format, query languages and domains, humanize), and independent objects may be created, decoded and encoded at the same time. No such use is a data race, deadlocks or crashes, and every call returns exactly what the same call returns when nothing else is running.",
["schedules"],"every interleaving of read-side API calls from any number of goroutines on shared bundles, localizers, catalogs, rules and humanizers",
"The tests are almost entirely single threaded; no schedule is explored and nothing compares concurrent results with sequential ones.",
["bundle.go","localizer.go","locale.go","utils.go","catalog/po.go","catalog/json.go","catalog/poplural/rule.go","catalog/cldrplural/cldr.go","humanize/humanizer.go","humanize/date.go","humanize/dates.go"],
[("bundle, locale and catalog are immutable after NewBundle","bundle.go NewBundle"),("plural functions are pure","catalog/poplural, catalog/cldrplural"),("humanizer keeps only read-only tables","humanize/humanizer.go")],
["return values of all public read-side calls","race detector reports of a -race build"])

p("C02","Callers cannot alter loaded state through values passed in or out",
"Values handed out by a bundle, localizer or catalog (message maps, translations, domain and language lists) and values handed in when creating them (message maps, option slices, locale data) are copies: changing them afterwards never changes what any later lookup, listing or encoding returns. The copies handed out are complete, i.e. they equal the loaded content at the time of the call, and read-only operations (lookup, encode/marshal, rule evaluation) leave the content of their arguments unchanged (PO encoding may sort reference and flag lists).",
["histories","inputs"],"every sequence of obtaining, mutating and re-reading exported values, for every catalog content",
"The tests check a copy on one or two literal messages and never for gettext catalogs with content; histories that mutate and re-read are not explored.",
["bundle.go","localizer.go","catalog/po.go","catalog/json.go","catalog/json_encoder.go","catalog/po/encoder.go","humanize/humanizer.go","humanize/locale.go"],
[("slices.Clone / maps.Clone in accessors","bundle.go Domains, catalog/po.go Messages/Translations/Clone, catalog/json.go Messages/Clone"),("deep copy on construction","catalog/json.go NewJSONCatalogWithMessages")],
["Messages(), Translations(), Clone(), Domains(), SupportedLanguages(), Lookup results after mutation"])

p("C03","Lookups resolve locale, then fallback, then source text, exactly by key",
"Every lookup method (Get/DGet/NGet/PGet/NPGet/DNPGet ... and their formatting variants, on Localizer, on KeyLocalizer and via Localize) returns the non-empty translation stored for exactly the requested domain, context and message id in the localizer's language; if there is none, the one of the fallback language; if there is none either, the source text passed in (singular or plural chosen by the source language's plural rule). A method without a domain uses the localizer's default domain, one without a context uses the empty context, and a translation of any other domain, context, id or language is never returned.",
["inputs","configurations"],"every set of loaded catalogs, source/fallback/default-domain configuration, language, and every (method, domain, context, id, plural, n) request",
"The tests ask for a handful of fixed messages in two fixed bundles; the cross product of method, missing domain/context/message, fallback and source configuration is not covered.",
["localizer.go","locale.go","bundle.go","catalog/po.go","catalog/json.go"],
[("two-step lookup with fallback locale and source locale","localizer.go lookupSingularTranslation, lookupPluralTranslation"),("catalog maps keyed by context and id","catalog/po.go getMessage, catalog/json.go getTranslation")],
["return value of every lookup method compared with a reference model over the same catalogs"],
[("domainCatalogs","catalog per domain of a language","locale.go")])

p("C04","A lookup error is reported if and only if the language had no translation",
"LocalizeWithError returns a nil error exactly when the localizer's own language delivered the text (a stored translation, or the source text when the source language itself was selected); otherwise it returns a non-nil error together with the best available text, and the error tells which domain, context, message or plural form is missing. Localize returns the same text, nil input never panics, and LocalizeError returns nil for nil, a localize.Error carrying the translation and wrapping the original error when a translation exists, and the unchanged original error otherwise, using the configured error context and the current default domain for plain errors.",
["inputs","configurations"],"every bundle configuration and every Localizable or error value, including nested/wrapped errors",
"The tests try a few messages; the coupling between text and error over all miss kinds (domain, context, id, plural form, locale) and configurations is not checked.",
["localizer.go","localize/error.go","localize/types.go","locale.go","catalog/catalog.go"],
[("errA of the first lookup is returned although a fallback text is delivered","localizer.go"),("localize.Error wraps","localize/error.go")],
["(text, error) of LocalizeWithError, errors.Is/As/Unwrap of LocalizeError"])

p("C05","The missing-translation callback fires once per missing entry, never on hits",
"When a missing-translation callback is installed, each lookup calls it exactly once for every language (the localizer's, then a different fallback language) that was consulted and could not deliver, with an error naming that language and the requested domain, context and message; a lookup that is answered by the localizer's language, and every lookup in the source language (with a number that can be interpreted), calls it not at all; a plural lookup whose number cannot be interpreted is reported at least once, also in the source language. During bundle creation it is called for every optional language or domain that is skipped because nothing was found, and whether a callback is installed never changes any returned text or error.",
["inputs","configurations","histories"],"every bundle configuration, catalog content and sequence of lookups, with and without a callback",
"One test counts calls on one message; the number and content of events over histories of lookups is not checked.",
["locale.go","localizer.go","bundle.go","catalog/po.go","catalog/json.go"],
[("missingCallback invoked next to every returned lookup error","locale.go"),("missingCallback during preload","bundle.go preloadLanguages, createLocale")],
["recorded callback event log per call"])

p("C06","Localizers get the best matching loaded language",
"A localizer created from any list of language tags, language strings or Accept-Language headers uses the loaded language which the bundle's language matcher selects for that preference list, reports it from Language, and HasLocale is true exactly when the matcher found one; unusable entries in the list are ignored without affecting the others. If nothing matches, the fallback language (else the source language) is used; IsLanguageSupported agrees with what a localizer for that language would report, SupportedLanguages lists exactly the languages that were loaded.",
["inputs","configurations"],"every set and order of loaded languages and every preference list, including malformed strings, weights and unsupported tags, with default and custom matchers",
"The tests use two or three languages and a few tags.",
["localizer.go","bundle.go","utils.go","humanize/humanizer.go"],
[("language.Matcher over builder.languages with index mapping","bundle.go NewBundle, localizer.go NewLocalizerForDomain"),("ParseAcceptLanguage for strings","localizer.go")],
["Language(), HasLocale(), SupportedLanguages(), IsLanguageSupported(), texts returned"])

p("C07","Bundle creation loads what was asked for or fails with the cause",
"NewBundle succeeds exactly when every option is valid, every required/fallback language has all its domains, and no catalog that was found fails to load; then precisely the catalogs which the loaders returned for the requested (language, domain) pairs are served, Domains, HasDomain and CanLocalize describe exactly these, and each loader is asked at most once per pair. Optional languages skip only what their loader reports as not found; every other loader error aborts creation, is returned unchanged to errors.Is/As, and no bundle is returned together with an error, independent of the order in which options are given. Bundle options passed to humanize take part in the same way: one that fails makes the creation of the collection fail.",
["configurations","fault_sequences","inputs"],"every combination of options in any order and every assignment of loader outcomes (catalog, not found, other error) to (language, domain) pairs",
"The tests exercise single options; combinations and the matrix of loader outcomes are not explored.",
["bundle.go","loader.go","utils.go"],
[("options first, set-up actions afterwards","bundle.go NewBundle"),("ErrNotFound handling in createLocale/preloadLanguages","bundle.go")],
["(bundle, error) of NewBundle, loader call log, Domains/HasDomain/CanLocalize/SupportedLanguages"])

p("C08","Catalog files are found by the documented search order",
"For a language and domain the file system loader uses the first existing file in the documented order: extensions in the order of the configured decoders, then for each extension the language names of the tag from the most to the least specific, then the documented directory layouts (locale/category/domain, locale/LC_MESSAGES/domain, locale/domain, domain/locale, locale, category/locale, LC_MESSAGES/locale; only the first with search disabled), and decodes it with the decoder registered for that extension. Files at any other location are never used, and if none exists the result is a not-found error. A loader is created exactly when its options name one file system and at most one resolver and no option is nil or fails.",
["inputs","configurations"],"every set of existing files, language tag, domain, category, search setting and decoder list",
"The tests check single layouts with one existing file; precedence among several simultaneously existing files is not covered.",
["loader.go","utils.go"],
[("defaultResolver.Resolve over ExpandLanguage","loader.go, utils.go"),("extension/decoder index pairing","loader.go Load, loadFromFile")],
["fs.FS open log and the catalog content served"])

p("C09","Faulty or truncated files never yield a silently incomplete catalog",
"If opening, reading or closing a catalog file fails at any point, or its data are cut off by a read error, loading reports that error instead of returning a catalog; short reads, reads that deliver data together with EOF, and any chunking of the data give the same catalog as reading it in one piece. A binary catalog cut short at any byte is rejected unless all its messages are intact, an unreadable file is never mistaken for a missing one, and every opened file is closed.",
["fault_sequences","crash_points","inputs"],"every byte position of truncation or read error, every chunking of reads, open/stat/read/close failures, for PO, MO and JSON files",
"The tests read complete, error-free files only.",
["loader.go","catalog/po_decoder.go","catalog/po/scanner.go","internal/mo/parser.go"],
[("errors propagated from scanner/reader","catalog/po/scanner.go, internal/mo/parser.go"),("close error joined","loader.go loadFromFile")],
["(catalog, error) of decoders and loaders over fault-injecting fs.FS / io.Reader, open/close log"])

p("C10","PO files are read completely and exactly",
"Parsing any well-formed PO text yields every entry with exactly its context, id, plural id, all translations by index, flags, comments, references and header fields, independent of how strings are split over continuation lines, of blank lines within or between entries (a comment followed by a blank line belongs to no entry), line endings, indentation, escapes, length of lines or what the same parser read before. No entry is lost, duplicated, merged with a neighbour or attributed to another entry, ill-formed text and duplicate entries are reported as an error, and ignoring comments changes only the comment text, never messages or flags.",
["inputs"],"every abstract catalog and every way of writing it down in PO syntax",
"The tests parse a few dozen hand-written files; the space of layouts, escapes and lengths is not explored.",
["catalog/po/parser.go","catalog/po/scanner.go","catalog/po/po_string.go","catalog/po/file.go"],
[("line scanner and token based parser","catalog/po/scanner.go, parser.go"),("DecodePoString","catalog/po/po_string.go")],
["po.Parse/ParseString/Parser.Parse result compared with the generating model"])

p("C11","Written PO files read back to the same content",
"Encoding a PO file and parsing the output returns the same header, messages, contexts, ids, plural ids, translations, flags, comments and references, for every text content (any valid UTF-8 including quotes, backslashes, control characters and newlines), every wrap width and every encoder setting apart from what a setting explicitly leaves out. EncodePoString followed by DecodePoString is the identity for every wrap width, wrapping changes only where lines break (in comments: only white space), never the characters, encoding reports writer errors, and encoding the parsed output again gives the same bytes.",
["inputs","configurations","fault_sequences"],"every file content, wrap width and encoder option, and every writer failure",
"The tests compare a few literal outputs; arbitrary content and widths are not explored.",
["catalog/po/encoder.go","catalog/po/po_string.go","catalog/po/wrap.go","catalog/po/parser.go"],
[("escape/unescape pair","catalog/po/po_string.go"),("wrapping","catalog/po/wrap.go, po_string.go")],
["bytes of Encoder.Encode/Marshal and the re-parsed file"])

p("C12","Decoders terminate without panic or excessive memory on any input",
"For every byte string, the PO, MO and JSON decoders, the PO parser and string decoder and the plural rule parsers return either a result or an error: they never panic, never loop or recurse without bound, and use memory and time proportional to the input size (not to numbers written inside the input). Every catalog or rule that is returned can be used for any lookup or evaluation without panic.",
["inputs"],"every byte string fed to every decoder and parser, and every lookup on what they return",
"The tests feed a few malformed samples; hostile sizes, offsets, indices and truncated escapes are not covered.",
["catalog/po/parser.go","catalog/po/scanner.go","catalog/po/po_string.go","internal/mo/parser.go","catalog/json.go","catalog/json_decoder.go","catalog/poplural/ast/parser.go","catalog/poplural/ast/scanner.go","catalog/cldrplural/ast/parser.go","catalog/cldrplural/evaluation.go"],
[("error returns in parsers and decoders","all decoder files"),("size checks in the MO header","internal/mo/parser.go")],
["process exit, recovered panics, CPU and allocation meters per case"])

p("C13","MO files decode exactly and equal the same catalog in PO or JSON form",
"Decoding a well-formed MO file of either byte order, with or without hash table and with any placement of strings, returns for every context, id and plural index exactly the stored translation and nothing else, and uses its plural header like a PO file does. The same catalog loaded from PO and from MO (and, for CLDR plurals, JSON) answers every lookup identically, and files with a wrong magic number, unsupported version or out-of-range offsets are rejected.",
["inputs"],"every abstract catalog, every MO layout variant and every lookup",
"The tests read a few sample files.",
["internal/mo/parser.go","catalog/po_decoder.go","catalog/po.go"],
[("header/offset table parsing and EOT/NUL splitting","internal/mo/parser.go"),("shared catalog builder","catalog/po_decoder.go buildGettextCatalog")],
["Lookup/LookupPlural of catalogs decoded from generated MO/PO/JSON encodings of one model"])

p("C14","JSON catalogs are read, stored and written without loss",
"A JSON catalog accepts exactly files whose entries have a non-empty key, an 'other' text and a context matching the key suffix, and serves every non-empty entry by context and key with the CLDR category of the number. Messages keep their comment, context and every category the language uses (unused categories are dropped, missing ones are added empty, singular entries stay singular), and writing a catalog and reading it back gives an equal catalog and byte-identical, key-sorted, valid JSON for equal catalogs. A catalog filled from several files holds every key once, as the last file has it.",
["inputs"],"every JSON message set and language",
"The tests use a few messages in two or three languages.",
["catalog/json.go","catalog/json_decoder.go","catalog/json_encoder.go"],
[("setMessage validation and applyCategoriesToJSONMessage","catalog/json.go"),("custom (un)marshalers","catalog/json.go")],
["Decode/NewJSONCatalogWithMessages/Encode/Messages/Lookup results against a model"])

p("C15","Fuzzy, obsolete and untranslated entries are never served",
"An entry marked fuzzy, an obsolete (#~) entry, a header entry, or an entry (or plural form) with an empty translation is never returned as a translation by any lookup; the lookup reports it missing and falls through to the fallback or source text. Every other entry of the same file is served regardless of its neighbours' flags, comments or position.",
["inputs"],"every mix and order of fuzzy, obsolete, untranslated and translated entries in any PO layout, and in MO/JSON where expressible",
"The tests check one fuzzy entry in one layout.",
["catalog/po_decoder.go","catalog/po/parser.go","catalog/po/scanner.go","catalog/po.go","catalog/json.go"],
[("fuzzy filter","catalog/po_decoder.go buildGettextCatalog"),("empty translation check","catalog/po.go getMessage, catalog/json.go getTranslation")],
["Lookup results and bundle texts for files generated from flagged models"])

p("C16","Plural-Forms expressions evaluate with C semantics",
"For every valid gettext plural expression built from n, integers, ?:, ||, &&, ==, !=, <, >, <=, >=, % and parentheses, the parsed rule yields for every whole number n (its absolute value) the value the expression has in C, with C precedence and associativity; parsing reports the declared number of forms. Whitespace, optional parentheses and replacing an expression by an optimized built-in function never change a result, and an expression that is not valid is rejected with an error instead of being misinterpreted (the Must functions panic then, and only then). The syntax tree of a rule has the same value, and the text compiled from the tree is a valid rule with the same value and number of forms.",
["inputs"],"every expression of the grammar, every spelling of it, and every n",
"The tests compare a table of known formulas at a few hundred n; other expressions, nestings and constants are not covered.",
["catalog/poplural/rule.go","catalog/poplural/builtin.go","catalog/poplural/builtin_gen.go","catalog/poplural/ast/parser.go","catalog/poplural/ast/scanner.go","catalog/poplural/ast/compile.go"],
[("recursive descent parser and tree evaluation","catalog/poplural/ast/parser.go, rule.go"),("built-in lookup by normalized text","catalog/poplural/builtin.go")],
["Rule.Evaluate against an independent evaluator over generated expressions"])

p("C17","Plural lookups return exactly the form the plural rule selects",
"A plural lookup returns the stored translation whose index (gettext) or category (CLDR) is the one the catalog's plural rule assigns to the number: the Plural-Forms header by default, the CLDR rules of the language if there is no header, the header requests them or a CLDR decoder is used, with categories numbered from Zero to Other in the order the language uses. If that form is absent or empty the lookup reports a missing translation; another form is never substituted, and numbers that cannot be interpreted are reported as an error rather than answered.",
["inputs","configurations"],"every language, header, decoder kind, set of present forms, and every number",
"The tests try a few numbers for a few languages with complete translations.",
["catalog/po.go","catalog/po_decoder.go","catalog/json.go","catalog/poplural/rule.go","catalog/cldrplural/cldr.go"],
[("pluralFunc selection","catalog/po_decoder.go buildGettextCatalog, getCLDRPluralFunction"),("index/category lookup","catalog/po.go LookupPlural, catalog/json.go LookupPlural")],
["LookupPlural (text, error) for tagged forms"])

p("C18","CLDR plural categories follow the published rules for every language",
"For every language with CLDR plural rules and every number given as integer, decimal text or compact-exponent text, the category computed is the one the published CLDR cardinal rules (the version named in the sources) assign to its operands n, i, f, t, v, w, c/e, it is one of the categories the rule set lists, and listed categories are ordered Zero, One, Two, Few, Many, Other. Regional variants, and languages without rules, use the rules of their best supported parent or the documented default, and a rule set parsed from rule text behaves like the built-in of the same text (of several rules that apply the first category in this order counts); a text that is no rule is rejected. The syntax tree of a rule text says what the text says (or binds weaker than and), lists the sample numbers the text names, ranges expanded, and walking it visits every part once, in the order of the text, leaving out what the visitor declines.",
["inputs"],"every language tag and every number in every textual form",
"The generated tests evaluate only the sample numbers from the CLDR files.",
["catalog/cldrplural/cldr.go","catalog/cldrplural/builtin.go","catalog/cldrplural/builtin_gen.go","catalog/cldrplural/evaluation.go","catalog/cldrplural/ast/parser.go"],
[("generated evaluation functions","catalog/cldrplural/builtin_gen.go"),("operand computation","catalog/cldrplural/evaluation.go"),("ParseRules/Evaluate","catalog/cldrplural/cldr.go")],
["RuleSet.Evaluate and ParseRules results against frozen rule texts and an independent evaluator"])

p("C19","The plural form depends on the number's value, not on its Go type",
"A number selects the same plural form whether it is passed as any signed or unsigned integer type, a float with the same value, a named type, a pointer to it, or its decimal string (as far as the string's visible fraction digits agree), and a negative number selects the form of its absolute value (whole numbers up to 2^63-1; up to 2^53 for CLDR rules with the remainder of n, which is a float64). Values that are no numbers (nil, nil pointers, non-numeric strings, NaN, infinities) give an error or a well-defined form, and never panic.",
["inputs"],"every numeric value in every Go representation, for gettext and CLDR rules, catalogs and source texts",
"The tests check a few values of some types.",
["internal/cast/number.go","catalog/poplural/rule.go","catalog/cldrplural/evaluation.go","humanize/numbers.go"],
[("conversion to number","internal/cast/number.go"),("operand construction per type","catalog/cldrplural/evaluation.go NewOperands")],
["Rule.Evaluate, RuleSet.Evaluate, NewOperands, ForLanguage functions, humanize number helpers on equivalent representations"])

p("C20","Default plural rules per language agree with their published formulas",
"For every language for which a default gettext plural rule exists, the built-in function returns for every n the value of the formula published for that language and never an index outside its number of forms; regional variants use their parent's rule and unknown languages use 'one or other'. Source texts in a source language are chosen by that language's rule: the first form takes the singular text and every other form the plural text.",
["inputs"],"every language tag and every n, directly and via NGet on a source-language localizer",
"The generated tests check sample numbers only.",
["catalog/poplural/builtin.go","catalog/poplural/builtin_gen.go","locale.go"],
[("generated per-language functions","catalog/poplural/builtin_gen.go"),("fallback to parents","catalog/poplural/builtin.go ForLanguage")],
["ForLanguage functions and NGet results against frozen formulas"])

p("C21","Merging messages, comments and flags neither loses nor invents content",
"Adding messages to a PO file keeps exactly one entry per context and id, whose references, flags, translator and extracted comments are the union of all added ones without duplicates and whose translations and ids stay those of the first; adding in any order gives the same set, and adding the same message twice changes nothing. Reference and flag lists stay sorted, header fields set under any capitalisation are returned by Get, and lookups by context and id return exactly the stored entry.",
["histories","inputs"],"every sequence of AddMessage/Merge/AddReference/AddFlag/Set operations",
"The tests merge two literal comments; histories and order independence are not explored.",
["catalog/po/comment.go","catalog/po/message.go","catalog/po/file.go"],
[("merge with de-duplication","catalog/po/comment.go Merge"),("Messages.Add","catalog/po/file.go")],
["state of po.File after generated histories against a set model"])

p("C22","Formatting is applied exactly once, only with arguments, for the right language",
"A text looked up without arguments is returned verbatim, including percent signs; with arguments it is formatted once with the print function of the language the text comes from, so default formatting equals golang.org/x/text/message formatting for that language. A custom printer or print function replaces formatting everywhere (translations, fallbacks, source texts, Print), is initialised with the loaded languages before it is used for translation, and receives the chosen text and the caller's arguments unchanged. A printer passed to humanize as bundle option prints every text of its functions, each once, and none of them panics whatever the printer returns.",
["inputs","configurations"],"every text, argument list, language and printer configuration on every formatting method",
"The tests format one or two literal strings.",
["utils.go","locale.go","localizer.go","bundle.go"],
[("defaultPrintFunc skips formatting without vars","utils.go"),("printFunc per locale","locale.go")],
["return values, and the recorded calls of a custom printer"])

p("C23","FormatTime renders every Django format string correctly",
"For every time of the years 1 to 9999, location and format string, FormatTime replaces each documented Django format character by its documented rendering in the humanizer's language, copies every other character and every backslash-escaped character literally, and never panics. Calendar quantities (week number and ISO year, day of year, leap year, days in month, suffix, offsets, epoch, daylight saving) are those of the given time in its own location; only 'T' shows the time zone of the machine. The names of the predefined formats stand for the formats of the humanizer's language, or the documented English defaults where it has none. Now, Date and Time render the current time so.",
["inputs"],"every format string over all characters, every time and zone, every language",
"The tests check each character on one or two times.",
["humanize/dateformat.go","humanize/dates.go","internal/calendar/calendar.go"],
[("timeFormatter methods by character","humanize/dateformat.go")],
["FormatTime output against an independent renderer"])

p("C24","TimeSince and TimeUntil describe the elapsed time correctly",
"TimeSince/TimeUntil (and their From variants) render the difference of the two times in whole seconds as the largest, by default adjacent, non-zero units (years of 365 days, months of 30 days, weeks, days, hours, minutes) up to the configured depth, after taking out the leap days between the years as Django does and never showing fewer years than complete calendar years have passed, whatever location and supported argument type. Untils mirror Sinces, a difference below one minute or of the wrong sign gives the 'zero minutes' text, each unit has the plural form of the language for its own count, and invalid arguments or options never panic.",
["inputs"],"every pair of times, argument type, depth and language",
"The tests check about thirty differences around one date.",
["humanize/date.go","humanize/dates.go","internal/calendar/calendar.go"],
[("timeSinceFrom chunk computation","humanize/date.go")],
["rendered text parsed back into units against an independent calendar computation"])

p("C25","Natural day and time are relative to now",
"NaturalDay yields yesterday/today/tomorrow exactly when the argument's calendar date, in its own location, is one day before, equal to or one day after the current date there, and the formatted date otherwise; NaturalTime yields the count of the largest fitting unit (seconds, minutes, hours, else the TimeSince text) between the argument and now with the direction (ago / from now), 'now' for no difference; part seconds of the past do not count and those of the future are rounded. Both accept every supported argument type, treat zero or unsupported arguments as documented, and depend only on the argument, the current time and the language.",
["inputs","histories"],"every current time, argument time, location (including zones with daylight saving changes) and argument type",
"The tests depend on the real clock and check a few offsets.",
["humanize/date.go","humanize/humanizer.go"],
[("comparison with time.Now","humanize/date.go")],
["output under a controlled clock against an independent model"])

p("C26","Number humanizing is exact over the whole numeric range",
"Intcomma, Intword, Ordinal, Apnumber and FilesizeFormat return, for every number of every supported type or numeric string, the text their documentation defines: grouping keeps every digit of integers of up to 64 bit and the sign, the unit chosen is the largest that fits (million to googol, byte to petabyte) and the displayed value is the argument divided by that unit rounded to one decimal, with the plural form the language has for it, ordinals of non-negative numbers carry the suffix of their last digits, 1-9 are spelled out. Values outside a function's range are shown as plain numbers, values that are no numbers as a text naming them, and no argument panics. LanguageName and LanguageNameByCode return the name in the humanizer's language, and the code lookup an empty text for unknown codes.",
["inputs"],"every number of every Go type and every string, in every language",
"The tests check a few dozen values in two languages.",
["humanize/numbers.go","humanize/helper.go","humanize/helper_table.go","internal/cast/number.go"],
[("threshold tables","humanize/helper_table.go, numbers.go")],
["returned text against exact big-number reference computations"])

p("C27","Every shipped humanize language works completely",
"Every language package shipped for humanize can be loaded alone or with all others, is then selected for its own tag, and every humanize function returns in it, for every argument, a non-empty text without formatting artefacts ('%!', leftover verbs). Texts of different numbers, units, directions (past, future), months, weekdays and times differ, as far as the format shows the difference. Translations used are those of that language's catalog with the plural form of that language, for which every countable text exists, English text is used only where the catalog has none, and loading several languages never changes the output of one.",
["configurations","inputs"],"every shipped language, every subset and order of languages, and every function argument",
"The tests load a handful of the languages and check single outputs.",
["humanize/humanizer.go","humanize/locale.go","humanize/locale"],
[("LocaleData registration and bundle creation","humanize/humanizer.go"),("embedded catalogs","humanize/locale/*")],
["humanizer outputs per language against the language's own catalog and rule"])

p("C28","Equal inputs give equal outputs in every run",
"Building bundles, catalogs, rule sets and humanizers from the same inputs and encoding files gives identical results every time: selected languages, texts, error results, plural categories and encoded bytes do not depend on map iteration order, earlier use of the library in the process, or the order in which independent messages, headers or rules were added. Repeating a read-only call gives the same answer.",
["inputs","histories","configurations"],"every input, repeated construction within and across processes",
"Each test builds once and compares with one literal; nondeterminism between runs is not observed.",
["catalog/po/encoder.go","catalog/json.go","catalog/cldrplural/cldr.go","humanize/humanizer.go","bundle.go"],
[("sorted output","catalog/po/encoder.go, catalog/json.go"),("ordered evaluation","catalog/cldrplural/cldr.go")],
["digests of outputs of repeated constructions"])

p("C29","The rule generators write code that means the rules",
"The tools that write the built-in plural rules (catalog/cldrplural/generator, catalog/poplural/generator), run on a rule file in the format their README names, succeed and write Go source that compiles. The written package has rules for exactly the languages of the file (and none for others), lists the categories of each language in order, and gives every number the category or form which the text of the rule gives it, whatever other languages, equal texts for other categories, ranges, lists, operands or samples the file contains. The written tests hold for right samples and fail for wrong ones.",
["inputs","configurations"],"every rule file of the grammar of CLDR rules and every gettext rule of the published form (chains of conditions on n or a remainder of n)",
"The generators have no tests; only the code that came out of them once is tested.",
["catalog/cldrplural/generator/compiler.go","catalog/cldrplural/generator/json.go","catalog/cldrplural/generator/main.go","catalog/poplural/generator/compiler.go","catalog/poplural/generator/json.go","catalog/poplural/generator/main.go","catalog/cldrplural/ast/parser.go","catalog/cldrplural/ast/walk.go","catalog/poplural/ast/compile.go"],
[("compilation of syntax trees to Go","generator/compiler.go"),("grouping of languages with equal rules","generator/json.go, main.go")],
["results of the generated package, built and run in a copy of the sources"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
