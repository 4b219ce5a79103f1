c("C10", "runtime monitor: generated PO texts parsed and compared with the abstract catalog they were written from",
  "Held on the generated layouts; the oracle is the model the text was written from, independent of the parser.")
c("C11", "runtime monitor: encode/parse/encode round trips and fault-injecting writers against the model",
  "Held on the generated structures, widths and settings; the parser used for reading back is itself monitored by C10.")
c("C16", "runtime monitor: generated plural expressions and numbers evaluated by the real rules against an independent C expression evaluator",
  "Held on the generated expressions, layouts and numbers; the evaluator is written from the C grammar.")
c("C18", "runtime monitor: every shipped rule set and generated rule sets evaluated against frozen CLDR rule texts interpreted by an independent evaluator",
  "All languages enumerated; numbers are sampled around the boundaries of the rules.")
c("C19", "runtime monitor: every Go representation of a number (and values that are no numbers) evaluated by rules, localizers and humanizers and compared with the form of the value",
  "Held on the sampled numbers for all listed representations; expected forms come from the independent evaluators of C16 and C18.")
c("C20", "runtime monitor: default plural functions and source text selection of every language compared with frozen published formulas evaluated independently",
  "All languages with default rules enumerated, variants and numbers sampled.")
c("C03", "runtime monitor: every lookup of generated bundles compared with an abstract lookup oracle (language, fallback, source text)",
  "Held on the generated bundles and calls; texts name their language, domain, context, id and form, so a wrong one is recognised.")
c("C04", "runtime monitor: errors of every localizable lookup compared with the abstract lookup oracle; LocalizeError identity and wrapping monitored",
  "Held on the generated bundles and calls.")
c("C05", "runtime monitor: recording missing-translation callback; the recorded calls of every lookup and of bundle creation compared with the oracle",
  "Held on the generated bundles and calls; the same lookups run without callback.")
c("C15", "runtime monitor: lookups of all entries of catalogs with fuzzy, obsolete and empty entries between normal ones compared with the model",
  "Held on the generated catalogs and layouts.")
c("C17", "runtime monitor: plural lookups of all catalog kinds compared with independent gettext and CLDR evaluators",
  "Held on the generated catalogs and numbers.")
c("C22", "runtime monitor: recording print functions and printers, default formatting compared with x/text/message",
  "Held on the generated bundles, texts and arguments.")
c("C06", "runtime monitor: language chosen by localizers for generated preference lists compared with an independently built matcher over the loaded languages",
  "Held on the generated language sets and preference lists; x/text/language is trusted as the documented default matcher.")
c("C07", "runtime monitor: recording loaders and decoders with injected failures; result of bundle creation compared with an abstract model of the options",
  "Held on the generated option lists, orders and failures.")

c("C08", "runtime monitor: generated file trees with decoys; the file read and the decoder used are compared with an independent enumeration of the documented search order",
  "Held on the generated trees, tags, categories and decoder orders; x/text/language supplies the parts of a tag.")
c("C09", "runtime monitor: fault-injecting file systems and readers; results compared with the injected error or the catalog decoded in one piece; every prefix of binary and JSON files",
  "Held on the generated catalogs and fault positions.")

c("C12", "runtime monitor: mutated, random and amplified inputs to all decoders and parsers; allocation and CPU meters, crash and hang attribution, exhaustive use of accepted results",
  "Held on the generated inputs; memory and time bounds are linear in the input size with measured constants.")
c("C13", "runtime monitor: generated MO files decoded and compared with the catalog they were written from; the same catalog as PO, MO and JSON compared lookup by lookup; broken headers and tables must be rejected",
  "Held on the generated catalogs and layouts; the MO writer of the harness is independent of the reader under test.")
c("C14", "runtime monitor: generated JSON files and messages decoded, looked up, encoded and read back, compared with the abstract messages; single injected faults must be rejected",
  "Held on the generated messages; plural categories come from the independent CLDR evaluator.")
c("C21", "runtime monitor: histories of additions and merges compared step by step with a set model; permutations, repetition and header histories",
  "Held on the generated histories.")
c("C23", "runtime monitor: FormatTime compared with an independent renderer (own calendar arithmetic, names read from the PO file by an own reader)",
  "Held on the generated formats, times and zones in all languages; package time supplies offsets and names of zones.")
c("C24", "runtime monitor: TimeSince, TimeUntil and variants compared with an integer model of the documented units, clock frozen by testing/synctest where no time is given",
  "Held on the generated pairs of times, options and argument types in all languages.")
c("C25", "runtime monitor: NaturalDay and NaturalTime under a frozen, stepped and real clock compared with a model of the documented texts",
  "Held on the generated moments and arguments in all languages.")
c("C26", "runtime monitor: number functions compared with a model; displayed digits read back and compared with exact rational values",
  "Held on the generated numbers of all types in all languages; golang.org/x/text formats digits.")
c("C27", "runtime monitor: every language package alone and in combinations compared with a model of its PO file; model-free monitors for texts that have to differ, formatting traces and plural groups",
  "Held on every language; the quality of the translations is not judged.")

c("C01", "race detector (go build -race) and runtime monitor: goroutines released together on fresh and used objects, every result compared with the sequential one; deadlock and crash attribution",
  "Held on the interleavings that occurred; schedules are varied by stress, barriers and yields in callbacks, not enumerated.")
c("C02", "runtime monitor: handed-out and passed-in values overwritten in generated histories; content, listings, lookups and encodings compared with snapshots and the model after every step",
  "Held on the generated histories.")
c("C28", "runtime monitor: traces of everything observable, repeated in the same process, in other processes and with independent inputs in other orders, compared line by line",
  "Held on the generated inputs, repetitions (5 per input), orders and processes.")
c("C29", "runtime monitor: the real generators run on published and random rule files; the package they write is compiled, asked and compared with an independent evaluator; the tests they write are run with right and wrong samples",
  "Held on the generated rule files; other forms of gettext rules than the published ones are not judged.")
