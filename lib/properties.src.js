"use strict";
// Source of properties.jsonl (one JSON object per line): node lib/properties.src.js
const P = [];
const p = (id, title, statement, over, text, why, files, mech, observe) =>
  P.push({
    id, title, statement,
    quantifier: { over, text },
    why_tests_cant: why,
    anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })), observe_at: observe, hook_needed: null },
  });

p("C01", "Caller text never becomes an extra ExifTool argument or command",
  "Whatever text a caller passes as a file name, tag name, tag value, list or struct member, or option entry, the ExifTool child process receives exactly one command per call, made of the documented arguments with that text confined to the argument it was given for. Text that cannot be confined this way (a line break or NUL in a name, an invalid tag name, an embedded -execute) makes the call reject before anything is sent, and later calls are unaffected.",
  ["inputs"], "every string in every argument position of every public call",
  "The specs try a few hand-written injection strings at a few positions; the quantifier is over all strings at all positions.",
  ["src/ExifToolTask.ts", "src/TagNameValidation.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/RewriteAllTagsTask.ts", "src/BinaryExtractionTask.ts"],
  [["argument rendering and control-character rejection", "ExifToolTask.renderCommand"], ["tag name grammar", "validateTagName"], ["entity encoding of written values", "htmlEncode/enc in WriteTask.ts"]],
  ["the argument list received on the child's stdin", "rejection of the call"]);

p("C02", "Text values written are read back unchanged",
  "A text, number or boolean value, a list of them, or a structure of text values written to a tag that can hold it is read back exactly equal, including leading/trailing/inner whitespace, line breaks, quotes, separators, brackets and all Unicode characters, and tags that were not written keep their values. An empty list item, HTML character references in plain write() values, and characters that XML or the tag's charset cannot hold are outside this guarantee.",
  ["inputs"], "every string/list/struct value over XMP, IPTC and EXIF text tags, and several tags in one write",
  "The specs round-trip a fixed list of strings; encoding bugs live at specific characters in specific positions (leading blanks, separators, nested lists).",
  ["src/WriteTask.ts", "src/ReadTask.ts"],
  [["value encoding", "enc/htmlEncode in WriteTask.ts"], ["list separator", "-sep in WriteTask"]],
  ["tags returned by read() after write()"]);

p("C03", "editTags adds and removes exactly the named items",
  "After editTags resolves, each edited list tag (or collection list) holds the previous items minus every item equal to (or matching) a removal, plus the added items, with all other items and all other tags unchanged. Items that only partly match (case, whitespace, substring, entity-like text) are never removed or altered.",
  ["inputs", "histories"], "every sequence of edits over every supported tag, and every item text that validation accepts",
  "The specs exercise hand-picked edits; whether text with special characters or repeated and interleaved edits stays exact is a claim over all of them.",
  ["src/TagEdit.ts", "src/WriteTask.ts", "src/ExifTool.ts"],
  [["edit validation and snapshot", "validateTagEdits"], ["two-layer entity protection", "WriteTask.forTagEdits/enc"]],
  ["tags returned by read() after editTags()"]);

p("C04", "editTags validates everything it sends, all or nothing",
  "editTags either rejects without sending anything to ExifTool, or sends exactly the edits that it validated, in order, in one command. A list containing any unsupported tag, non-canonical name, malformed or non-string value, unsafe character, unknown field, accessor-backed collection field, add-then-remove conflict, or incompatible extra argument is rejected whole, naming the offending edit; every list of supported edits is accepted.",
  ["inputs"], "every list of edits, valid or malformed, including accessors and exotic objects",
  "The validator's contract is over all edit lists; specs cover one example per rule and rarely combinations or positions.",
  ["src/TagEdit.ts", "src/WriteTask.ts"],
  [["validation", "validateTagEdits"], ["conflict detection", "rejectUnorderableConflicts"], ["writeArgs compatibility", "WriteTask.forTagEdits"]],
  ["rejection messages", "commands received by the child"]);

p("C05", "Writes reach ExifTool at most once; reads retry within bounds",
  "write, editTags and deleteAllTags send their command to ExifTool at most once no matter how the child fails. Retriable calls (read, readRaw, version, binary extraction, rewriteAllTags) are attempted at most 1 + taskRetries times, succeed if any of those attempts succeeds, and otherwise reject with the last attempt's error; a retry happens only after a failure.",
  ["fault_sequences", "configurations"], "every sequence of per-attempt child faults (crash before, during or after answering, timeout, error output) and every taskRetries",
  "Specs inject one failure kind; the bound is over all fault sequences and retry settings.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts"],
  [["retry wrapper", "retryOnReject"], ["non-retriable writes", "ExifTool.write/editTags/enqueueTask"]],
  ["commands received by the child processes", "settlement of the call"]);

p("C06", "Concurrent calls each get their own answer, whatever children do",
  "With any number of concurrent calls over any number of child processes, every call settles, and each resolves only with the output ExifTool produced for that very call (or rejects), even when children crash, hang past the timeout, emit stray output or are recycled between tasks. A fault in one call's command never corrupts, loses or duplicates the result of another call that was not on the same failing command.",
  ["schedules", "fault_sequences"], "every interleaving of calls, child answers, delays and child faults",
  "Specs run a fixed batch of parallel reads; cross-talk appears only under particular interleavings of answers and faults.",
  ["src/ExifTool.ts", "src/ExifToolTask.ts", "src/ReadTask.ts", "src/DefaultExifToolOptions.ts"],
  [["batch cluster task queue", "ExifTool.enqueueTask"], ["SourceFile cross-check", "ReadTask.parse"], ["pass/fail tokens", "DefaultExifToolOptions"]],
  ["settlement values of concurrent calls"]);

p("C07", "Ending or disposing an instance settles calls and leaves no child",
  "However end(), Symbol.dispose and Symbol.asyncDispose are called (repeatedly, concurrently, gracefully or not, with work pending, with unresponsive children), they never throw or hang, every earlier call settles, later calls reject, `ended` is and stays true, and no child process survives: responsive ones are gone already when a graceful end(), or an asyncDispose that started the shutdown, settles. Calls completed before a graceful end keep their results, and other instances are unaffected.",
  ["schedules", "histories", "fault_sequences"], "every history of calls and endings, over cooperative and unresponsive children",
  "Specs cover the common orders with responsive children; leaks and hangs depend on the order of end/dispose versus pending work.",
  ["src/ExifTool.ts"],
  [["end", "ExifTool.end"], ["sync and async disposal with timeouts", "ExifTool[Symbol.dispose]/[Symbol.asyncDispose]"]],
  ["settlement of calls", "child processes alive afterwards"]);

p("C08", "Date-time text parses to the instant it denotes and renders back",
  "Text in any supported EXIF, ISO or loose date-time layout parses to exactly the calendar fields, fraction (to the millisecond) and offset it denotes, whatever the system time zone, and renders back to text and epoch milliseconds that denote the same local time and instant. A time without a zone is never given one (unless the caller supplies a default), raw text is preserved, and impossible or unrelated text is never turned into a different valid date-time.",
  ["inputs", "configurations"], "every valid local date-time, fraction, zone, layout and default zone, under every system time zone; and arbitrary other text",
  "Specs check tens of examples in one system zone; errors hide at DST gaps, month ends, odd offsets and layouts.",
  ["src/ExifDateTime.ts", "src/TimeParsing.ts", "src/DateTime.ts", "src/Timezones.ts"],
  [["parsing", "ExifDateTime.from/fromEXIF/fromISO/parseDateTime"], ["rendering", "ExifDateTime.toISOString/toExifString/toMillis"]],
  ["ExifDateTime fields, renderings and instants"]);

p("C09", "Dates and times parse and render without gaining or losing parts",
  "Year, year-month and full dates, and times of day with optional fraction and offset, parse to exactly the parts present in the text and render back to text denoting the same parts; missing parts are never invented. This holds in every system time zone, and impossible or unrelated text is never turned into a different valid date or time.",
  ["inputs", "configurations"], "every valid full or partial date, time, fraction and offset in every layout, under every system time zone",
  "Specs check a handful of dates and times in one system zone.",
  ["src/ExifDate.ts", "src/ExifTime.ts", "src/TimeParsing.ts"],
  [["date parsing and rendering", "ExifDate.from/toISOString/toExifString"], ["time parsing and rendering", "ExifTime.fromEXIF/fromDateTime/toString"]],
  ["ExifDate and ExifTime fields and renderings"]);

p("C10", "Read results survive JSON serialisation",
  "JSON.stringify followed by parseJSON gives back an equal value: date, time, date-time and binary-field objects come back as the same types with the same fields, renderings and instants, malformed-UTF-8 byte maps come back as bytes, and plain data is untouched. Objects that merely resemble the library's own types are left as they are.",
  ["inputs"], "every tree of values that read() can return, and arbitrary other JSON",
  "Specs round-trip a few fixture results.",
  ["src/JSON.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/BinaryField.ts", "src/InvalidUtf8Bytes.ts"],
  [["revivers", "parseJSON"], ["toJSON/fromJSON pairs", "ExifDateTime, ExifDate, ExifTime, BinaryField"]],
  ["values returned by parseJSON"]);

p("C11", "Time zone text is recognised exactly when it denotes a real zone",
  "Zone names, numeric offsets and offset texts (in every documented spelling) normalise to the zone with exactly that offset, and everything else (out-of-range or unused offsets, the internal unset marker, blanks, garbage) is reported as no zone, without throwing. Extracting a zone from timestamp text agrees with normalising the zone text alone and leaves exactly the rest of the text; zone equivalence is reflexive, symmetric and consistent with offsets.",
  ["inputs", "configurations"], "every offset, spelling, abbreviation, IANA zone and arbitrary text, under every timezone setting",
  "Specs list examples of spellings and offsets.",
  ["src/Timezones.ts", "src/Settings.ts"],
  [["normalisation", "normalizeZone"], ["extraction", "extractZone"], ["validity set", "validTzOffsetMinutes"]],
  ["returned zones, offsets and leftovers"]);

p("C12", "Offset inference returns the nearest valid offset within tolerance",
  "Inferring an offset from a time difference returns the valid offset nearest to it when one lies within the configured tolerance, and nothing otherwise; the set of valid offsets and the tolerance always reflect the current settings, whatever sequence of setting changes preceded. Inferring the zone from GPS/UTC timestamps against capture time follows the same rule and only ever returns valid zones.",
  ["inputs", "histories", "configurations"], "every time difference and every history of setting changes",
  "Specs sample a few differences under default settings; stale caches need a particular history.",
  ["src/Timezones.ts", "src/Settings.ts"],
  [["nearest offset", "inferLikelyOffsetMinutes"], ["UTC difference", "extractTzOffsetFromUTCOffset"], ["caches invalidated on change", "clearOffsetCaches"]],
  ["returned offsets and zones"]);

p("C13", "read() picks the zone from the best source and applies it consistently",
  "For any combination of zone-bearing tags and options, the zone and zone source reported by read() come from the highest-priority source documented, and that zone is applied to every date-time that has none of its own when backfilling is enabled, never to one that states its own zone. Tags that are UTC by definition stay in UTC, local times are never changed by backfilling, and a video's zoneless times (taken as UTC) keep their instant.",
  ["inputs", "configurations"], "every combination of explicit offsets, GPS position, zoned datestamps, UTC/GPS times, video types and timezone options",
  "The sources interact in hundreds of combinations; specs cover a few fixture files.",
  ["src/ReadTask.ts", "src/Timezones.ts", "docs/DATES.md"],
  [["source priority", "ReadTask.#extractTzOffset"], ["backfill", "ReadTask.#parseTag"]],
  ["zone, tz, tzSource and date-time tags returned by read()"]);

p("C14", "GPS coordinates read are correct, signed, and complete or absent",
  "For any representation of a position that ExifTool can report, read() returns signed decimal latitude and longitude equal to the true position, with hemisphere references and GPSPosition consistent with the signs. Out-of-range or unreadable coordinates, and (0,0) when configured to be ignored, yield no GPS values rather than wrong ones, and a nearby geolocation match may only correct a sign that is wrong.",
  ["inputs", "configurations"], "every latitude/longitude, textual form, hemisphere marking, geolocation hint and option",
  "Specs use a few coordinates, mostly far from the equator and meridian.",
  ["src/GPS.ts", "src/CoordinateParser.ts", "src/ReadTask.ts"],
  [["coordinate parsing", "parseCoordinate/parseCoordinates"], ["sign resolution", "processCoordinate in GPS.ts"]],
  ["GPS tags returned by read()"]);

p("C15", "GPS coordinates written are read back with value and sign",
  "Writing numeric latitude, longitude and altitude (any sign and magnitude, together or separately, into an image's EXIF or an XMP sidecar, whatever coordinates it held before) and reading the file back gives the same signed values within format precision with matching references; writing null removes the coordinate and its reference and nothing else. The object passed by the caller is not modified.",
  ["inputs", "histories"], "every coordinate triple, file type, and sequence of writes and deletions",
  "Specs write a few positions once.",
  ["src/WriteTask.ts", "src/GPS.ts"],
  [["reference derivation", "WriteTask.for"]],
  ["GPS tags returned by read() after write()"]);

p("C16", "read() returns every tag ExifTool reports, faithfully and without failing",
  "For any well-formed metadata JSON, read() resolves with every reported non-null tag present under its name; values that are not dates, GPS coordinates, binary placeholders or validity flags are unchanged, and recognised values keep their raw text and denote the same thing. No value, however odd, makes the read fail, lose other tags, or alter a different tag, and readRaw() returns the JSON values untouched.",
  ["inputs"], "every metadata JSON object: any tag names, nesting, lists and values, grouped or not",
  "Specs read a fixed set of fixtures.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryField.ts"],
  [["tag parsing with per-tag fallback", "ReadTask.#parseTag"]],
  ["tags returned by read()/readRaw()"]);

p("C17", "Malformed UTF-8 is repaired visibly and its bytes are kept",
  "A text value containing malformed UTF-8 is returned as text with replacement characters, and the exact original bytes are available under the same path in invalidUtf8Bytes; well-formed values are returned unchanged and never listed there. Binary payloads are unaffected, a caller's own filter takes precedence, and metadata that imitates the library's internal marker is still returned as what it is.",
  ["inputs"], "every byte sequence in every text tag, at any nesting",
  "Specs try a few malformed strings.",
  ["src/Utf8JsonFilter.ts", "src/InvalidUtf8Bytes.ts", "src/ReadTask.ts", "src/ReadRawTask.ts"],
  [["ExifTool filter", "Utf8JsonFilter.ts"], ["unwrapping", "unwrapInvalidUtf8Tags"]],
  ["tags and invalidUtf8Bytes returned by read()/readRaw()"]);

p("C18", "ExifTool's errors, warnings and counts are reported faithfully",
  "Every error line ExifTool prints makes a write-type call reject with that message, every warning line appears in the result's warnings (never as a rejection), and the created/updated/unchanged counts equal those ExifTool printed. Reads report errors and warnings, deduplicated, alongside whatever tags were obtained, and no message leaks into another call's result.",
  ["inputs", "histories"], "every mixture and order of error, warning and status lines, over sequences of calls",
  "Specs trigger a few real warnings and errors.",
  ["src/ExifToolTask.ts", "src/IsWarning.ts", "src/ErrorsAndWarnings.ts", "src/WriteTask.ts", "src/RewriteAllTagsTask.ts", "src/BinaryExtractionTask.ts"],
  [["line classification", "ExifToolTask.#parser/isWarning"], ["status counting", "WriteTask.parse"]],
  ["results and rejections"]);

p("C19", "Options: per-call overrides instance overrides default, without leaking",
  "Each call behaves according to its own options, falling back to the instance's and then to the defaults, field by field; options of one call never influence another call, another instance or the defaults. Nothing the caller passes (options, argument lists, tag objects, edit lists) is ever modified by the library.",
  ["configurations", "histories"], "every combination of default, instance and call options over sequences of calls",
  "Specs check a few options one at a time.",
  ["src/ExifTool.ts", "src/ExifToolOptions.ts", "src/DefaultExifToolOptions.ts", "src/ReadTask.ts", "src/WriteTask.ts"],
  [["option merging", "ExifTool.read/readRaw/write/editTags"], ["deprecated options", "handleDeprecatedOptions"]],
  ["commands received by the child", "results", "caller objects after the call"]);

p("C20", "Binary extraction yields the exact embedded bytes at the exact path",
  "Extracting an embedded binary tag to a file or buffer yields exactly the embedded bytes; the file appears at exactly the requested path and nowhere else. An existing destination is left untouched (and the call rejects) unless overwriting is requested, the source is never modified, and a missing tag or source rejects without leaving a file. (A destination whose name contains exiftool's copy-number code %c may be refused with an error instead; never mis-written.)",
  ["inputs", "histories"], "every payload, destination name and pre-existing state",
  "Specs extract a few fixture thumbnails to ordinary names.",
  ["src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/ExifTool.ts"],
  [["extraction to file", "BinaryExtractionTask.for/parse"], ["extraction to buffer", "BinaryToBufferTask.parse"]],
  ["destination bytes and directory contents", "returned buffer"]);

p("C21", "Settings notify and reset like a plain observable variable",
  "A setting always holds the last value assigned (or its default after reset), notifies every current listener exactly once per actual change with the old and new value, and never notifies unsubscribed listeners or on a no-op assignment. Settings are independent of each other, and parsing behaviour always reflects the values currently held.",
  ["histories"], "every sequence of assignments, subscriptions, unsubscriptions and resets",
  "Specs check short fixed sequences.",
  ["src/Settings.ts", "src/Timezones.ts"],
  [["observable value", "Setting"], ["reset of all", "Settings.reset"]],
  ["values, notifications, and parsing results"]);

p("C22", "deleteAllTags and rewriteAllTags remove or keep exactly what they should",
  "deleteAllTags removes every removable tag except those to be retained, whose values are unchanged, and image data is untouched. rewriteAllTags creates the output at exactly the requested path with the source's metadata, never modifies the source, and never overwrites an existing file (the destination is a file path, not an existing directory).",
  ["inputs", "histories"], "every set of written tags, retain list and destination",
  "Specs use one or two retain lists and fixture files.",
  ["src/ExifTool.ts", "src/DeleteAllTagsArgs.ts", "src/RewriteAllTagsTask.ts"],
  [["deletion with retain list", "ExifTool.deleteAllTags"], ["rewrite", "RewriteAllTagsTask.for/parse"]],
  ["tags read afterwards", "bytes of source and destination"]);

p("C23", "Tag description lookups are correct whatever the cache contains",
  "A tag description lookup returns what ExifTool's tag database says for that tag (or nothing when it has none), identically with a cold cache, a warm cache, a missing, truncated, unparseable or outdated cache file (or one for another language), or concurrent lookups. A damaged or unwritable cache never makes a lookup fail or return another tag's description, and a lookup that failed because exiftool failed does not make later lookups fail. (A well-formed cache file with the right version and language is trusted.)",
  ["inputs", "fault_sequences", "histories"], "every cache file content and every sequence of lookups",
  "Specs use healthy caches.",
  ["src/TagDescriptions.ts", "src/ListXTask.ts"],
  [["cache loading and validation", "TagDescriptions"]],
  ["descriptions returned"]);

p("C24", "Zone changes and arithmetic on date-times preserve what they promise",
  "Changing the zone of a date-time keeps the instant (or, when asked, the local time) exactly; adding a duration moves the instant or calendar fields exactly as calendar arithmetic says and keeps the zone; matching another date-time's zone succeeds exactly when the result is within the given distance of that date-time, keeping the instant if that suffices and otherwise the local time. Reading a date-time in a given zone interprets its local time there, whatever zone it has. Arithmetic never adds a zone, and the original object is never modified.",
  ["inputs"], "every date-time with or without a zone, every target zone and duration",
  "Specs try a few conversions.",
  ["src/ExifDateTime.ts"],
  [["zone change", "ExifDateTime.setZone"], ["arithmetic", "ExifDateTime.plus"], ["zone matching", "ExifDateTime.maybeMatchZone"]],
  ["fields, instant and zone of the result"]);

p("C25", "Results do not depend on the host's time zone",
  "Reading the same metadata, or parsing and rendering the same date, time or zone text, gives identical results whatever the time zone of the host process.",
  ["configurations", "inputs"], "every input, across host time zones",
  "The test suite runs in one host zone at a time, over fixed fixtures.",
  ["src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/Timezones.ts", "src/ReadTask.ts"],
  [["zoneless values carried in a fixed placeholder zone", "UnsetZone"]],
  ["serialised results in processes with different TZ"]);

p("C26", "Dates written are read back as the same date and time",
  "Writing a date-time, date or time (as a library object or text) to a tag that can hold it, and reading the file back, gives the same local fields, precision and (where the tag can hold one) offset; partial dates stay partial, and lists keep each item. Writing what was read back changes nothing (down to the millisecond).",
  ["inputs"], "every valid full or partial date/time, fraction and offset over EXIF, XMP and IPTC date tags",
  "Specs write a few dates.",
  ["src/WriteTask.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/ReadTask.ts"],
  [["rendering for writes", "toExifString"], ["parsing on read", "ReadTask.#parseTag"]],
  ["date tags returned by read() after write()"]);

p("C27", "Children are started as configured and within the configured limits",
  "Every exiftool child is started from the configured location with exactly the configured launch arguments and environment (plus LANG=C and the host's EXIFTOOL_HOME unless the configuration sets its own), never through a shell. At most maxProcs children serve commands at a time, no child serves more than maxTasksPerProcess commands, and an idle child is reused rather than replaced, also after a command that reported an error. An exiftool that cannot be started (missing, not executable, unknown location) never crashes the process: it is reported as startError, and calls made meanwhile resolve once exiftool becomes startable or reject when the instance is ended.",
  ["configurations", "schedules", "fault_sequences"], "every start configuration, load and start-up fault",
  "Specs start the vendored exiftool with one or two option sets on a healthy host.",
  ["src/ExifTool.ts", "src/DefaultExifToolOptions.ts", "src/ExiftoolPath.ts"],
  [["process factory and environment", "ExifTool constructor"], ["location", "ExifTool.exiftoolPath"], ["queueing", "ExifTool.enqueueTask"]],
  ["how children were started, commands per child, child counts, startError events, outcomes of calls"]);

p("C28", "No text stalls the caller",
  "No text, however long or repetitive, found in a file's metadata, in exiftool's output or passed by the caller (values, names, dates, zones, coordinates, messages, descriptions), makes parsing or sending it take more than time roughly proportional to its length: 16 KB of text costs the calling process well under a second.",
  ["inputs"], "every text, in every place where text is parsed",
  "Specs parse short, ordinary texts; catastrophic backtracking needs a specific long one.",
  ["src/ExifDateTime.ts", "src/TimeParsing.ts", "src/Timezones.ts", "src/CoordinateParser.ts", "src/BinaryField.ts", "src/IsWarning.ts", "src/ExifToolTask.ts", "src/TagDescriptions.ts", "src/TagEdit.ts", "src/WriteTask.ts"],
  [["regular expressions over untrusted text", "TimezoneOffsetRE, DecimalCoordsRE, BinaryFieldRE, WarningRE"]],
  ["processor time of the calling process"]);

p("C29", "A call changes only the file it names and keeps the promised backup",
  "Reading never changes a file. A write, edit or deletion that is rejected, or reports that nothing was updated, leaves every file as it was. One that succeeds changes the named file only (or creates it, if it is a sidecar that did not exist), keeps its picture data and permissions, and leaves the original bytes beside it as FILE_original, unless -overwrite_original is in effect or an earlier backup is already there; deleteAllTags always keeps the backup. The reported counts of created, updated and unchanged files agree with what happened.",
  ["histories", "inputs", "configurations"], "every history of reads, writes, edits, deletions and rewrites over good, damaged, empty and absent files, under every write-argument style",
  "Specs write to one fresh copy of one fixture at a time and do not compare the rest of the directory.",
  ["src/ExifTool.ts", "src/WriteTask.ts", "src/RewriteAllTagsTask.ts", "src/DeleteAllTagsArgs.ts", "src/BinaryExtractionTask.ts"],
  [["write arguments", "ExifTool.write, WriteTask.for"], ["deletion keeps its own arguments", "ExifTool.deleteAllTags"]],
  ["bytes, modification times and modes of all files in the directory", "WriteTaskResult"]);

p("C30", "Image data hashes identify the picture, not its metadata",
  "When a hash of the image data is requested (per call, by instance, or by the deprecated option), read() reports a digest of the requested type; it is the same for the same image data whatever the metadata and however often or in whichever order hashes are requested, and differs for different image data. Without a request there is no digest, and an unknown type rejects.",
  ["histories", "configurations"], "every history of metadata changes and reads, every hash type and way of requesting it",
  "Specs compare a few fixture digests.",
  ["src/ReadTask.ts", "src/ExifToolOptions.ts", "src/ExifTool.ts"],
  [["request arguments", "ReadTask.for"], ["deprecated option", "handleDeprecatedOptions"]],
  ["ImageDataHash returned by read()"]);

p("C31", "Reads report what ExifTool reports for the requested options",
  "For any file and any combination of the read options (numericTags, struct, useMWG, geolocation, keepUTCTime, extra arguments), read() reports exactly the tags that exiftool reports for that file with those options: tags that a numericTags name or wildcard matches with their numeric (unconverted) value, all others as printed, structures nested, flattened or both as requested. readRaw() reports exactly exiftool's JSON for the given arguments.",
  ["inputs", "configurations"], "every file, every numericTags list, struct mode and combination of arguments",
  "Specs read fixtures with the default options and a handful of variations.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/ExifTool.ts"],
  [["read arguments", "ReadTask.for, ReadRawTask.for"]],
  ["Tags returned by read() and readRaw()", "a second exiftool process given the same options"]);

p("C32", "String enums are ordered sets",
  "An enum made with strEnum (such as the exported tag name lists) behaves as the ordered set of its distinct values: membership, index, comparison, picking, omitting, reversing, iterating and stepping to the next value follow the declaration order; only values themselves are members (never null, a near miss, or the name of something every object inherits), and case-insensitive lookups return the declared value.",
  ["inputs"], "every list of ASCII values and every query",
  "Specs use one enum of three letters.",
  ["src/StrEnum.ts"],
  [["the enum", "strEnum"]],
  ["results of every helper"]);

require("node:fs").writeFileSync(require("node:path").join(__dirname, "..", "properties.jsonl"), P.map((x) => JSON.stringify(x)).join("\n") + "\n");
