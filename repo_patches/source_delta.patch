From ce4287270ade27920135eecbe0ce8eab78ac6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:42 +0000
Subject: [PATCH 01/44] fix: keep zoneless ExifDateTime wall clocks out of the
 system zone's DST gaps

A zoneless ExifDateTime was rendered, relabelled by setZone() and added to by
plus() via the system zone, so wall-clock times that fall in one of the system
zone's DST gaps were silently shifted by an hour.
---
 src/ExifDateTime.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..3b7139a 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -273,9 +273,10 @@ export class ExifDateTime {
     zone: string | Zone,
     opts?: ZoneOptions & { inferredZone?: boolean },
   ): Maybe<ExifDateTime> {
+    const keepLocalTime = opts?.keepLocalTime ?? !this.hasZone;
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      src: keepLocalTime ? this.#wallClock() : this.toDateTime(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -317,6 +318,12 @@ export class ExifDateTime {
     }));
   }
 
+  // If we don't have a zone, don't resolve our wall-clock fields in the system
+  // zone: if they fall in one of its DST gaps, Luxon would shift them.
+  #wallClock(): DateTime {
+    return this.toDateTime(this.hasZone ? undefined : "UTC");
+  }
+
   toEpochSeconds(overrideZone?: Maybe<string>) {
     return this.toDateTime(overrideZone).toUnixInteger();
   }
@@ -327,7 +334,7 @@ export class ExifDateTime {
 
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#wallClock().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -336,7 +343,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#wallClock(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
@@ -423,7 +430,7 @@ export class ExifDateTime {
   }
 
   plus(duration: DurationLike) {
-    let dt = this.toDateTime().plus(duration);
+    let dt = this.#wallClock().plus(duration);
     if (!this.hasZone) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
-- 
2.43.0


From 5c4d3ff75452a326d33247d185b5f6d2e2e7cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:42 +0000
Subject: [PATCH 02/44] fix: ExifTime.setZone() returns a time in the requested
 zone

The hour and minute were converted to the new zone, but the result was still
labelled with the prior zone (or no zone at all).
---
 src/ExifTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..9094b01 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -120,7 +120,7 @@ export class ExifTime {
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      this.zone,
+      getZoneName({ zone: dt.zone }),
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From 39228c24bfb6a6befcc03bf6be744cb9d29c4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:55 +0000
Subject: [PATCH 03/44] fix: don't parse ExifDate in the system zone

Calendar dates that the system zone skips entirely (like 2011-12-30 in
Pacific/Apia) were parsed as the following day.
---
 src/ExifDate.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 05a284b..3c396d4 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -54,7 +54,7 @@ export class ExifDate {
   }
   static fromISO(text: string): Maybe<ExifDate> {
     return StrictExifRE.test(toS(text).trim())
-      ? this.fromDateTime(DateTime.fromISO(text), text)
+      ? this.fromDateTime(DateTime.fromISO(text, { zone: "UTC" }), text)
       : undefined;
   }
 
@@ -62,7 +62,7 @@ export class ExifDate {
     if (blank(text)) return;
     text = toS(text).trim();
     for (const fmt of fmts) {
-      const dt = DateTime.fromFormat(text, fmt);
+      const dt = DateTime.fromFormat(text, fmt, { zone: "UTC" });
       if (validDateTime(dt)) {
         return this.fromDateTime(dt, text);
       }
@@ -87,7 +87,7 @@ export class ExifDate {
     if (!YearMonthRE.test(textStr)) return undefined;
 
     for (const fmt of ["y:MM", "y-MM", "y:M", "y-M"]) {
-      const dt = DateTime.fromFormat(textStr, fmt);
+      const dt = DateTime.fromFormat(textStr, fmt, { zone: "UTC" });
       if (validDateTime(dt)) {
         return new ExifDate(dt.year, dt.month, undefined, textStr);
       }
-- 
2.43.0


From aa7e51d6e467e2745116a8c5a05ec59560e76e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:32 +0000
Subject: [PATCH 04/44] fix: keep the sign of coordinates between -1 and 0
 degrees

---
 src/CoordinateParser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 945897f..0e5944f 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -275,13 +275,14 @@ export function parseCoordinate(
 
 function toDecimalDegrees(coord: Omit<Coordinate, "decimal">): number {
   const degrees = toFloat(coord.degrees) ?? 0;
-  const sign = Math.sign(degrees);
+  // "-0° 7' 39\"" is negative:
+  const negative = degrees < 0 || Object.is(degrees, -0);
   let decimal = Math.abs(degrees);
 
   decimal += Math.abs(toFloat(coord.minutes) ?? 0) / 60.0;
   decimal += Math.abs(toFloat(coord.seconds) ?? 0) / 3600.0;
 
-  if (coord.direction === "S" || coord.direction === "W" || sign < 0) {
+  if (coord.direction === "S" || coord.direction === "W" || negative) {
     decimal = -decimal;
   }
 
-- 
2.43.0


From 77a45479926c2164196bd29c45f2b6b912cccb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:16 +0000
Subject: [PATCH 05/44] fix: don't flip correct coordinate signs near the
 equator or prime meridian

---
 src/CoordinateParser.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 0e5944f..ed5460c 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -371,7 +371,9 @@ export function processCoordinate(
     geoValue != null &&
     Math.abs(Math.abs(geoValue) - Math.abs(value)) < MAX_LAT_LON_DIFF
   ) {
-    if (Math.sign(geoValue) !== Math.sign(value)) {
+    // If the value is already close to GeolocationPosition, the sign is fine:
+    // the nearest city may be on the other side of the equator or prime meridian
+    if (Math.abs(geoValue - value) >= MAX_LAT_LON_DIFF) {
       value = -value;
       warnings.push(
         `Corrected GPS${coordinateType} sign based on GeolocationPosition`,
@@ -379,8 +381,7 @@ export function processCoordinate(
     }
 
     // Force ref to correct value
-    const expectedRef =
-      geoValue < 0 ? expectedRefNegative : expectedRefPositive;
+    const expectedRef = value < 0 ? expectedRefNegative : expectedRefPositive;
     if (ref !== expectedRef) {
       ref = expectedRef;
       if (!blank(config.ref)) {
-- 
2.43.0


From c96caaa1203a52d7ea3ff3bb2aa2f2cc0ee1068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 06/44] fix: write() doesn't modify the given tags

---
 src/WriteTask.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..8b39f7c 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -166,6 +166,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 
     // See https://exiftool.org/TagNames/GPS.html
 
+    // The caller may reuse the given object: don't leak these into it.
+    tags = { ...tags };
+
     if (isNumber(tags.GPSLatitude)) {
       // ExifTool will also accept a number when writing GPSLatitudeRef,
       // positive for north latitudes or negative for south, or a string
-- 
2.43.0


From 1ca7df48ce300d8d8eb3b435567c9c4de1172d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:16 +0000
Subject: [PATCH 07/44] fix: accept comma-separated degree and degree/minute
 positions

---
 src/CoordinateParser.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index ed5460c..f9c3355 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -169,9 +169,9 @@ export function parseCoordinate(
   const dmsPattern =
     /^(?<degrees>-?\d+)\s*(?:°|DEG)\s*(?<minutes>\d+)\s*['′]\s*(?<seconds>\d+(?:\.\d+)?)\s*["″]\s?(?<direction>[NSEW])?[\s,]{0,3}(?<remainder>.*)$/i;
   const dmPattern =
-    /^(?<degrees>-?\d+)\s*(?:°|DEG)\s*(?<minutes>\d+(?:\.\d+)?)\s?['′]\s?(?<direction>[NSEW])?(?<remainder>.*)$/i;
+    /^(?<degrees>-?\d+)\s*(?:°|DEG)\s*(?<minutes>\d+(?:\.\d+)?)\s?['′]\s?(?<direction>[NSEW])?[\s,]{0,3}(?<remainder>.*)$/i;
   const dPattern =
-    /^(?<degrees>-?\d+(?:\.\d+)?)\s*(?:°|DEG)\s?(?<direction>[NSEW])?(?<remainder>.*)$/i;
+    /^(?<degrees>-?\d+(?:\.\d+)?)\s*(?:°|DEG)\s?(?<direction>[NSEW])?[\s,]{0,3}(?<remainder>.*)$/i;
 
   const trimmedInput = input.trimStart();
 
-- 
2.43.0


From 26059408d9ad5726cb2485b92df46fbe1fc0a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:02 +0000
Subject: [PATCH 08/44] fix: reject -execute arguments, which desynchronize
 commands and responses

---
 src/ExifToolTask.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index c3557d6..9cf246e 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -24,6 +24,12 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
             JSON.stringify(a),
         );
       }
+      // exiftool answers every -execute with its own {ready}: an extra one
+      // would hand this task's output to whichever task runs next. (exiftool
+      // ignores leading whitespace and accepts U+2212 as a hyphen.)
+      if (/^\s*[-−]execute\d*$/i.test(a)) {
+        throw new Error("Invalid argument: " + JSON.stringify(a));
+      }
     }
     if (options?.ignoreMinorErrors === true) {
       result.push("-ignoreMinorErrors");
-- 
2.43.0


From e3c4db5318468bf28d3e16f5a0f5695e19ddfb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:33 +0000
Subject: [PATCH 09/44] fix: parseJSON() only revives its own types

---
 src/JSON.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..8bd5a07 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -44,7 +44,10 @@ export function parseJSON(s: string) {
       "_ctor" in value &&
       typeof value._ctor === "string"
     ) {
-      return Revivers[value._ctor]?.(value as JsonObject) ?? value;
+      // hasOwn: "_ctor" may be "__proto__" or "toString"
+      return Object.hasOwn(Revivers, value._ctor)
+        ? (Revivers[value._ctor]?.(value as JsonObject) ?? value)
+        : value;
     }
     if (key === "invalidUtf8Bytes") {
       return reviveInvalidUtf8Bytes(value);
-- 
2.43.0


From 68bdd52399635c9c4b7c78f766db998f653d3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 10/44] fix: don't drop leading whitespace of written values

---
 src/WriteTask.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 8b39f7c..f628330 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,18 +45,14 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (htmlDecodeLayers > 0 && /^\s/.test(o) ? "|" : "") +
-        o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
+      ? (/^\s/.test(o) ? "|" : "") + o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
-    if (
-      !structValue &&
-      htmlDecodeLayers > 0 &&
-      entityProtected.startsWith(" ")
-    ) {
+    if (!structValue && entityProtected.startsWith(" ")) {
+      // ExifTool drops one space after the "=":
       entityProtected = "&#32;" + entityProtected.slice(1);
     }
     return htmlEncode(entityProtected);
-- 
2.43.0


From 101d895afac8bb1c42e93540d7b85ca1c9db1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:23 +0000
Subject: [PATCH 11/44] fix: serialize lists within written structs

---
 src/WriteTask.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index f628330..35cd6eb 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -60,9 +60,12 @@ function enc(
     return toExifString(o);
   } else if (Array.isArray(o)) {
     const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
-    return primitiveArray
-      ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+    // Within a struct, lists aren't split on `-sep`: they need to be serialized.
+    return structValue
+      ? `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`
+      : primitiveArray
+        ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
+        : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From f8bfcec290c6349d6c1fb1a86d033e5bc041707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:36 +0000
Subject: [PATCH 12/44] fix: metadata that contains {ready} doesn't end a
 response

---
 src/DefaultExifToolOptions.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..a43ceeb 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -60,8 +60,10 @@ export const DefaultExifToolOptions: Omit<
   exiftoolArgs: DefaultExiftoolArgs,
   exiftoolEnv: {},
   checkPerl: !isWin32(),
-  pass: "{ready}",
-  fail: "{ready}",
+  // ExifTool ends every response with "{ready}\n". Tag values, filenames, and
+  // error messages may include "{ready}", too: that isn't the end of a response.
+  pass: /\{ready\}\r?\n$/,
+  fail: /^\{ready\}\r?\n$/,
   exitCommand: "-stay_open\nFalse\n",
   versionCommand: new VersionTask().command,
   healthCheckIntervalMillis: 30000,
-- 
2.43.0


From 30cc552b4a7675fa71b3daa56883ff23eb2148e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:37 +0000
Subject: [PATCH 13/44] fix: don't mangle multibyte characters that straddle
 stdout chunks

---
 src/ExifTool.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..8c218e1 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -295,7 +295,17 @@ export class ExifTool {
       ignoreShebang,
       processFactory,
     };
-    this.batchCluster = new bc.BatchCluster(this.options);
+    this.batchCluster = new bc.BatchCluster({
+      ...this.options,
+      processFactory: async () => {
+        const proc = await processFactory();
+        // batch-cluster decodes every chunk separately, which would mangle
+        // multibyte characters that straddle two chunks.
+        proc.stdout?.setEncoding("utf8");
+        proc.stderr?.setEncoding("utf8");
+        return proc;
+      },
+    });
   }
 
   readonly exiftoolPath = lazy<Promise<string>>(async () => {
-- 
2.43.0


From ed95b27b5c1dba09d555fa50f5a73fd8d183e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 14/44] fix: recognize hyphenated IANA zones, like
 America/Port-au-Prince

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..1d92c97 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -432,7 +432,7 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 // https://en.wikipedia.org/wiki/List_of_tz_database_time_zones -- note that
 // "WET" and "W-SU" are full TZs (!!!), and "America/Indiana/Indianapolis" is
 // also a thing.
-const IanaFormatRE = /^\w{2,15}(?:\/\w{3,15}){0,2}$/;
+const IanaFormatRE = /^\w{2,15}(?:\/[\w-]{3,15}){0,2}$/;
 
 /**
  * Regex for parsing timezone offset strings.
-- 
2.43.0


From c5ec87f35295aa10ebf70590895c900f1f5e9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 15/44] fix: don't take "local" or "default" as the name of a
 time zone

---
 src/Timezones.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 1d92c97..e83a29b 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -432,7 +432,10 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 // https://en.wikipedia.org/wiki/List_of_tz_database_time_zones -- note that
 // "WET" and "W-SU" are full TZs (!!!), and "America/Indiana/Indianapolis" is
 // also a thing.
-const IanaFormatRE = /^\w{2,15}(?:\/[\w-]{3,15}){0,2}$/;
+// "local", "system", and "default" are Luxon aliases for the host's zone, which
+// says nothing about the zone that metadata refers to.
+const IanaFormatRE =
+  /^(?!(?:local|system|default)$)\w{2,15}(?:\/[\w-]{3,15}){0,2}$/i;
 
 /**
  * Regex for parsing timezone offset strings.
-- 
2.43.0


From 3e2fa9971cda5c5248b29337130d7cf16c4f0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 16/44] fix: a Z within text isn't a time zone

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index e83a29b..6e5c145 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -812,7 +812,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
+  /(?:(?<Z>Z)|(?:UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
 
 export interface TzSrc {
   /**
-- 
2.43.0


From dd0ece044cdc3c3e29b8cb8c18a74f68eb402454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 17/44] fix: extractZone() rejects offset minutes over 59

---
 src/Timezones.ts | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 6e5c145..0ed6122 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -994,12 +994,7 @@ export function extractZone(
         src: "Z",
         ...(blank(leftovers) ? {} : { leftovers }),
       };
-    const hours = parseInt(capturedGroups.hours ?? "0");
-    const minutes = parseInt(capturedGroups.minutes ?? "0");
-    const seconds = parseInt(capturedGroups.seconds ?? "0");
-    // Handle both ASCII minus (-) and Unicode minus (−, U+2212)
-    const sign = MinusRE.test(capturedGroups.sign ?? "") ? -1 : 1;
-    const offsetMinutes = sign * (hours * 60 + minutes + seconds / 60);
+    const offsetMinutes = parseTimezoneOffsetToMinutes(match[0]);
     const zone = offsetMinutesToZoneName(offsetMinutes);
     if (zone != null) {
       return {
-- 
2.43.0


From f7547c6865ccb5ab78e91f3211c382f500dba2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:49 +0000
Subject: [PATCH 18/44] fix: name zones whose offset has seconds

---
 src/Timezones.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 0ed6122..20b6faf 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -795,11 +795,18 @@ export function offsetMinutesToZoneName(
   }
   if (offsetMinutes === 0) return "UTC";
   const sign = offsetMinutes < 0 ? "-" : "+";
-  const absMinutes = Math.abs(offsetMinutes);
-  const hours = Math.floor(absMinutes / 60);
-  const minutes = Math.abs(absMinutes % 60);
+  // Archaic offsets may not be whole minutes (like "-00:25:21")
+  const absSeconds = Math.round(Math.abs(offsetMinutes) * 60);
+  const hours = Math.floor(absSeconds / 3600);
+  const minutes = Math.floor(absSeconds / 60) % 60;
+  const seconds = absSeconds % 60;
   // luxon now renders simple hour offsets without padding:
-  return `UTC${sign}` + hours + (minutes === 0 ? "" : `:${pad2(minutes)}`);
+  return (
+    `UTC${sign}` +
+    hours +
+    (minutes === 0 && seconds === 0 ? "" : `:${pad2(minutes)}`) +
+    (seconds === 0 ? "" : `:${pad2(seconds)}`)
+  );
 }
 
 function tzHourToOffset(n: unknown): Maybe<string> {
-- 
2.43.0


From 582ac03d91f61c1bff5eb753c29beb4ce96a43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 19/44] fix: don't shift times that fall in a DST gap of today

---
 src/ExifTime.ts | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 9094b01..303140a 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -12,13 +12,18 @@ export class ExifTime {
   static fromEXIF(text: string, defaultZone?: Maybe<string>): Maybe<ExifTime> {
     const s = toS(text).trim();
     if (s.length === 0) return;
-    const result = parseDateTime(text, timeFormats({ defaultZone }));
+    // Don't parse in the default zone: if it has a DST gap today, Luxon would
+    // shift times that fall within it.
+    const result = parseDateTime(text, timeFormats({ defaultZone: undefined }));
     if (result != null) {
+      const inferredZone = result.unsetZone
+        ? getZoneName({ zoneName: defaultZone })
+        : undefined;
       return this.fromDateTime(
         result.dt,
         text,
-        result.unsetZone ? undefined : getZoneName({ zone: result.dt.zone }),
-        result.inferredZone,
+        result.unsetZone ? inferredZone : getZoneName({ zone: result.dt.zone }),
+        inferredZone != null,
         result.unsetMilliseconds,
       );
     }
@@ -117,12 +122,18 @@ export class ExifTime {
       srcHasZone: this.hasZone,
       opts,
     });
-    return ExifTime.fromDateTime(
-      dt,
+    if (!validDateTime(dt)) return;
+    // Don't keep the local time via today's date: this time may not exist today
+    // in the system zone, or the given zone, due to DST.
+    const t = (opts?.keepLocalTime ?? !this.hasZone) ? this : dt;
+    return new ExifTime(
+      t.hour,
+      t.minute,
+      t.second,
+      this.millisecond == null ? undefined : t.millisecond,
       this.rawValue,
       getZoneName({ zone: dt.zone }),
       this.inferredZone,
-      this.millisecond == null,
     );
   }
 
-- 
2.43.0


From 4819b210ea67a69b8eaa2e6e845f221dd9ded11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:47 +0000
Subject: [PATCH 20/44] fix: ExifDateTime.fromMillis() doesn't modify the given
 options

---
 src/ExifDateTime.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 3b7139a..8cfc773 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -212,16 +212,16 @@ export class ExifDateTime {
     millis: number,
     options: DateTimeJSOptions & { rawValue?: string } = {},
   ) {
-    if (
-      options.zone == null ||
-      [UnsetZoneName, UnsetZone].includes(options.zone)
-    ) {
-      delete options.zone;
-    }
+    // (don't modify the caller's options!)
+    const zone =
+      options.zone == null || [UnsetZoneName, UnsetZone].includes(options.zone)
+        ? undefined
+        : options.zone;
     let dt = DateTime.fromMillis(millis, {
-      ...omit(options, "rawValue"),
+      ...omit(options, "rawValue", "zone"),
+      ...(zone == null ? {} : { zone }),
     });
-    if (options.zone == null) {
+    if (zone == null) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
     // TODO: is there a way to provide an invalid millisecond value?
-- 
2.43.0


From 492143ae03158a7c7d066e1509d55b619abedd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:00 +0000
Subject: [PATCH 21/44] fix: date-times repeated by the end of DST keep their
 instant

---
 src/ExifDateTime.ts | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 8cfc773..991e713 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -312,10 +312,20 @@ export class ExifDateTime {
     }
 
     // Cache the DateTime for performance
-    return (this.#dt ??= DateTime.fromObject(this.toDateTimeObject(), {
-      // Convert zone name string to Zone object so Luxon can recognize it
-      zone: normalizeZone(this.zone) ?? this.zone,
-    }));
+    if (this.#dt == null) {
+      const dt = DateTime.fromObject(this.toDateTimeObject(), {
+        // Convert zone name string to Zone object so Luxon can recognize it
+        zone: normalizeZone(this.zone) ?? this.zone,
+      });
+      // When DST ends, local times repeat: our offset says which one this is.
+      this.#dt =
+        this.hasZone && dt.isValid && dt.offset !== this.tzoffsetMinutes
+          ? (dt
+              .getPossibleOffsets()
+              .find((ea) => ea.offset === this.tzoffsetMinutes) ?? dt)
+          : dt;
+    }
+    return this.#dt;
   }
 
   // If we don't have a zone, don't resolve our wall-clock fields in the system
-- 
2.43.0


From 7c0d8d24154ec7255541951e1d2f4b18413f5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:44 +0000
Subject: [PATCH 22/44] fix: keep struct fields named "__proto__"

---
 src/ReadTask.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..7d28991 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -384,11 +384,13 @@ export class ReadTask extends ExifToolTask<Tags> {
         return value.map((ea) => this.#parseTag(tagName, ea));
       }
       if (isObject(value)) {
-        const result: Record<string, unknown> = {};
-        for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
-        }
-        return result;
+        // (assigning a "__proto__" field would lose it)
+        return Object.fromEntries(
+          Object.entries(value).map(([k, v]) => [
+            k,
+            this.#parseTag(tagName + "." + k, v),
+          ]),
+        );
       }
       if (typeof value === "string") {
         const b = BinaryField.fromRawValue(value);
-- 
2.43.0


From c4db71680588bf42dd166696e015475f4e0ec5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:55 +0000
Subject: [PATCH 23/44] fix: don't adjust for daylight savings to an offset
 that isn't used anywhere

---
 src/Timezones.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 20b6faf..2644db7 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1129,7 +1129,8 @@ export function extractTzOffsetFromTags(
     // UGH. See https://github.com/photostructure/exiftool-vendored.js/issues/215
     const minutes = adjustFn(t, offset.tz);
     if (minutes != null) {
-      const adjustedZone = incrementZone(offset.tz, minutes);
+      // (ignore adjustments to offsets that aren't used anywhere)
+      const adjustedZone = normalizeZone(incrementZone(offset.tz, minutes));
       if (adjustedZone != null)
         return {
           zone: adjustedZone.name,
-- 
2.43.0


From 6b70046c62ff96b20a728fa2132977802ec26ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:43 +0000
Subject: [PATCH 24/44] fix: don't infer a photo's zone from the system zone
 and a zoneless TimeStamp

---
 src/Timezones.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 2644db7..e40b672 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1190,6 +1190,8 @@ export function extractTzOffsetFromTimeStamp(
     if (ea.zone != null) {
       return { zone: ea.zone, tz: ea.zone, src: tagName };
     }
+    // Without a zone, TimeStamp would be taken to be in the system zone:
+    if (!ts.hasZone) continue;
     const deltaMinutes = Math.floor(
       (ea.toEpochSeconds("UTC") - ts.toEpochSeconds()) / 60,
     );
-- 
2.43.0


From 19d0efc2286b8d53198ffd61c1200827b7eb5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:56 +0000
Subject: [PATCH 25/44] fix: editTags() rejects every spelling of -api and -sep
 arguments

---
 src/WriteTask.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 35cd6eb..8a4f527 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -221,7 +221,8 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     options: Partial<WriteTaskOptions> & Required<ExifToolTaskOptions>,
   ): WriteTask {
     for (const arg of toArray(options.writeArgs)) {
-      if (/^-(?:api|sep)/i.test(arg)) {
+      // (exiftool ignores leading whitespace and accepts U+2212 as a hyphen)
+      if (/^\s*[-−](?:api|sep)/i.test(arg)) {
         throw new Error(
           `writeArgs argument is not compatible with exact tag edits: ${arg}`,
         );
-- 
2.43.0


From 06d99afd5d5c84b621852c38a0de172a326a8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:08 +0000
Subject: [PATCH 26/44] fix: reject instead of crashing the process on Perl
 installation errors

---
 src/ExifToolTask.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index 9cf246e..c383bf1 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -4,7 +4,7 @@ import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
 import { blank, notBlank, splitLines } from "./String";
 
-const BadPerlInstallationRE = /Can't locate \S+ in @INC/i;
+const BadPerlInstallationRE = /^Can't locate \S+ in @INC/im;
 
 export type ExifToolTaskOptions = Pick<ExifToolOptions, "ignoreMinorErrors">;
 
@@ -40,6 +40,7 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
 
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
+  #badPerlError: Maybe<Error>;
 
   constructor(
     readonly args: string[],
@@ -55,13 +56,19 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       // This isn't an error we can recover from: there's a Perl module that
       // needs to be installed. See
       // https://github.com/photostructure/exiftool-vendored.js/issues/168 for
-      // details.
-      throw new Error(buf.toString());
+      // details. (We're in a stream listener: throwing from here would be an
+      // uncaught exception)
+      this.#badPerlError ??= new Error(buf.toString());
     }
     super.onStderr(buf);
   }
 
+  override reject(error: Error): boolean {
+    return super.reject(this.#badPerlError ?? error);
+  }
+
   #parser(stdout: string, stderr: string | undefined, passed: boolean): T {
+    if (this.#badPerlError != null) throw this.#badPerlError;
     let error: Maybe<Error>;
     if (notBlank(stderr) || !passed) {
       for (const line of splitLines(stderr ?? "")) {
-- 
2.43.0


From dc44913d17431907b0d031f6126143c3e6395076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:08 +0000
Subject: [PATCH 27/44] fix: errors about files named like warnings are errors

---
 src/IsWarning.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IsWarning.ts b/src/IsWarning.ts
index 0ff52f5..22ab692 100644
--- a/src/IsWarning.ts
+++ b/src/IsWarning.ts
@@ -7,7 +7,10 @@ export interface IgnorableError {
 
 // This is quite lax by design: it's up to the user to check .warnings!
 
-const WarningRE = /\bwarning: |\bnothing to (?:write|do)\b/i;
+// (But error messages end with a filename, which may hold anything.)
+
+const WarningRE =
+  /^error: nothing to (?:write|do)\b|^(?!error: ).*(?:\bwarning: |\bnothing to (?:write|do)\b)/is;
 
 /**
  * This is the default implementation of IgnorableError, and ignores null,
-- 
2.43.0


From c6fb522475a5018f056665c0d6fe56910ac8a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:38 +0000
Subject: [PATCH 28/44] fix: honor the deprecated includeImageDataMD5 option

---
 src/ExifTool.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 8c218e1..774e227 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -249,10 +249,11 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      // (the defaults set imageHashType, so this must be before the merge)
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -391,7 +392,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
-- 
2.43.0


From 06f7ce4d03c4aafae27a1161b2839089510c8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:09 +0000
Subject: [PATCH 29/44] fix: write extracted and rewritten files to the
 requested path when it contains %

---
 src/BinaryExtractionTask.ts |  3 ++-
 src/OutputFilename.ts       | 26 ++++++++++++++++++++++++++
 src/RewriteAllTagsTask.ts   |  3 ++-
 3 files changed, 30 insertions(+), 2 deletions(-)
 create mode 100644 src/OutputFilename.ts

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 5f71225..904f469 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -4,6 +4,7 @@ import { ExifToolOptions } from "./ExifToolOptions";
 import { ExifToolTask } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
+import { toOutputFilenameFormat } from "./OutputFilename";
 import { toS } from "./String";
 import { validateTagName } from "./TagNameValidation";
 
@@ -58,7 +59,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
       // I also tried `-out` instead of `-W`, and that didn't work at least on
       // ExifTool 13.17.
       forceWrite ? "-W!" : "-W",
-      path.resolve(imgDest),
+      toOutputFilenameFormat(path.resolve(imgDest)),
       path.resolve(imgSrc),
     ];
     return new BinaryExtractionTask(args, options);
diff --git a/src/OutputFilename.ts b/src/OutputFilename.ts
new file mode 100644
index 0000000..1aa7e0a
--- /dev/null
+++ b/src/OutputFilename.ts
@@ -0,0 +1,26 @@
+// ExifTool's copy number codes, like `%c`, `%-c`, `%.2nc`, and `%C`:
+const CopyNumberRE = /%[-+]?\d*[.:]?\d*[lun]?[cC]/;
+
+/**
+ * ExifTool treats output filenames as format strings: `%d`, `%f`, `%e`, `%t`,
+ * (and so on) are replaced with parts of the source filename or tag name.
+ *
+ * There isn't an escape sequence for `%`, but `%0f` ("zero characters of the
+ * source filename") is replaced with an empty string, so it prevents a prior
+ * `%` from being interpreted as the start of a format code.
+ *
+ * @return a format string that ExifTool will expand to exactly `path`
+ * @throws if `path` contains a copy number code (like `%c`): those are expanded
+ * after all other codes, so they cannot be escaped.
+ *
+ * @see https://exiftool.org/exiftool_pod.html#w-EXT-or-FMT--textOut
+ */
+export function toOutputFilenameFormat(path: string): string {
+  if (CopyNumberRE.test(path)) {
+    throw new Error(
+      `Unsupported destination ${JSON.stringify(path)}: ` +
+        `ExifTool would replace ${CopyNumberRE.exec(path)?.[0]} with a copy number.`,
+    );
+  }
+  return path.replace(/%/g, "%%0f");
+}
diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 61a4d9d..c1bd9b4 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -2,6 +2,7 @@ import * as _path from "node:path";
 import { compact } from "./Array";
 import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
+import { toOutputFilenameFormat } from "./OutputFilename";
 
 /**
  * Task for rewriting all metadata tags in a file, which can repair corrupted metadata.
@@ -35,7 +36,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       "-icc_profile",
       opts.allowMakerNoteRepair ? "-F" : undefined,
       "-out",
-      _path.resolve(imgDest),
+      toOutputFilenameFormat(_path.resolve(imgDest)),
       _path.resolve(imgSrc),
     ]);
     return new RewriteAllTagsTask(args, opts);
-- 
2.43.0


From d5b5725edcc7e9c43c0a07c5ca730ba0ecf2abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 30/44] fix: extractBinaryTagToBuffer() returns payloads that
 are text

---
 src/BinaryToBufferTask.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index 28bf4c1..d62b8ad 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -56,8 +56,11 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
 
 const B64Prefix = "base64:";
 
-function decode(data: Maybe<string>): Maybe<Buffer> {
-  return !data?.startsWith(B64Prefix)
+function decode(data: unknown): Maybe<Buffer> {
+  return typeof data !== "string"
     ? undefined
-    : Buffer.from(data.substring(B64Prefix.length), "base64");
+    : data.startsWith(B64Prefix)
+      ? Buffer.from(data.substring(B64Prefix.length), "base64")
+      : // ExifTool doesn't base64-encode payloads that are text, like XMP:
+        Buffer.from(data, "utf8");
 }
-- 
2.43.0


From 2fc5b3067d77345976e9fe1a771cd047fa811674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 31/44] fix: extractBinaryTagToBuffer() accepts tag names with
 a group

---
 src/BinaryToBufferTask.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index d62b8ad..5745ad9 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -36,9 +36,10 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
       {
         const result = decode(obj[this.tagname]);
         if (result != null) return result;
-      } // hmm, incorrect casing. Check the other keys.
+      } // hmm, incorrect casing, or a group prefix. Check the other keys.
+      const name = baseName(this.tagname);
       for (const k of Object.keys(obj)) {
-        if (k.toLowerCase() === this.tagname.toLowerCase()) {
+        if (baseName(k) === name) {
           const result = decode(obj[k]);
           if (result != null) return result;
         }
@@ -56,6 +57,11 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
 
 const B64Prefix = "base64:";
 
+// ExifTool doesn't include the requested group, nor `#`, in the result:
+function baseName(tagname: string): string {
+  return tagname.replace(/^.*:|#$/g, "").toLowerCase();
+}
+
 function decode(data: unknown): Maybe<Buffer> {
   return typeof data !== "string"
     ? undefined
-- 
2.43.0


From 98f8662d2547a09b53c184d145dae843cea8b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:29 +0000
Subject: [PATCH 32/44] fix: deleteAllTags() keeps the values of tags retained
 by a glob

---
 src/ExifTool.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 774e227..f6c174e 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -629,7 +629,8 @@ export class ExifTool {
     const writeArgs = [...DeleteAllTagsArgs];
     for (const ea of opts?.retain ?? []) {
       validateTagName(ea, "retain tag name");
-      writeArgs.push(`-${ea}<${ea}`);
+      // Globs would copy every matching value to every matching tag:
+      writeArgs.push(/[*?]/.test(ea) ? `-all:all<${ea}` : `-${ea}<${ea}`);
     }
     return this.write(file, {}, { ...omit(opts ?? {}, "retain"), writeArgs });
   }
-- 
2.43.0


From 9f21ab48c7729fef930cc434d37a66784c627a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 33/44] fix: rewriteAllTags() resolves when the output was
 created

---
 src/RewriteAllTagsTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index c1bd9b4..c8ae5c4 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -50,7 +50,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
         throw error;
       }
     }
-    if (null == data.match(/^\s*1 image files creat/i)) {
+    if (null == data.match(/^\s*1 image files (?:creat|copied)/im)) {
       throw (
         error ??
         new Error(
-- 
2.43.0


From 778d8fe87486fb52be39af2bf6375c45f5c8afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 34/44] fix: decode apostrophes in tag descriptions

---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..5c48b20 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -583,7 +583,7 @@ export class TagDescriptions {
       .replace(/&lt;/g, "<")
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
-      .replace(/&apos;/g, "'")
+      .replace(/&(?:apos|#39);/g, "'")
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From 5bd383797451f4729b82404793214dfe1ec53d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 35/44] fix: unknown tags named like Object.prototype keys have
 no description

---
 src/TagDescriptions.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 5c48b20..11f55dd 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,13 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  #getCurated(tagName: string): TagDescription | undefined {
+    // Don't return inherited properties, like "constructor" or "toString":
+    return Object.prototype.hasOwnProperty.call(this.#curated, tagName)
+      ? this.#curated[tagName]
+      : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +421,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#getCurated(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +432,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#getCurated(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From f66be4834e0a7079ef380e111ac22e75ce61c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 36/44] fix: retry loading tag descriptions after an error

---
 src/TagDescriptions.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 11f55dd..ff9a49f 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -454,7 +454,16 @@ export class TagDescriptions {
     this.#cache.clear();
   }
 
-  readonly #cache = lazy(async (): Promise<Map<string, TagDescription>> => {
+  readonly #cache = lazy(
+    (): Promise<Map<string, TagDescription>> =>
+      this.#load().catch((err: unknown) => {
+        // Don't hold onto errors, so subsequent lookups can try again
+        this.#cache.clear();
+        throw err;
+      }),
+  );
+
+  async #load(): Promise<Map<string, TagDescription>> {
     // Get ExifTool version for cache key
     const version = await this.#exiftool.version();
     const lang = this.#options.language ?? "en";
@@ -486,7 +495,7 @@ export class TagDescriptions {
 
     this.#cacheSync = parsed;
     return parsed;
-  });
+  }
 
   #getCacheDir(): string {
     return this.#options.cacheDir ?? join(tmpdir(), "exiftool-vendored");
-- 
2.43.0


From de09d36d621d59b9cbfb965f5126288f695679af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:36 +0000
Subject: [PATCH 37/44] fix: date-times with a known offset keep their fields
 near historical zone changes

---
 src/ExifDateTime.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 991e713..d060b51 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -3,6 +3,7 @@ import {
   DateTime,
   DateTimeJSOptions,
   DurationLike,
+  FixedOffsetZone,
   ToISOTimeOptions,
   Zone,
   ZoneOptions,
@@ -317,13 +318,16 @@ export class ExifDateTime {
         // Convert zone name string to Zone object so Luxon can recognize it
         zone: normalizeZone(this.zone) ?? this.zone,
       });
-      // When DST ends, local times repeat: our offset says which one this is.
+      // When DST ends, local times repeat, and Luxon may shift local times near
+      // historical offset changes: our offset says which instant this is.
+      const exact =
+        this.hasZone && dt.isValid && this.tzoffsetMinutes != null
+          ? DateTime.fromObject(this.toDateTimeObject(), {
+              zone: FixedOffsetZone.instance(this.tzoffsetMinutes),
+            }).setZone(dt.zone)
+          : undefined;
       this.#dt =
-        this.hasZone && dt.isValid && dt.offset !== this.tzoffsetMinutes
-          ? (dt
-              .getPossibleOffsets()
-              .find((ea) => ea.offset === this.tzoffsetMinutes) ?? dt)
-          : dt;
+        exact != null && exact.offset === this.tzoffsetMinutes ? exact : dt;
     }
     return this.#dt;
   }
-- 
2.43.0


From 2888a9b6568e83fc8d8bc5e8ce99906e574eb144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:36 +0000
Subject: [PATCH 38/44] fix: dates before the year 1000 are written with
 four-digit years

---
 src/DateTime.ts | 2 +-
 src/ExifDate.ts | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DateTime.ts b/src/DateTime.ts
index 1bb34ad..0964bc6 100644
--- a/src/DateTime.ts
+++ b/src/DateTime.ts
@@ -30,7 +30,7 @@ export function dateTimeToExif(
   opts?: { includeOffset?: boolean; includeMilliseconds?: boolean },
 ): string {
   return d.toFormat(
-    "y:MM:dd HH:mm:ss" +
+    "yyyy:MM:dd HH:mm:ss" +
       (opts?.includeMilliseconds === true ? ".u" : "") +
       (opts?.includeOffset === false ? "" : "ZZ"),
   );
diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 3c396d4..bf56167 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -152,7 +152,10 @@ export class ExifDate {
   }
 
   toExifString(): string {
-    return this.toString(":");
+    // ExifTool requires 4-digit years
+    return this.toString(":").replace(/^\d{1,3}(?=:|$)/, (ea) =>
+      ea.padStart(4, "0"),
+    );
   }
 
   toString(sep = "-"): string {
-- 
2.43.0


From fc11f45f7964765b81a8739f3e889b62f42092f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:36 +0000
Subject: [PATCH 39/44] fix: lists of dates and booleans are written item by
 item

---
 src/WriteTask.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 8a4f527..edc9029 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -59,7 +59,13 @@ function enc(
   } else if (isDateOrTime(o)) {
     return toExifString(o);
   } else if (Array.isArray(o)) {
-    const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
+    const primitiveArray = o.every(
+      (ea) =>
+        isString(ea) ||
+        isNumber(ea) ||
+        typeof ea === "boolean" ||
+        isDateOrTime(ea),
+    );
     // Within a struct, lists aren't split on `-sep`: they need to be serialized.
     return structValue
       ? `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`
-- 
2.43.0


From afd81d261771accb2781d92b12fd3939fc7c4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:36 +0000
Subject: [PATCH 40/44] fix: write tiny GPS coordinates and altitudes without
 exponents

---
 src/WriteTask.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index edc9029..1952663 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -30,6 +30,12 @@ export function htmlEncode(s: string): string {
   );
 }
 
+/** @return n without an exponent (`String(1e-7)` is "1e-7") */
+function toDecimalString(n: number): string {
+  const s = String(n);
+  return s.includes("e-") ? n.toFixed(20) : s;
+}
+
 function enc(
   o: unknown,
   structValue = false,
@@ -212,7 +218,13 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
     for (const key of keys(tags)) {
       validateTagName(key);
       const val = tags[key];
-      fieldsToSet.push(`-${key}=${enc(val)}`);
+      // ExifTool doesn't accept exponents for these tags:
+      const str =
+        isNumber(val) &&
+        /^GPS(?:Latitude|Longitude|Altitude)(?:Ref)?$/.test(key)
+          ? toDecimalString(val)
+          : enc(val);
+      fieldsToSet.push(`-${key}=${str}`);
     }
 
     return WriteTask.#forFields(filename, fieldsToSet, options);
-- 
2.43.0


From 29b4eb695ee9d572f98ce07cfa16128d23096da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 41/44] fix: don't crash when the exiftool process cannot be
 spawned

A missing or non-executable exiftoolPath was thrown as an uncaught exception:
batch-cluster doesn't listen to child processes that have no pid.
---
 src/ExifTool.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index f6c174e..0cfc216 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -300,6 +300,13 @@ export class ExifTool {
       ...this.options,
       processFactory: async () => {
         const proc = await processFactory();
+        if (proc.pid == null) {
+          // batch-cluster doesn't listen to processes that failed to spawn
+          // (due to ENOENT, say), and unheard "error" events are thrown.
+          throw await new Promise<Error>((resolve) =>
+            proc.once("error", resolve),
+          );
+        }
         // batch-cluster decodes every chunk separately, which would mangle
         // multibyte characters that straddle two chunks.
         proc.stdout?.setEncoding("utf8");
-- 
2.43.0


From 3ce05fe767299c5af8e1ebcd6e82d2b37d18688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:17 +0000
Subject: [PATCH 42/44] fix: ExifDate.toDate() of years before 100 was in the
 20th century

---
 src/ExifDate.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index bf56167..b9d5bbf 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -135,7 +135,10 @@ export class ExifDate {
   ) {}
 
   toDate(): Date {
-    return new Date(this.year, (this.month ?? 1) - 1, this.day ?? 1);
+    // (the Date constructor takes years 0 to 99 to be in the 20th century)
+    const result = new Date(2000, 0, 1);
+    result.setFullYear(this.year, (this.month ?? 1) - 1, this.day ?? 1);
+    return result;
   }
 
   /**
-- 
2.43.0


From 8c090fde16b137ab1986e795f20706d8409dcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:43 +0000
Subject: [PATCH 43/44] fix: ExifDate.from() of a time, like "00:00:00", was
 today's date

---
 src/ExifDate.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index b9d5bbf..ed9faa3 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -31,6 +31,7 @@ export interface ExifDateFull extends ExifDateYearMonth {
 export type ExifDatePartial = ExifDateYearOnly | ExifDateYearMonth;
 
 const StrictExifRE = /^\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2}$/;
+const IsoDateRE = /^[+-]?\d+-\d{1,2}-\d{1,2}$/;
 const YearMonthRE = /^\d{1,4}[:-]\d{1,2}$/;
 const YearOnlyRE = /^\d{1,4}$/;
 const LooseExifRE = /^\S+\s+\S+\s+\S+$/;
@@ -53,7 +54,8 @@ export class ExifDate {
     );
   }
   static fromISO(text: string): Maybe<ExifDate> {
-    return StrictExifRE.test(toS(text).trim())
+    // (Luxon would parse a time, like "10:22:21", as a time _today_)
+    return IsoDateRE.test(toS(text).trim())
       ? this.fromDateTime(DateTime.fromISO(text, { zone: "UTC" }), text)
       : undefined;
   }
-- 
2.43.0


From 65ec691624905130666ff3ce2200a0ec6326d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 44/44] fix: text that mentions binary data is not a binary
 field

---
 src/BinaryField.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BinaryField.ts b/src/BinaryField.ts
index b1a52aa..582cf6c 100644
--- a/src/BinaryField.ts
+++ b/src/BinaryField.ts
@@ -6,7 +6,9 @@ const BinaryFieldRE =
   // 1000000000 bytes is 1 GB. The largest binary field I've seen is ~5 MB (7
   // chars): 10 chars is absurdly large, and is just to avoid the
   // `js/polynomial-redos` eslint rule.
-  /Binary(?: data)? (\d{1,10}) bytes/i;
+  //
+  // (Text that only mentions a number of bytes isn't a binary field.)
+  /^\(?Binary(?: data)? (\d{1,10}) bytes(?:, use -b option to extract)?\)?$/i;
 
 /**
  * Represents a binary field in the Exif data.
-- 
2.43.0

