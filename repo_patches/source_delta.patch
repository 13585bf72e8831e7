From cc086a9adcc5c8cc0a9fb248f5d2d6ef7074a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:49 +0000
Subject: [PATCH 01/37] fix: score flush waits for all queued and in-flight
 scores

A flush issued while an earlier one was still in flight returned the earlier
promise, so scores queued in between were neither sent nor awaited, and a
timer firing in that window left the timer slot occupied with scores stuck in
the queue. Track in-flight batches instead of a single flush promise.
---
 packages/client/src/score/index.ts | 41 +++++++++++++++---------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..b269144 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -7,7 +7,6 @@ import {
   getGlobalLogger,
   LogLevel,
   safeSetTimeout,
-  IngestionResponse,
 } from "@langfuse/core";
 import { Span, trace } from "@opentelemetry/api";
 
@@ -26,7 +25,7 @@ const MAX_BATCH_SIZE = 100;
 export class ScoreManager {
   private apiClient: LangfuseAPIClient;
   private eventQueue: IngestionEvent[] = [];
-  private flushPromise: Promise<void> | null = null;
+  private inFlightBatches: Set<Promise<void>> = new Set();
   private flushTimer: any = null;
   private flushAtCount: number;
   private flushIntervalSeconds: number;
@@ -102,10 +101,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -276,30 +275,30 @@ export class ScoreManager {
         this.flushTimer = null;
       }
 
-      const promises: Promise<IngestionResponse | void>[] = [];
-
       while (this.eventQueue.length > 0) {
         const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);
 
-        promises.push(
-          this.apiClient.ingestion
-            .batch({ batch })
-            .then((res) => {
-              if (res.errors?.length > 0) {
-                this.logger.error("Error ingesting scores:", res.errors);
-              }
-            })
-            .catch((err) => {
-              this.logger.error("Failed to export score batch:", err);
-            }),
+        const batchPromise = this.apiClient.ingestion
+          .batch({ batch })
+          .then((res) => {
+            if (res.errors?.length > 0) {
+              this.logger.error("Error ingesting scores:", res.errors);
+            }
+          })
+          .catch((err) => {
+            this.logger.error("Failed to export score batch:", err);
+          });
+
+        this.inFlightBatches.add(batchPromise);
+        void batchPromise.finally(() =>
+          this.inFlightBatches.delete(batchPromise),
         );
       }
 
-      await Promise.all(promises);
+      // Also wait for batches sent by an earlier flush that is still running
+      await Promise.all(Array.from(this.inFlightBatches));
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +317,7 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    return this.handleFlush();
   }
 
   /**
-- 
2.43.0


From 163320643fb102cf485dbd451f3b33b94296e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:16 +0000
Subject: [PATCH 02/37] fix: do not cache a prompt fetched before it was
 updated or deleted

A fetch or background refresh still in flight when the prompt was updated or
deleted stored its outdated result after the invalidation, so later requests
kept returning the value from before the change.
---
 packages/client/src/prompt/promptCache.ts   | 12 ++++++++++++
 packages/client/src/prompt/promptManager.ts |  6 +++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index bfae38d..1ab2c4c 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -22,11 +22,13 @@ export class LangfusePromptCache {
   private _cache: Map<string, LangfusePromptCacheItem>;
   private _defaultTtlSeconds: number;
   private _refreshingKeys: Map<string, Promise<void>>;
+  private _invalidationCounts: Map<string, number>;
 
   constructor() {
     this._cache = new Map<string, LangfusePromptCacheItem>();
     this._defaultTtlSeconds = DEFAULT_PROMPT_CACHE_TTL_SECONDS;
     this._refreshingKeys = new Map<string, Promise<void>>();
+    this._invalidationCounts = new Map<string, number>();
   }
 
   public getIncludingExpired(key: string): LangfusePromptCacheItem | null {
@@ -79,6 +81,11 @@ export class LangfusePromptCache {
     return this._refreshingKeys.has(key);
   }
 
+  /** How often a prompt was invalidated; lets a fetch detect that its result is outdated. */
+  public getInvalidationCount(promptName: string): number {
+    return this._invalidationCounts.get(promptName) ?? 0;
+  }
+
   public invalidate(promptName: string): void {
     getGlobalLogger().debug(
       "Invalidating cache keys for",
@@ -86,6 +93,11 @@ export class LangfusePromptCache {
       this._cache.keys(),
     );
 
+    this._invalidationCounts.set(
+      promptName,
+      this.getInvalidationCount(promptName) + 1,
+    );
+
     for (const key of this._cache.keys()) {
       if (key.startsWith(promptName)) {
         this._cache.delete(key);
diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index 1d1cb6f..0910787 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -420,6 +420,7 @@ export class PromptManager {
     fetchTimeoutMs?: number;
   }): Promise<LangfusePromptClient> {
     const cacheKey = this.cache.createKey(params);
+    const invalidationCount = this.cache.getInvalidationCount(params.name);
 
     try {
       const {
@@ -450,7 +451,10 @@ export class PromptManager {
         prompt = new TextPromptClient(data);
       }
 
-      this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      // Do not cache a value requested before the prompt was updated or deleted
+      if (this.cache.getInvalidationCount(name) === invalidationCount) {
+        this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      }
 
       return prompt;
     } catch (error) {
-- 
2.43.0


From 9b06fcc73b7111bd5146ca080635e0a29a59cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:27 +0000
Subject: [PATCH 03/37] fix: updating a prompt no longer evicts other prompts
 whose name starts with its name

---
 packages/client/src/prompt/promptCache.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index 1ab2c4c..28d7148 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -99,7 +99,10 @@ export class LangfusePromptCache {
     );
 
     for (const key of this._cache.keys()) {
-      if (key.startsWith(promptName)) {
+      if (
+        key.startsWith(`${promptName}-version:`) ||
+        key.startsWith(`${promptName}-label:`)
+      ) {
         this._cache.delete(key);
       }
     }
-- 
2.43.0


From 7b2ee82c9edf370f21218a7abeea098abd355493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:46 +0000
Subject: [PATCH 04/37] fix: compiling a chat prompt no longer throws on a null
 entry in a placeholder value

---
 packages/client/src/prompt/promptClients.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..d5b810c 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -340,7 +340,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           messagesWithPlaceholdersReplaced.push(
@@ -430,7 +433,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           // Complete placeholder fill-in, replace with it
-- 
2.43.0


From ec0f6fa851b4188583934accdd827287126be1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:47 +0000
Subject: [PATCH 05/37] fix: keep closing braces of compact nested JSON when
 converting prompts for LangChain

Two adjacent closing braces were always treated as an already escaped pair, so
the conversion of e.g. {"a":{"b":1}} lost its last brace.
---
 packages/client/src/prompt/promptClients.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index d5b810c..779a6ed 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -110,7 +110,8 @@ abstract class BasePromptClient {
    */
   protected escapeJsonForLangchain(text: string): string {
     const out: string[] = []; // collected characters
-    const stack: boolean[] = []; // true = “this { belongs to JSON”, false = normal “{”
+    // how each open brace was treated: JSON “{”, normal “{” or existing “{{”
+    const stack: ("json" | "single" | "double")[] = [];
     let i = 0;
     const n = text.length;
 
@@ -122,6 +123,7 @@ abstract class BasePromptClient {
         // leave existing “{{ …” untouched
         if (i + 1 < n && text[i + 1] === "{") {
           out.push("{{");
+          stack.push("double");
           i += 2;
           continue;
         }
@@ -134,21 +136,23 @@ abstract class BasePromptClient {
 
         const isJson = j < n && (text[j] === "'" || text[j] === '"');
         out.push(isJson ? "{{" : "{");
-        stack.push(isJson); // remember how this “{” was treated
+        stack.push(isJson ? "json" : "single"); // remember how this “{” was treated
         i += 1;
         continue;
       }
 
       // ---------- closing brace ----------
       if (ch === "}") {
-        // leave existing “… }}” untouched
-        if (i + 1 < n && text[i + 1] === "}") {
+        // leave existing “… }}” untouched, unless it closes two single braces
+        const innermost = stack[stack.length - 1] ?? "double";
+        if (innermost === "double" && i + 1 < n && text[i + 1] === "}") {
           out.push("}}");
+          stack.pop();
           i += 2;
           continue;
         }
 
-        const isJson = stack.pop() ?? false;
+        const isJson = stack.pop() === "json";
         out.push(isJson ? "}}" : "}");
         i += 1;
         continue;
-- 
2.43.0


From 0d8657368bacf3b51fd603d2d2fc271e798c3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:22 +0000
Subject: [PATCH 06/37] fix: record metadata entries whose value is an empty
 string

---
 packages/tracing/src/attributes.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 66a00b9..0be72d1 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -133,13 +133,13 @@ function _flattenAndSerializeMetadata(
 
   if (typeof metadata !== "object" || Array.isArray(metadata)) {
     const serialized = _serialize(metadata);
-    if (serialized) {
+    if (serialized !== undefined) {
       metadataAttributes[prefix] = serialized;
     }
   } else {
     for (const [key, value] of Object.entries(metadata)) {
       const serialized = typeof value === "string" ? value : _serialize(value);
-      if (serialized) {
+      if (serialized !== undefined) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
       }
     }
-- 
2.43.0


From 6dd807a8bf9e6276e160b9bd6718afbc92edd52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:22 +0000
Subject: [PATCH 07/37] fix: observe() captures falsy input such as 0, false
 and empty text

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..bdacd2b 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 13ecaf18824b160446e381ed4a8639ccae421c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 08/37] fix: observe() rethrows the original value even if it
 cannot be converted to text

---
 packages/tracing/src/index.ts | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index bdacd2b..9541079 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1494,9 +1494,12 @@ export function observe<T extends (...args: any[]) => any>(
             observation.update({
               level: "ERROR",
               statusMessage:
-                (error instanceof Error ? error.message : String(error)) ||
-                "Function threw an error",
-              output: captureOutput ? { error: String(error) } : undefined,
+                (error instanceof Error
+                  ? error.message
+                  : _errorToString(error)) || "Function threw an error",
+              output: captureOutput
+                ? { error: _errorToString(error) }
+                : undefined,
             });
 
             if (options?.endOnExit !== false) {
@@ -1522,9 +1525,9 @@ export function observe<T extends (...args: any[]) => any>(
       observation.update({
         level: "ERROR",
         statusMessage:
-          (error instanceof Error ? error.message : String(error)) ||
+          (error instanceof Error ? error.message : _errorToString(error)) ||
           "Function threw an error",
-        output: captureOutput ? { error: String(error) } : undefined,
+        output: captureOutput ? { error: _errorToString(error) } : undefined,
       });
 
       if (options?.endOnExit !== false) {
@@ -1576,6 +1579,21 @@ function _captureOutput(value: unknown): unknown {
   }
 }
 
+/**
+ * Converts a thrown value to text without ever throwing itself.
+ *
+ * @param error - The thrown value
+ * @returns Text representation of the thrown value
+ * @internal
+ */
+function _errorToString(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "<failed to convert error>";
+  }
+}
+
 /**
  * Creates a trace ID for OpenTelemetry spans.
  *
-- 
2.43.0


From 4768c58f22a67bc8296af2af97cdca2e01626f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:05 +0000
Subject: [PATCH 09/37] fix: media extraction replaces each data URI as a whole
 and keeps text before it

---
 packages/otel/src/MediaService.ts | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..d16f682 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,8 +53,8 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const regex = /data:[^;:,\s"\\]+;base64,[A-Za-z0-9+/]+=*/g;
+        const mediaTagByDataUri = new Map<string, string>();
         const foundMedia = [...new Set(value.match(regex) ?? [])];
 
         if (foundMedia.length === 0) continue;
@@ -86,14 +86,15 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          mediaTagByDataUri.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute. Each data URI
+        // is replaced as a whole, as one may be a prefix of another.
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => mediaTagByDataUri.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
-- 
2.43.0


From 70189eb2ab7bec4e5b3ab2f597a05e815cfab4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:25 +0000
Subject: [PATCH 10/37] fix: AI SDK media extraction replaces only the file
 part itself

---
 packages/otel/src/MediaService.ts | 45 ++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index d16f682..777059d 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -109,8 +109,7 @@ export class MediaService {
           continue;
         }
 
-        // Find media base64 data URI
-        let mediaReplacedValue = value;
+        let hasReplacedMedia = false;
 
         try {
           const parsed = JSON.parse(value);
@@ -123,6 +122,7 @@ export class MediaService {
                 for (const part of contentParts) {
                   if (part["type"] === "file") {
                     let base64Content: string | null = null;
+                    let contentKey = "data";
                     const mediaType = part["mediaType"];
                     // FilePart
                     if (
@@ -138,26 +138,33 @@ export class MediaService {
                       !part["image"].startsWith("http") // skip URLs
                     ) {
                       base64Content = part["image"];
+                      contentKey = "image";
                     }
 
                     if (!base64Content || typeof mediaType !== "string") {
                       continue;
                     }
 
-                    mediaReplacedValue = await this.replaceBytesMedia({
+                    const langfuseMediaTag = await this.handleBytesMedia({
                       span,
-                      mediaReplacedValue,
                       base64Content,
                       contentType: mediaType,
                       field: "input",
                     });
+
+                    if (langfuseMediaTag) {
+                      part[contentKey] = langfuseMediaTag;
+                      hasReplacedMedia = true;
+                    }
                   }
                 }
               }
             }
           }
 
-          span.attributes[mediaAttribute] = mediaReplacedValue;
+          if (hasReplacedMedia) {
+            span.attributes[mediaAttribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK attribute ${mediaAttribute} for span ${span.spanContext().spanId}`,
@@ -180,7 +187,7 @@ export class MediaService {
           continue;
         }
 
-        let mediaReplacedValue = value;
+        let hasReplacedMedia = false;
 
         try {
           const parsed = JSON.parse(value);
@@ -211,19 +218,24 @@ export class MediaService {
                   continue;
                 }
 
-                mediaReplacedValue = await this.replaceBytesMedia({
+                const langfuseMediaTag = await this.handleBytesMedia({
                   span,
-                  mediaReplacedValue,
                   base64Content: normalizedContent.base64Content,
-                  contentToReplace: content,
                   contentType: mediaType,
                   field,
                 });
+
+                if (langfuseMediaTag) {
+                  part["content"] = langfuseMediaTag;
+                  hasReplacedMedia = true;
+                }
               }
             }
           }
 
-          span.attributes[attribute] = mediaReplacedValue;
+          if (hasReplacedMedia) {
+            span.attributes[attribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK v7 attribute ${attribute} for span ${span.spanContext().spanId}`,
@@ -234,14 +246,12 @@ export class MediaService {
     }
   }
 
-  private async replaceBytesMedia(params: {
+  private async handleBytesMedia(params: {
     span: ReadableSpan;
-    mediaReplacedValue: string;
     base64Content: string;
-    contentToReplace?: string;
     contentType: string;
     field: string;
-  }): Promise<string> {
+  }): Promise<string | null> {
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
       contentBytes: base64ToBytes(params.base64Content),
@@ -255,7 +265,7 @@ export class MediaService {
         "Failed to create Langfuse media tag. Skipping media item.",
       );
 
-      return params.mediaReplacedValue;
+      return null;
     }
 
     this.scheduleUpload({
@@ -264,10 +274,7 @@ export class MediaService {
       field: params.field,
     });
 
-    return params.mediaReplacedValue.replaceAll(
-      params.contentToReplace ?? params.base64Content,
-      langfuseMediaTag,
-    );
+    return langfuseMediaTag;
   }
 
   private scheduleUpload(params: {
-- 
2.43.0


From 7cebaa49aa0a2a214917932d24375d7e1723314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:42 +0000
Subject: [PATCH 11/37] fix: apply mask to individual metadata entries

---
 packages/otel/src/span-processor.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..2970b23 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -555,6 +555,13 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       LangfuseOtelSpanAttributes.TRACE_OUTPUT,
       LangfuseOtelSpanAttributes.OBSERVATION_METADATA,
       LangfuseOtelSpanAttributes.TRACE_METADATA,
+      // Metadata objects are flattened into one attribute per top-level key
+      ...Object.keys(span.attributes).filter(
+        (key) =>
+          key.startsWith(
+            `${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.`,
+          ) || key.startsWith(`${LangfuseOtelSpanAttributes.TRACE_METADATA}.`),
+      ),
     ];
 
     for (const maskCandidate of maskCandidates) {
-- 
2.43.0


From f697144ed6f08cef943e9e82f78eb8af28496567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:42 +0000
Subject: [PATCH 12/37] fix: do not lose the span when the mask throws a value
 that cannot be converted to text

---
 packages/otel/src/span-processor.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 2970b23..faf6739 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -580,7 +580,8 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       return await this.mask({ data });
     } catch (err) {
       this.logger.warn(
-        `Applying mask function failed due to error, fully masking property. Error: ${err}`,
+        "Applying mask function failed due to error, fully masking property. Error:",
+        err,
       );
 
       return "<fully masked due to failed mask function>";
-- 
2.43.0


From f163ffc86618b5659ab961587bad3919421f6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:51 +0000
Subject: [PATCH 13/37] fix: observe() with asType event no longer makes the
 wrapped call throw

---
 packages/tracing/src/index.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index 9541079..1e52b7d 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1464,6 +1464,11 @@ export function observe<T extends (...args: any[]) => any>(
       },
     );
 
+    // Events are complete once created and cannot be updated
+    const updateObservation = (attributes: LangfuseSpanAttributes) => {
+      if (asType !== "event") observation.update(attributes);
+    };
+
     // Set the observation span as active in the context, and carry the
     // app-root claim for descendants. The observation was already started by
     // startObservation above, so its onStart ran against the unmodified
@@ -1481,7 +1486,7 @@ export function observe<T extends (...args: any[]) => any>(
         return result.then(
           (value) => {
             if (captureOutput) {
-              observation.update({ output: _captureOutput(value) });
+              updateObservation({ output: _captureOutput(value) });
             }
 
             if (options?.endOnExit !== false) {
@@ -1491,7 +1496,7 @@ export function observe<T extends (...args: any[]) => any>(
             return value;
           },
           (error: unknown) => {
-            observation.update({
+            updateObservation({
               level: "ERROR",
               statusMessage:
                 (error instanceof Error
@@ -1512,7 +1517,7 @@ export function observe<T extends (...args: any[]) => any>(
       } else {
         // Handle sync functions
         if (captureOutput) {
-          observation.update({ output: _captureOutput(result) });
+          updateObservation({ output: _captureOutput(result) });
         }
 
         if (options?.endOnExit !== false) {
@@ -1522,7 +1527,7 @@ export function observe<T extends (...args: any[]) => any>(
         return result as ReturnType<T>;
       }
     } catch (error: unknown) {
-      observation.update({
+      updateObservation({
         level: "ERROR",
         statusMessage:
           (error instanceof Error ? error.message : _errorToString(error)) ||
-- 
2.43.0


From 87c92692a52800824ec5c6a474f81d3989a5d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:13 +0000
Subject: [PATCH 14/37] fix: keep experiment results and scores when the
 dataset run URL cannot be built

---
 .../client/src/experiment/ExperimentManager.ts    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..ef22536 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -253,14 +253,19 @@ export class ExperimentManager {
     )?.datasetRunId;
     const experimentId = datasetRunId || fallbackExperimentId;
 
-    let datasetRunUrl = undefined;
+    let datasetRunUrl: string | undefined = undefined;
     if (datasetRunId && data.length > 0 && "datasetId" in data[0]) {
       const datasetId = data[0].datasetId;
-      const projectUrl = (await this.langfuseClient.getTraceUrl("mock")).split(
-        "/traces",
-      )[0];
 
-      datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      try {
+        const projectUrl = (
+          await this.langfuseClient.getTraceUrl("mock")
+        ).split("/traces")[0];
+
+        datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      } catch (err) {
+        this.logger.error("Building the dataset run URL failed", err);
+      }
     }
 
     // Execute run evaluators
-- 
2.43.0


From 25637df6997182460e752a31f7416062199b5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:22 +0000
Subject: [PATCH 15/37] fix: formatted experiment results show each result's
 own item when an earlier item failed

---
 packages/client/src/experiment/ExperimentManager.ts | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index ef22536..3284368 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -1,5 +1,4 @@
 import {
-  DatasetItem,
   getGlobalLogger,
   propagateAttributes,
   serializeValue,
@@ -17,7 +16,6 @@ import {
   ExperimentParams,
   ExperimentResult,
   ExperimentTask,
-  ExperimentItem,
   ExperimentItemResult,
   Evaluator,
   Evaluation,
@@ -315,7 +313,6 @@ export class ExperimentManager {
         await this.prettyPrintResults({
           datasetRunUrl,
           itemResults,
-          originalData: data,
           runEvaluations,
           name: config.name,
           runName,
@@ -549,7 +546,6 @@ export class ExperimentManager {
    * @param params - Formatting parameters
    * @param params.datasetRunUrl - Optional URL to the dataset run in Langfuse UI
    * @param params.itemResults - Results from processing each data item
-   * @param params.originalData - The original input data items
    * @param params.runEvaluations - Results from run-level evaluators
    * @param params.name - Name of the experiment
    * @param params.description - Optional description of the experiment
@@ -602,9 +598,6 @@ export class ExperimentManager {
   >(params: {
     datasetRunUrl?: string;
     itemResults: ExperimentItemResult<Input, ExpectedOutput, Metadata>[];
-    originalData:
-      | ExperimentItem<Input, ExpectedOutput, Metadata>[]
-      | DatasetItem[];
     runEvaluations: Evaluation[];
     name: string;
     runName: string;
@@ -613,7 +606,6 @@ export class ExperimentManager {
   }): Promise<string> {
     const {
       itemResults,
-      originalData,
       runEvaluations,
       name,
       runName,
@@ -631,7 +623,7 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        const originalItem = result.item;
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From 927d6deec9fc833775c9d3ba59b8355d6f5c0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:37 +0000
Subject: [PATCH 16/37] fix: an experiment task throwing a value that cannot be
 converted to text no longer fails the whole run

---
 .../client/src/experiment/ExperimentManager.ts     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 3284368..8268165 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -223,11 +223,15 @@ export class ExperimentManager {
             datasetVersion: config.datasetVersion,
           });
         } catch (reason) {
-          const errorMessage =
-            reason instanceof Error ? reason.message : String(reason);
-          this.logger.error(
-            `Task failed with error: ${errorMessage}. Skipping item.`,
-          );
+          // Tasks may throw values that cannot be converted to text, so
+          // non-errors are handed to the logger as they are.
+          if (reason instanceof Error) {
+            this.logger.error(
+              `Task failed with error: ${reason.message}. Skipping item.`,
+            );
+          } else {
+            this.logger.error("Task failed. Skipping item.", reason);
+          }
         }
       }
     };
-- 
2.43.0


From 9d1cdd0c863eefa0e40bad3a9da23b0c8cc672d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:34 +0000
Subject: [PATCH 17/37] fix: recording an OpenAI response can no longer change
 the outcome of the call

---
 packages/openai/src/parseOpenAI.ts |  4 +++
 packages/openai/src/traceMethod.ts | 55 ++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..11f6026 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,6 +94,10 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
+  if (res.choices.length === 0) {
+    return "";
+  }
+
   return "message" in res.choices[0]
     ? res.choices[0].message
     : (res.choices[0].text ?? "");
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..572ce52 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -1,3 +1,4 @@
+import { getGlobalLogger } from "@langfuse/core";
 import {
   LangfuseGeneration,
   startObservation,
@@ -105,36 +106,44 @@ const wrapMethod = <T extends GenericMethod>(
         }
 
         if (res instanceof Promise) {
-          const wrappedPromise = res
-            .then((result) => {
+          const wrappedPromise = res.then(
+            (result) => {
               if (isAsyncIterable(result)) {
                 return wrapAsyncIterable(result, generation);
               }
 
-              const output = parseCompletionOutput(result);
-              const usageDetails = parseUsageDetailsFromResponse(result);
-              const {
-                model: modelFromResponse,
-                modelParameters: modelParametersFromResponse,
-                metadata: metadataFromResponse,
-              } = parseModelDataFromResponse(result);
+              // The call succeeded: failing to record it must not change that
+              try {
+                const output = parseCompletionOutput(result);
+                const usageDetails = parseUsageDetailsFromResponse(result);
+                const {
+                  model: modelFromResponse,
+                  modelParameters: modelParametersFromResponse,
+                  metadata: metadataFromResponse,
+                } = parseModelDataFromResponse(result);
 
-              generation
-                .update({
+                generation.update({
                   output,
                   usageDetails,
                   model: modelFromResponse,
                   modelParameters: modelParametersFromResponse,
                   metadata: metadataFromResponse,
-                })
-                .end();
+                });
+              } catch (error) {
+                getGlobalLogger().error(
+                  "Failed to record OpenAI response",
+                  error,
+                );
+              }
+
+              generation.end();
 
               return result;
-            })
-            .catch((err) => {
+            },
+            (err) => {
               generation
                 .update({
-                  statusMessage: String(err),
+                  statusMessage: errorToString(err),
                   level: "ERROR",
                   costDetails: {
                     input: 0,
@@ -145,7 +154,8 @@ const wrapMethod = <T extends GenericMethod>(
                 .end();
 
               throw err;
-            });
+            },
+          );
 
           return wrappedPromise;
         }
@@ -154,7 +164,7 @@ const wrapMethod = <T extends GenericMethod>(
       } catch (error) {
         generation
           .update({
-            statusMessage: String(error),
+            statusMessage: errorToString(error),
             level: "ERROR",
             costDetails: {
               input: 0,
@@ -170,6 +180,15 @@ const wrapMethod = <T extends GenericMethod>(
   );
 };
 
+/** Converts a thrown value to text without ever throwing itself. */
+function errorToString(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "<failed to convert error>";
+  }
+}
+
 /**
  * Wraps an async iterable (streaming response) with Langfuse tracing.
  *
-- 
2.43.0


From 5f72f82f139100d86076717cafe2fa6ec129bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:36 +0000
Subject: [PATCH 18/37] fix: OpenAI streams that fail or are abandoned end
 their generation

---
 packages/openai/src/traceMethod.ts | 61 ++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 572ce52..45e139f 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -220,9 +220,7 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
-
+    const recordChunk = (rawChunk: unknown) => {
       // Handle Response API chunks
       if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
         const result = rawChunk["response"];
@@ -257,24 +255,49 @@ function wrapAsyncIterable<R>(
       } else {
         toolCallChunks.push(processedChunk.data);
       }
+    };
 
-      yield rawChunk;
-    }
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
+
+        // Failing to record a chunk must not fail the application's stream
+        try {
+          recordChunk(rawChunk);
+        } catch (error) {
+          getGlobalLogger().error("Failed to record OpenAI chunk", error);
+        }
+
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({
+        statusMessage: errorToString(error),
+        level: "ERROR",
+      });
+
+      throw error;
+    } finally {
+      // Also reached when the stream fails or is abandoned by its consumer
+      try {
+        output =
+          output ??
+          (toolCallChunks.length > 0
+            ? getToolCallOutput(toolCallChunks)
+            : textChunks.join(""));
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
-
-    generation
-      .update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+        generation.update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        });
+      } catch (error) {
+        getGlobalLogger().error("Failed to record OpenAI stream", error);
+      }
+
+      generation.end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From 85a4f071498d4bd7b11cae7899832399d46c8ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:56 +0000
Subject: [PATCH 19/37] fix: streamed OpenAI answers with several tool calls
 are recorded completely

---
 packages/openai/src/parseOpenAI.ts | 36 +++++++++++++++++-------------
 packages/openai/src/traceMethod.ts |  2 +-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index 11f6026..033e1ad 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -207,7 +207,7 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
@@ -219,11 +219,12 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return { isToolCall, data: chunkData.delta.tool_calls };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -266,23 +267,28 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  // A streamed answer may contain several tool calls, told apart by their index
+  const functionByIndex = new Map<
+    number,
+    { name: string; arguments: string }
+  >();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    const index = toolCall.index ?? 0;
+    const toolFunction = functionByIndex.get(index) ?? {
+      name: "",
+      arguments: "",
+    };
+
+    toolFunction.name = toolCall.function?.name || toolFunction.name;
+    toolFunction.arguments += toolCall.function?.arguments || "";
+    functionByIndex.set(index, toolFunction);
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    tool_calls: Array.from(functionByIndex.values(), (toolFunction) => ({
+      function: toolFunction,
+    })),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 45e139f..d07bf3b 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -253,7 +253,7 @@ function wrapAsyncIterable<R>(
       if (!processedChunk.isToolCall) {
         textChunks.push(processedChunk.data);
       } else {
-        toolCallChunks.push(processedChunk.data);
+        toolCallChunks.push(...processedChunk.data);
       }
     };
 
-- 
2.43.0


From 2e6e0ac91db4c214165978efc9b24a842312770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 20/37] fix: record the token usage of OpenAI embeddings

---
 packages/openai/src/parseOpenAI.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index 033e1ad..6b19b3a 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -134,7 +134,7 @@ export const parseUsageDetails = (
       finalInputTokens = Math.max(finalInputTokens - value, 0);
     });
 
-    let finalOutputTokens = completion_tokens as number;
+    let finalOutputTokens = (completion_tokens as number | undefined) ?? 0;
     Object.values(flatCompletionTokensDetails).forEach((value) => {
       finalOutputTokens = Math.max(finalOutputTokens - value, 0);
     });
@@ -248,7 +248,8 @@ function hasCompletionUsage(
     obj.usage instanceof Object &&
     // Completion API Usage format
     ((typeof obj.usage.prompt_tokens === "number" &&
-      typeof obj.usage.completion_tokens === "number" &&
+      // Embeddings report no completion tokens
+      ["number", "undefined"].includes(typeof obj.usage.completion_tokens) &&
       typeof obj.usage.total_tokens === "number") ||
       // Response API Usage format
       (typeof obj.usage.input_tokens === "number" &&
-- 
2.43.0


From 993782fceb3c9eb626f3089d8e4ea3b8c5bf94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:39 +0000
Subject: [PATCH 21/37] fix: a LangChain model without invocation params is
 traced and raises no unhandled rejection

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..1109bfb 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From 6145219f4649adb672b9fb5d32340dc742578d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:39 +0000
Subject: [PATCH 22/37] fix: LangChain runs that fail with an unusual error or
 end without a result are ended

---
 packages/langchain/src/CallbackHandler.ts | 37 +++++++++++++++--------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1109bfb..a388209 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -256,7 +256,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Chain error: ${err} with ID: ${runId}`);
+      this.logger.debug(`Chain error with ID: ${runId}`, err);
 
       const azureRefusalError = this.parseAzureRefusalError(err);
 
@@ -264,7 +264,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: this.errorToString(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -402,12 +402,14 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalOutput: ChainValues | string = outputs;
       if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "output" in outputs &&
         typeof outputs["output"] === "string"
       ) {
         finalOutput = outputs["output"];
       } else if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "messages" in outputs &&
         Array.isArray(outputs["messages"]) &&
         outputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -541,12 +543,12 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Retriever error: ${err} with ID: ${runId}`);
+      this.logger.debug(`Retriever error with ID: ${runId}`, err);
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: this.errorToString(err),
         },
       });
     } catch (e) {
@@ -578,13 +580,13 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Tool error ${err} with ID: ${runId}`);
+      this.logger.debug(`Tool error with ID: ${runId}`, err);
 
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: this.errorToString(err),
         },
       });
     } catch (e) {
@@ -601,10 +603,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      const lastResponse: Generation = output.generations.at(-1)?.at(-1) ?? {
+        text: "",
+      };
       const llmUsage =
         this.extractUsageMetadata(lastResponse) ??
         output.llmOutput?.["tokenUsage"] ??
@@ -685,7 +686,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`LLM error ${err} with ID: ${runId}`);
+      this.logger.debug(`LLM error with ID: ${runId}`, err);
 
       // Azure has the refusal status for harmful messages in the error property
       // This would not be logged as the error message is only a generic message
@@ -696,7 +697,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: this.errorToString(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -849,12 +850,22 @@ export class CallbackHandler extends BaseCallbackHandler {
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
   }
+
+  /** Converts a thrown value to text without ever throwing itself. */
+  private errorToString(err: unknown): string {
+    try {
+      return String(err);
+    } catch {
+      return "<failed to convert error>";
+    }
+  }
+
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (typeof err == "object" && err !== null && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From c506387847419694054b70b85904555b155d0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:39 +0000
Subject: [PATCH 23/37] fix: failed LangChain runs release their prompt and
 first-token time

---
 packages/langchain/src/CallbackHandler.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index a388209..172e886 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -267,6 +267,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: this.errorToString(err) + azureRefusalError,
         },
       });
+      this.deregisterLangfusePrompt(runId);
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -700,6 +701,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: this.errorToString(err) + azureRefusalError,
         },
       });
+      delete this.completionStartTimes[runId];
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From dc215ea8339893f030c0d89366bf408102b25804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:05 +0000
Subject: [PATCH 24/37] fix: LangChain models, tools and retrievers run without
 a chain carry the handler's user, session, tags and metadata

---
 packages/langchain/src/CallbackHandler.ts | 103 +++++++++-------------
 1 file changed, 41 insertions(+), 62 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 172e886..4614c41 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -22,6 +22,7 @@ import {
   LangfuseGenerationAttributes,
   LangfuseSpanAttributes,
   propagateAttributes,
+  type PropagateAttributesParams,
 } from "@langfuse/tracing";
 
 const LANGSMITH_HIDDEN_TAG = "langsmith:hidden";
@@ -145,67 +146,16 @@ export class CallbackHandler extends BaseCallbackHandler {
         finalInput = inputs["content"];
       }
 
-      // If there's no parent run, this is a top-level chain execution
-      // and we need to propagate trace attributes
-      if (!parentRunId) {
-        const traceTags = [...new Set([...(tags ?? []), ...this.tags])];
-
-        const traceUserId =
-          metadata &&
-          "langfuseUserId" in metadata &&
-          typeof metadata["langfuseUserId"] === "string"
-            ? metadata["langfuseUserId"]
-            : this.userId;
-
-        const traceSessionId =
-          metadata &&
-          "langfuseSessionId" in metadata &&
-          typeof metadata["langfuseSessionId"] === "string"
-            ? metadata["langfuseSessionId"]
-            : this.sessionId;
-
-        const traceMetadata = this.traceMetadata
-          ? Object.fromEntries(
-              Object.entries(this.traceMetadata).map(([k, v]) => [
-                k,
-                typeof v === "string" ? v : JSON.stringify(v),
-              ]),
-            )
-          : undefined;
-
-        propagateAttributes(
-          {
-            tags: traceTags,
-            userId: traceUserId,
-            sessionId: traceSessionId,
-            metadata: traceMetadata,
-            version: this.version,
-          },
-          () => {
-            this.startAndRegisterOtelSpan({
-              runName,
-              parentRunId,
-              runId,
-              tags,
-              metadata,
-              attributes: {
-                input: finalInput,
-              },
-            });
-          },
-        );
-      } else {
-        this.startAndRegisterOtelSpan({
-          runName,
-          parentRunId,
-          runId,
-          tags,
-          metadata,
-          attributes: {
-            input: finalInput,
-          },
-        });
-      }
+      this.startAndRegisterOtelSpan({
+        runName,
+        parentRunId,
+        runId,
+        tags,
+        metadata,
+        attributes: {
+          input: finalInput,
+        },
+      });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -780,7 +730,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       ? this.runMap.get(parentRunId)?.otelSpan.spanContext()
       : undefined;
 
-    const observation =
+    const startRun = (): TrackedObservation =>
       type === "generation"
         ? startActiveObservation(
             runName,
@@ -818,11 +768,40 @@ export class CallbackHandler extends BaseCallbackHandler {
                 endOnExit: false,
               },
             );
+
+    // If there's no parent run, this is a top-level execution
+    // and we need to propagate trace attributes
+    const observation = parentRunId
+      ? startRun()
+      : propagateAttributes(this.getTraceAttributes(tags, metadata), startRun);
     this.runMap.set(runId, observation);
 
     return observation;
   }
 
+  private getTraceAttributes(
+    tags?: string[],
+    metadata?: Record<string, unknown>,
+  ): PropagateAttributesParams {
+    const userId = metadata?.["langfuseUserId"];
+    const sessionId = metadata?.["langfuseSessionId"];
+
+    return {
+      tags: [...new Set([...(tags ?? []), ...this.tags])],
+      userId: typeof userId === "string" ? userId : this.userId,
+      sessionId: typeof sessionId === "string" ? sessionId : this.sessionId,
+      metadata: this.traceMetadata
+        ? Object.fromEntries(
+            Object.entries(this.traceMetadata).map(([k, v]) => [
+              k,
+              typeof v === "string" ? v : JSON.stringify(v),
+            ]),
+          )
+        : undefined,
+      version: this.version,
+    };
+  }
+
   private handleOtelSpanEnd(params: {
     runId: string;
     attributes?: LangfuseSpanAttributes;
-- 
2.43.0


From f92a606a28169147207248865274813c67513996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:01 +0000
Subject: [PATCH 25/37] fix: LangChain agent actions no longer replace the
 observation of the agent's run

---
 packages/langchain/src/CallbackHandler.ts | 28 ++++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 4614c41..23c063a 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -168,9 +168,12 @@ export class CallbackHandler extends BaseCallbackHandler {
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
+
+      // Agent events carry the id of the agent's own run, which is still running
+      this.endAgentAction(runId);
       this.startAndRegisterOtelSpan({
-        runId,
-        parentRunId,
+        runId: this.getAgentActionId(runId),
+        parentRunId: this.runMap.has(runId) ? runId : parentRunId,
         runName: action.tool,
         attributes: {
           input: action,
@@ -190,10 +193,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      this.endAgentAction(runId, { output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -826,12 +826,28 @@ export class CallbackHandler extends BaseCallbackHandler {
       return;
     }
 
+    this.endAgentAction(runId);
     span.update(attributes).end();
 
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
   }
 
+  private getAgentActionId(runId: string): string {
+    return `${runId}-agent-action`;
+  }
+
+  private endAgentAction(
+    runId: string,
+    attributes?: LangfuseSpanAttributes,
+  ): void {
+    const actionId = this.getAgentActionId(runId);
+
+    if (this.runMap.has(actionId)) {
+      this.handleOtelSpanEnd({ runId: actionId, attributes });
+    }
+  }
+
   /** Converts a thrown value to text without ever throwing itself. */
   private errorToString(err: unknown): string {
     try {
-- 
2.43.0


From 06cb1602adbd86450c378cef60ff48e7ca6ec8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 26/37] fix: a prompt registered inside a LangChain tool or
 retriever is released when that run ends

---
 packages/langchain/src/CallbackHandler.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 23c063a..7d6aca6 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -217,7 +217,6 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: this.errorToString(err) + azureRefusalError,
         },
       });
-      this.deregisterLangfusePrompt(runId);
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -831,6 +830,7 @@ export class CallbackHandler extends BaseCallbackHandler {
 
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
+    this.deregisterLangfusePrompt(runId);
   }
 
   private getAgentActionId(runId: string): string {
-- 
2.43.0


From 2872baf3742140784b52c9fbe4395c17312c8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:46 +0000
Subject: [PATCH 27/37] fix: browser score rejects with a LangfuseBrowserError
 when the response is cut off or malformed

---
 packages/browser/src/index.ts |  2 +-
 packages/browser/src/utils.ts | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/browser/src/index.ts b/packages/browser/src/index.ts
index 483c3be..68eddf8 100644
--- a/packages/browser/src/index.ts
+++ b/packages/browser/src/index.ts
@@ -77,7 +77,7 @@ export class LangfuseBrowserClient {
     }
 
     const hasSuccess = response.successes.some(
-      (success) => success.id === event.id,
+      (success) => success?.id === event.id,
     );
     if (!hasSuccess) {
       throw new LangfuseBrowserError(
diff --git a/packages/browser/src/utils.ts b/packages/browser/src/utils.ts
index 0c3ffe7..9012002 100644
--- a/packages/browser/src/utils.ts
+++ b/packages/browser/src/utils.ts
@@ -11,8 +11,19 @@ const RESERVED_ADDITIONAL_HEADER_NAMES = new Set([
   "x-langfuse-sdk-integration",
 ]);
 
+async function readResponseText(response: Response): Promise<string> {
+  try {
+    return await response.text();
+  } catch (error) {
+    throw new LangfuseBrowserError(
+      "Failed to read the Langfuse ingestion response.",
+      { status: response.status, originalError: error },
+    );
+  }
+}
+
 export async function parseJsonResponse(response: Response): Promise<unknown> {
-  const text = await response.text();
+  const text = await readResponseText(response);
   if (!text) {
     return undefined;
   }
@@ -34,7 +45,7 @@ export async function parseJsonResponse(response: Response): Promise<unknown> {
 export async function parseErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
-  const text = await response.text();
+  const text = await readResponseText(response);
   if (!text) {
     return undefined;
   }
-- 
2.43.0


From 514d73d59961826b69197a3af1a0eb9f5244488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:51 +0000
Subject: [PATCH 28/37] fix: API errors keep their status when the error body
 is not valid JSON

---
 .../api/core/fetcher/getErrorResponseBody.ts  | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 1df82fe..d654f16 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,12 +1,23 @@
 import { fromJson } from "../json.js";
-import { getResponseBody } from "./getResponseBody.js";
+
+// A body that is not valid JSON must not hide the status code of the response
+function parseJsonOrText(text: string): unknown {
+  if (text.length === 0) {
+    return undefined;
+  }
+  try {
+    return fromJson(text);
+  } catch {
+    return text;
+  }
+}
 
 export async function getErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
   let contentType = response.headers.get("Content-Type")?.toLowerCase();
   if (contentType == null || contentType.length === 0) {
-    return getResponseBody(response);
+    return parseJsonOrText(await response.text());
   }
 
   if (contentType.indexOf(";") !== -1) {
@@ -19,15 +30,13 @@ export async function getErrorResponseBody(
     case "application/problem+json":
     case "application/vnd.api+json":
     case "text/json":
-      const text = await response.text();
-      return text.length > 0 ? fromJson(text) : undefined;
+      return parseJsonOrText(await response.text());
     default:
       if (
         contentType.startsWith("application/vnd.") &&
         contentType.endsWith("+json")
       ) {
-        const text = await response.text();
-        return text.length > 0 ? fromJson(text) : undefined;
+        return parseJsonOrText(await response.text());
       }
 
       // Fallback to plain text if content type is not recognized
-- 
2.43.0


From 6f5be758fae96853394bf07bf9c351881e862347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:51 +0000
Subject: [PATCH 29/37] fix: API requests that time out reject with
 LangfuseAPITimeoutError

---
 packages/core/src/api/core/fetcher/signals.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..6d15536 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -5,7 +5,11 @@ export function getTimeoutSignal(timeoutMs: number): {
   abortId: NodeJS.Timeout;
 } {
   const controller = new AbortController();
-  const abortId = setTimeout(() => controller.abort(TIMEOUT), timeoutMs);
+  // fetch rejects with the abort reason itself: it has to be an AbortError to be recognized as a timeout
+  const abortId = setTimeout(
+    () => controller.abort(new DOMException(TIMEOUT, "AbortError")),
+    timeoutMs,
+  );
   return { signal: controller.signal, abortId };
 }
 
-- 
2.43.0


From 2e2bfdd3c48c244a4eff027413899aa7cad751d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:04 +0000
Subject: [PATCH 30/37] fix: keep to the first choice when recording streamed
 OpenAI answers

---
 packages/openai/src/parseOpenAI.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index 6b19b3a..a55294d 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -213,9 +213,15 @@ export const parseChunk = (
   const _chunk = rawChunk as
     | OpenAI.ChatCompletionChunk
     | OpenAI.Completions.Completion;
-  const chunkData = _chunk?.choices?.[0];
 
   try {
+    // The chunks of several choices (n > 1) interleave: keep to the first choice
+    const choices: (
+      | OpenAI.ChatCompletionChunk.Choice
+      | OpenAI.CompletionChoice
+    )[] = _chunk.choices;
+    const chunkData = choices.find((choice) => (choice.index ?? 0) === 0)!;
+
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-- 
2.43.0


From 644348470dc715ae715b93ac7c4d3d896fe63f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:34 +0000
Subject: [PATCH 31/37] fix: let the OpenAI wrapper pass read-only client
 properties through

---
 packages/openai/src/observeOpenAI.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/openai/src/observeOpenAI.ts b/packages/openai/src/observeOpenAI.ts
index f786450..c663420 100644
--- a/packages/openai/src/observeOpenAI.ts
+++ b/packages/openai/src/observeOpenAI.ts
@@ -97,6 +97,12 @@ export const observeOpenAI = <SDKType extends object>(
     get(wrappedSdk, propKey, proxy) {
       const originalProperty = wrappedSdk[propKey as keyof SDKType];
 
+      // A proxy has to return read-only properties of its target as they are
+      const descriptor = Reflect.getOwnPropertyDescriptor(wrappedSdk, propKey);
+      if (descriptor?.configurable === false && descriptor.writable === false) {
+        return originalProperty;
+      }
+
       const defaultGenerationName = `${sdk.constructor?.name}.${propKey.toString()}`;
       const generationName =
         langfuseConfig?.generationName ?? defaultGenerationName;
-- 
2.43.0


From f47eb33f168c91bc0955045050e297d84be2cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:31 +0000
Subject: [PATCH 32/37] fix: keep LangChain runs whose trace metadata cannot be
 serialized

---
 packages/langchain/src/CallbackHandler.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 7d6aca6..b43a5e4 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -793,7 +793,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         ? Object.fromEntries(
             Object.entries(this.traceMetadata).map(([k, v]) => [
               k,
-              typeof v === "string" ? v : JSON.stringify(v),
+              typeof v === "string" ? v : this.stringifyMetadataValue(v),
             ]),
           )
         : undefined,
@@ -857,6 +857,15 @@ export class CallbackHandler extends BaseCallbackHandler {
     }
   }
 
+  /** A metadata value that cannot be serialized must not lose the run. */
+  private stringifyMetadataValue(value: unknown): string {
+    try {
+      return JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
+  }
+
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
     // This would not be logged as the error message is only a generic message
-- 
2.43.0


From d4f0f3d744d39f1fa67c540e154c43dacadf81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:01 +0000
Subject: [PATCH 33/37] fix: one AI-SDK file part without inline content kept
 the media of the other parts inline

---
 packages/otel/src/MediaService.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 777059d..4814477 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -252,9 +252,21 @@ export class MediaService {
     contentType: string;
     field: string;
   }): Promise<string | null> {
+    let contentBytes: Uint8Array;
+
+    try {
+      contentBytes = base64ToBytes(params.base64Content);
+    } catch {
+      // Not inline content (e.g. a provider file id), so leave this part as it
+      // is without giving up on the other parts.
+      this.logger.debug("Content is not valid base64. Skipping media item.");
+
+      return null;
+    }
+
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
-      contentBytes: base64ToBytes(params.base64Content),
+      contentBytes,
       source: "bytes",
     });
 
-- 
2.43.0


From 0a66ffdf5d47aa328552d119b654bacc29ec69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:58 +0000
Subject: [PATCH 34/37] fix: experiments skipped items whose data JSON cannot
 carry, and format() rejected for them

---
 packages/client/src/experiment/ExperimentManager.ts | 6 +++++-
 packages/core/src/utils.ts                          | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 8268165..c79b937 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -763,7 +763,11 @@ export class ExperimentManager {
     if (typeof value === "string") {
       return value.length > 50 ? `${value.substring(0, 47)}...` : value;
     }
-    return JSON.stringify(value);
+    try {
+      return JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
   }
 
   private isOtelRegistered(): boolean {
diff --git a/packages/core/src/utils.ts b/packages/core/src/utils.ts
index 4248057..c20011f 100644
--- a/packages/core/src/utils.ts
+++ b/packages/core/src/utils.ts
@@ -128,5 +128,9 @@ export function serializeValue(value: any): string | undefined {
   if (value === undefined || value === null) return undefined;
   if (typeof value === "string") return value;
 
-  return JSON.stringify(value);
+  try {
+    return JSON.stringify(value);
+  } catch {
+    return "<failed to serialize>";
+  }
 }
-- 
2.43.0


From e31415aa0e932add90b3c78b338092a01ddda834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:58 +0000
Subject: [PATCH 35/37] fix: inline AI-SDK media whose base64 starts with the
 letters http was left inline

---
 packages/otel/src/MediaService.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 4814477..18aba29 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -127,7 +127,7 @@ export class MediaService {
                     // FilePart
                     if (
                       typeof part["data"] === "string" &&
-                      !part["data"].startsWith("http") // skip URL strings
+                      !isHttpUrl(part["data"]) // skip URL strings
                     ) {
                       base64Content = part["data"];
                     }
@@ -135,7 +135,7 @@ export class MediaService {
                     //ImagePart
                     if (
                       typeof part["image"] === "string" &&
-                      !part["image"].startsWith("http") // skip URLs
+                      !isHttpUrl(part["image"]) // skip URLs
                     ) {
                       base64Content = part["image"];
                       contentKey = "image";
@@ -207,7 +207,7 @@ export class MediaService {
                   typeof content !== "string" ||
                   !content ||
                   typeof mediaType !== "string" ||
-                  content.startsWith("http")
+                  isHttpUrl(content)
                 ) {
                   continue;
                 }
@@ -338,6 +338,11 @@ export class MediaService {
   }
 }
 
+/** Base64 content can itself start with the letters "http", so match the scheme. */
+function isHttpUrl(content: string): boolean {
+  return /^https?:\/\//i.test(content);
+}
+
 function normalizeBase64Content(
   content: string,
 ): { base64Content: string } | undefined {
-- 
2.43.0


From 89d8fabb2ee1593951903a73bda3a1b5585acda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 36/37] fix: an unsupplied placeholder named like an inherited
 property (e.g. "constructor") was dropped from a compiled chat prompt

---
 packages/client/src/prompt/promptClients.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 779a6ed..871a6cf 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -16,6 +16,16 @@ mustache.escape = function (text) {
   return text;
 };
 
+/** Only supplied values count, not properties every object inherits (e.g. "constructor"). */
+function getPlaceholderValue(
+  placeholders: Record<string, any>,
+  name: string,
+): any {
+  return Object.prototype.hasOwnProperty.call(placeholders, name)
+    ? placeholders[name]
+    : undefined;
+}
+
 /**
  * Base class for all prompt clients.
  *
@@ -338,7 +348,10 @@ export class ChatPromptClient extends BasePromptClient {
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-        const placeholderValue = placeholderValues[item.name];
+        const placeholderValue = getPlaceholderValue(
+          placeholderValues,
+          item.name,
+        );
         if (
           Array.isArray(placeholderValue) &&
           placeholderValue.length > 0 &&
@@ -431,7 +444,10 @@ export class ChatPromptClient extends BasePromptClient {
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-        const placeholderValue = placeholderValues[item.name];
+        const placeholderValue = getPlaceholderValue(
+          placeholderValues,
+          item.name,
+        );
         if (
           Array.isArray(placeholderValue) &&
           placeholderValue.length > 0 &&
-- 
2.43.0


From 0ef4346c3c159655ae082c749f1914265cf68aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:55 +0000
Subject: [PATCH 37/37] fix: a failed API request no longer leaves its timeout
 timer keeping the process alive

---
 .../core/src/api/core/fetcher/makeRequest.ts  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..108f0fa 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,20 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
-
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    // Also when the request fails: a pending timer keeps the process alive
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
-- 
2.43.0

