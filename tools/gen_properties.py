import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Every ended span the filter accepts is exported exactly once by flush",
"When a flush or shutdown of the tracing processor resolves, every span that ended before the call and is accepted by the export filter has been handed to the exporter exactly once, carrying the attributes, name, timing and parent it had when it ended. This holds in batched and immediate export mode, for any order of starts, ends, flushes and slow or failing masks, media uploads and exporters, and one span's failing mask or media upload never loses that or any other span. Spans that have not ended are never exported.",
["schedules","histories","fault_sequences","configurations"],"all histories of start/end/flush/shutdown over span forests, all settle orders of asynchronous masks and uploads, both export modes and any batch size",
"Existing tests end a few spans and flush once with synchronous masks; loss or duplication depends on a flush overlapping an unfinished asynchronous mask/upload or a second flush, which they never schedule.",
["packages/otel/src/span-processor.ts","packages/otel/src/MediaService.ts"],
[("pending set awaited by forceFlush/shutdown","packages/otel/src/span-processor.ts"),("pending uploads awaited","packages/otel/src/MediaService.ts")],["spans received by the configured exporter"])

p("C02","With a mask configured, no unmasked input, output or metadata is exported",
"When a mask function is configured, every input, output and metadata value of an observation or trace on an exported span (including each individual metadata entry) is exactly what the mask returned for it, and no other attribute is changed. If the mask throws or rejects, a fixed placeholder is exported instead of the value, the span is still exported, and the failure of one value neither unmasks nor suppresses another.",
["inputs","fault_sequences","schedules"],"all observation payloads, metadata shapes, trace-level payloads and mask functions (sync, async, throwing, rejecting at any call)",
"Tests mask one known attribute with a fixed function; leakage depends on which attribute or metadata shape carries the secret and on which mask call fails.",
["packages/otel/src/span-processor.ts","packages/tracing/src/attributes.ts","packages/core/src/propagation.ts"],
[("masking of the payload attributes before export","packages/otel/src/span-processor.ts")],["attributes of exported spans"])

p("C03","The export filter alone decides which spans leave the process",
"A span is exported if and only if the filter accepts it as it stands when it ends; a filter that throws drops exactly the span it threw on. Without a custom filter the accepted spans are exactly those created by the SDK itself, those carrying at least one generative-AI attribute, and those whose instrumentation scope is a known LLM instrumentation or a dot-separated descendant of one (the generic scope \"ai\" counts only by its exact name).",
["inputs","histories","configurations"],"all scope names, attribute sets (at start or added later) and filter functions, including throwing and stateful ones",
"Tests enumerate a handful of scope names; prefix handling (names that merely start with a known one, extra dots, case) and filters that change their verdict between start and end need a search.",
["packages/otel/src/span-filter.ts","packages/otel/src/span-processor.ts"],
[("default predicate and prefix match","packages/otel/src/span-filter.ts"),("filter evaluated at end","packages/otel/src/span-processor.ts")],["exporter"])

p("C04","Exactly the topmost exported span of each application subtree is an app root",
"A span is flagged as application root exactly when the filter accepts it at start, its direct parent is not a still-running span accepted by this process's filter, and the incoming context does not already claim the same trace. Consequently a service called with a propagated claim never adds a second root to that trace, while a claim for another trace does not suppress the flag.",
["histories","configurations","inputs"],"all span forests mixing exported and filtered spans, remote parents, baggage claims and end orders",
"Tests use two- or three-span chains; wrong roots appear for filtered spans in the middle, sibling subtrees, ended parents, and claims of a different trace.",
["packages/otel/src/span-processor.ts","packages/core/src/propagation.ts","packages/tracing/src/index.ts"],
[("start-time export expectation per span and baggage claim","packages/otel/src/span-processor.ts"),("claim written into baggage","packages/tracing/src/index.ts")],["app-root attribute on exported spans"])

p("C05","Propagated attributes reach every span in their scope and no span outside it",
"Every span started while a propagation scope is active, synchronously or in any asynchronous continuation of it, carries the scope's user, session, version, trace name, environment, tags, metadata and prompt, and so does the observation that was active when the scope was opened; other spans, in concurrent scopes or after the scope returns, never do. Nested scopes override scalar values, merge metadata key by key with the inner value winning, and union tags without duplicates, and leaving the inner scope restores the outer values; an explicit prompt given at span creation wins over a propagated one. The callback's result or error is passed through unchanged.",
["histories","schedules","inputs"],"all trees of nested and concurrent propagation scopes with arbitrary attribute subsets and await interleavings",
"Tests use fixed one- or two-level nestings; leakage between concurrent scopes and wrong merge order depend on the interleaving and on which subset of attributes each level sets.",
["packages/core/src/propagation.ts","packages/otel/src/span-processor.ts"],
[("context keys and merge rules","packages/core/src/propagation.ts"),("copy to span at start","packages/otel/src/span-processor.ts")],["attributes of spans inside and outside the scope"])

p("C06","Invalid propagated values are dropped alone and never reach a span",
"A text value (user, session, version, trace name, each tag, each metadata value) given to a propagation scope is accepted exactly when it is a string of at most 200 characters (an empty user, session, version or trace name counts as absent), an environment (also one arriving as baggage) when it is at most 40 characters of lowercase letters, digits, hyphens and underscores and does not start with the reserved prefix, and a prompt when it is not a fallback and has a non-empty name and a whole-number version. Values that are not accepted are dropped individually: every other attribute, tag and metadata entry of the same call is still applied unchanged, and the call never throws because of them.",
["inputs"],"all argument objects mixing valid, boundary-length, wrongly typed and adversarial values",
"Tests probe single invalid fields; off-by-one lengths, one bad tag among many, mixed-type metadata and reserved prefixes form an unbounded input space.",
["packages/core/src/propagation.ts"],[("per-field validation","packages/core/src/propagation.ts")],["span attributes and baggage"])

p("C07","Propagation as baggage reproduces the attributes in the downstream service",
"When attributes are propagated as baggage and the context is carried over the wire with the standard baggage format, every span of the receiving service carries the same user, session, version, trace name, environment, metadata, tags (without commas) and prompt as the sender's. When no enclosing scope uses that option, no user-supplied attribute value appears in outgoing baggage, and foreign baggage entries of the application are preserved untouched in both cases.",
["inputs","configurations","histories"],"all valid attribute sets and pre-existing baggage, nested scopes with and without the baggage option, through a real inject/extract round trip",
"Tests inspect one baggage entry with ASCII values; encoding problems, nested merges and key collisions only show for arbitrary Unicode, separators and metadata keys.",
["packages/core/src/propagation.ts","packages/otel/src/span-processor.ts"],
[("baggage key naming and reading back","packages/core/src/propagation.ts")],["HTTP baggage header; spans of the receiving side"])

p("C08","Observation data is recorded faithfully for every value a caller can pass",
"For any observation type and any attributes passed at creation or in later updates, the span carries exactly those attributes: text unchanged, other values as their JSON encoding, metadata one entry per top-level key, absent values omitted, later updates overriding earlier ones only for the fields they set. Values that cannot be encoded are replaced by a fixed marker instead of throwing, and the caller's objects are not modified.",
["inputs","histories"],"all attribute objects of all observation types, including nested, cyclic, non-JSON and prototype-polluting values, and all update sequences",
"Tests pass a few small literal objects; fidelity for falsy values, unusual keys, special numbers and sequences of partial updates is an input-space property.",
["packages/tracing/src/attributes.ts","packages/tracing/src/spanWrapper.ts","packages/tracing/src/index.ts"],
[("attribute construction and serialisation","packages/tracing/src/attributes.ts")],["span attributes"])

p("C09","Tracing wrappers never change what the wrapped function does",
"Running a function inside an active observation or through the observe decorator calls it exactly once with the caller's arguments and receiver and gives back exactly its result, promise outcome or thrown error, synchronous staying synchronous. The observation is ended exactly once when the function settles (unless the caller asked to end it himself), and the decorator records captured input and output only when capture is on. A failure is recorded with the error's message, as error status on active observations and as error level by the decorator.",
["programs","inputs","schedules"],"all functions (sync, async, thenable results, throwing any value, re-entrant, nested, concurrent), arguments, receivers and option combinations",
"Tests wrap a few functions; non-Error throwables, receivers, thenables, unserialisable arguments and manual ending combine beyond what examples reach.",
["packages/tracing/src/index.ts","packages/tracing/src/spanWrapper.ts"],
[("observe/startActiveObservation wrappers","packages/tracing/src/index.ts")],["return values, thrown errors, exported spans"])

p("C10","Observations form exactly the tree in which they were created",
"Every observation belongs to the trace and parent determined by how it was created: explicit parent context first, then the creating observation, then the active one, else a fresh trace; concurrent asynchronous work never attaches to another task's observation. Its type, name and explicit start and end times are the ones requested, its reported trace and span ids are those exported, and updates made through the active-observation helpers reach only the active one.",
["histories","schedules"],"all programs of nested, manual and concurrent observation creation and ending with arbitrary awaits",
"Tests build small fixed trees; wrong parents appear only for particular mixes of manual and active creation under interleaved awaits.",
["packages/tracing/src/index.ts","packages/tracing/src/spanWrapper.ts"],
[("context selection on creation","packages/tracing/src/index.ts")],["exported parent ids, trace ids, types and times"])

p("C11","Identifiers are well-formed, and deterministic exactly when they are seeded",
"A trace id is always 32 lowercase hexadecimal characters and not all zero; the same non-empty seed always gives the same id (the leading half of the seed's SHA-256), different seeds give different ids, and calls without a seed never repeat. Ids derived from dataset-less experiment items depend only on the item's input, and media ids depend only on the media content.",
["inputs"],"all seed strings (any Unicode, any length), inputs and byte contents; batches of unseeded calls",
"Tests check a few seeds for shape; agreement with the documented hash for arbitrary Unicode and absence of collisions need generated seeds and an independent hash.",
["packages/tracing/src/index.ts","packages/core/src/utils.ts","packages/core/src/media.ts"],
[("seeded hashing","packages/tracing/src/index.ts")],["returned ids"])

p("C12","Embedded media in exported spans becomes references and loses no content",
"With media upload enabled, every base64 data URI (data:<type>;base64,<data>) inside an exported span's input, output or metadata, and every inline file part of recognised AI-SDK messages, is replaced in place by a reference tag naming its content type and content hash, all surrounding text stays identical, and exactly the decoded bytes are uploaded for that trace, observation and field. With media upload disabled, or when the content is not decodable media, the value is left unchanged and nothing is uploaded.",
["inputs","histories","configurations"],"all texts and JSON values containing any number of data URIs (repeated, adjacent, one a prefix of another, malformed), all fields, both settings",
"Tests embed one or two distinct URIs; overlapping or repeated URIs and prose around them corrupt content only for particular combinations.",
["packages/otel/src/MediaService.ts","packages/core/src/media.ts"],
[("data-URI discovery and replacement","packages/otel/src/MediaService.ts")],["exported attributes; upload requests"])

p("C13","Media objects and their references round-trip byte for byte",
"A media object built from bytes or from a data URI reports the same content, type, length, SHA-256 and id for the same content, its data URI decodes to exactly those bytes, and its reference tag parses back to the same type, id and source. Malformed input yields an empty object or a parse error and never a tag; a media reference serialises to its reference string, downloads exactly the served bytes, and reports expiry exactly when its deadline is within the threshold.",
["inputs"],"all byte strings, content types, malformed URIs and tags, expiry times and thresholds",
"Tests use a few fixed images; byte-exactness and parser agreement hold over all contents and strings.",
["packages/core/src/media.ts","packages/core/src/utils.ts","packages/client/src/media/index.ts"],
[("URI parsing, hashing, tag formatting","packages/core/src/media.ts")],["public media API"])

p("C14","Media upload follows the storage protocol under every fault sequence",
"For each medium the SDK asks for an upload slot with the content's type, length and hash, uploads the exact bytes to the returned address until the first success (HTTP 200 or 201) within a bounded number of retries with a pause before each, and reports the status storage last answered with exactly once; content the server already has is not uploaded. When the slot names a different id, the slot cannot be obtained or the upload finally fails, the caller learns of the failure (or, for spans, the span is still exported and flush still resolves), and nothing is ever uploaded more than once successfully.",
["fault_sequences","inputs","histories"],"all sequences of HTTP statuses and network errors on the three protocol steps, all contents and storage hosts",
"Tests inject one fault at a time; retry bounds and status reporting depend on the whole fault sequence.",
["packages/core/src/mediaUpload.ts","packages/otel/src/MediaService.ts","packages/client/src/dataset/index.ts"],
[("upload with backoff and status report","packages/core/src/mediaUpload.ts")],["HTTP requests to API and storage"])

p("C15","Resolving media references changes only resolvable references",
"Resolving references in a JSON-like value returns a structural copy in which every reference tag whose medium can be fetched is replaced by the data URI of exactly that medium, in every string within the depth limit, and everything else (other text, unresolvable or malformed tags, non-string values, key order) is equal to the original. The input object is never modified, and one failing reference does not affect the others.",
["inputs","fault_sequences"],"all nested values with any number of repeated, adjacent, malformed or failing tags at any depth",
"Tests resolve one or two tags; replacement errors need repeated, adjacent or failing tags in the same string and deep structures.",
["packages/client/src/media/index.ts"],[("tag search and replacement","packages/client/src/media/index.ts")],["returned object"])

p("C16","Fetching a dataset returns every item once, in order, with media hydrated",
"Fetching a dataset returns all of its items exactly once and in server order whatever the page size, page count and dataset name, unchanged except that each media reference listed by the server is placed at exactly its path in input, expected output or metadata. Paths that cannot be parsed or followed leave the item intact, and an API failure rejects instead of returning a partial dataset; linking an item to a run records exactly that item, run and observation.",
["inputs","configurations","fault_sequences"],"all dataset sizes, page sizes, names, item contents, reference paths and failing pages",
"Tests use one or two pages and simple paths; off-by-one pagination and path handling show only at specific sizes and keys.",
["packages/client/src/dataset/index.ts","packages/client/src/dataset/jsonPath.ts"],
[("pagination loop and hydration","packages/client/src/dataset/index.ts")],["returned dataset; API requests"])

p("C17","Creating a dataset item stores the given data with media replaced by tags",
"Creating a dataset item sends exactly the caller's fields, with each media object in plain objects and arrays (up to 20 levels deep) of input, expected output or metadata replaced by its reference tag and uploaded (once per distinct content) before the item is created; all other values are sent unchanged. The caller's objects are never modified, and if a medium cannot be uploaded the item is not created and the call fails.",
["inputs","fault_sequences"],"all nested inputs with shared, repeated and cyclic structures, and all upload faults",
"Tests embed one or two media; sharing, repetition across fields, depth and failure order need generated structures.",
["packages/client/src/dataset/index.ts","packages/core/src/mediaUpload.ts"],
[("media collection and replacement","packages/client/src/dataset/index.ts")],["API and storage requests"])

p("C18","Every queued score is sent exactly once, and flush waits for it",
"Every score created before a flush or shutdown has been part of exactly one completed ingestion request when that flush or shutdown resolves, in creation order and in requests of at most 100 events, however creates, flushes, timers and slow or failing requests interleave (while the queue stays within its bound of 100,000). Without any explicit flush each score is sent once the configured count or interval is reached. A failing request never throws into the caller nor affects other batches.",
["schedules","histories","fault_sequences","configurations"],"all interleavings of create, flush, shutdown, timer expiry and request completion or failure; all flush settings",
"Tests create a few scores and flush once with immediate responses; loss needs a create or a second flush while a request is in flight, or a timer firing during one.",
["packages/client/src/score/index.ts"],[("event queue, flush timer and in-flight flush","packages/client/src/score/index.ts")],["ingestion requests"])

p("C19","A score is attached to exactly the target and values it was created with",
"Each score event carries unchanged the name, value and other fields given, a fresh unique event id, the caller's id or a fresh unique one, and the caller's environment or else the configured one. Scoring an observation attaches its trace and observation ids, scoring a trace only its trace id, the active variants use the span active at the call, and without an active span nothing is sent and nothing throws.",
["inputs","histories","schedules"],"all score bodies, targets, nested/concurrent active spans and environments",
"Tests score fixed spans; attaching to a wrong or stale span needs nested and concurrent contexts.",
["packages/client/src/score/index.ts"],[("target resolution","packages/client/src/score/index.ts")],["ingestion requests"])

p("C20","Prompt caching serves the right prompt and refreshes it exactly when due",
"A prompt request is answered with the prompt stored for exactly that name and version or label: from cache without network while fresh, immediately from cache while one single background refresh runs once expired, and by a fetch when missing or when caching is disabled; a fetched value is what later requests within its lifetime see. After updating or deleting a prompt no request returns a value fetched before that change. A failed refresh keeps serving the cached prompt, and a failed first fetch returns the caller's fallback, or fails if there is none, without being cached.",
["histories","schedules","fault_sequences","inputs"],"all histories of get/update/delete/clock advance over names, versions, labels and TTLs with slow, failing and out-of-order fetches",
"Tests walk a few scripted cache states; stale or cross-key answers need an interleaving of refresh completion with update, expiry and other keys.",
["packages/client/src/prompt/promptManager.ts","packages/client/src/prompt/promptCache.ts"],
[("cache lookup, background refresh, invalidation","packages/client/src/prompt/promptManager.ts"),("expiry and in-flight refresh map","packages/client/src/prompt/promptCache.ts")],["returned prompts; prompt API requests"])

p("C21","Compiling a prompt substitutes exactly the given variables",
"Compiling replaces every variable tag with the text of the supplied value without any escaping and leaves all other text unchanged, for text prompts and for every message of a chat prompt, keeping roles and order. Message placeholders supplied with messages are expanded in place with all fields of those messages, supplied with an empty list are removed, and left in place when not supplied; compiling never modifies the prompt and gives the same result every time.",
["inputs","histories"],"all templates, variable names and values (including text containing tag syntax, HTML and JSON) and message lists",
"Tests compile small templates; escaping, values that look like tags, repeated variables and mixed placeholders form an unbounded input space.",
["packages/client/src/prompt/promptClients.ts"],[("mustache rendering and placeholder expansion","packages/client/src/prompt/promptClients.ts")],["compile() results"])

p("C22","Prompts converted for LangChain render to the same text",
"The LangChain form of a prompt, rendered by LangChain's own template engine with given variables, yields the same text and message sequence as compiling the prompt directly with those variables, whatever JSON objects (literal braces) the prompt contains. Unresolved message placeholders become LangChain message placeholders of the same name at the same position.",
["inputs"],"all prompts mixing variables, JSON with nested braces and placeholders, and all variable values",
"Tests convert listed JSON examples; agreement with the downstream template engine over arbitrary brace nesting is differential.",
["packages/client/src/prompt/promptClients.ts"],[("brace escaping and variable rewriting","packages/client/src/prompt/promptClients.ts")],["getLangchainPrompt() rendered by @langchain/core"])

p("C23","An experiment reports exactly the outcomes of its items, in order",
"An experiment calls the task exactly once per item that has an input, never with more concurrent tasks than the limit, and returns one result per successful item in input order with that item's own output, trace and evaluations; a failing item, evaluator or run-level evaluator never removes, reorders or alters any other result. The formatted summary reports the same counts, averages and, per item, that item's own input, expected output, output and scores.",
["schedules","fault_sequences","inputs","configurations"],"all item lists, concurrency limits, task/evaluator latencies, settle orders and failures",
"Tests run a few items with one failure; ordering, concurrency and misattribution errors need interleaved completion and failures at chosen positions.",
["packages/client/src/experiment/ExperimentManager.ts","packages/client/src/experiment/adapters.ts"],
[("batching and result collection","packages/client/src/experiment/ExperimentManager.ts")],["ExperimentResult; task and evaluator calls"])

p("C24","Experiment traces, run items and scores are linked to the right item",
"Every item's task runs in its own observation (in a trace of its own unless the experiment runs inside an active observation) that records that item's input and output; each evaluation is sent as a score on exactly that trace and observation, each run-level evaluation on the dataset run, and for hosted datasets each item is linked once to the named run with its own trace. Everything an experiment produced has been sent when it resolves, and failures to link, to score or to build a URL do not change the returned results.",
["schedules","fault_sequences","inputs"],"all hosted and local datasets, evaluators, failures of linking and ingestion, and concurrency",
"Tests check one item; cross-wiring between concurrent items needs many items with interleaved completion.",
["packages/client/src/experiment/ExperimentManager.ts","packages/client/src/dataset/index.ts"],
[("per-item context and score linkage","packages/client/src/experiment/ExperimentManager.ts")],["exported spans; ingestion and run-item requests"])

p("C25","The OpenAI wrapper is transparent to the application",
"Calling any method through the OpenAI wrapper invokes the underlying client method once with the same arguments and receiver and yields the same value, stream items in the same order, or the same error; non-function properties and nested resources behave as on the client. Nothing the tracing side does, including parsing unusual or empty responses, changes the outcome the application sees.",
["programs","inputs","fault_sequences"],"all method paths, response shapes, streams (including failing or abandoned ones) and errors",
"Tests use well-formed mocked responses; a response shape the parser does not expect must not turn a success into a failure.",
["packages/openai/src/observeOpenAI.ts","packages/openai/src/traceMethod.ts","packages/openai/src/parseOpenAI.ts"],
[("proxy and result wrapping","packages/openai/src/traceMethod.ts")],["results seen by the caller"])

p("C26","Each OpenAI call yields one finished generation with its real data",
"Each traced asynchronous OpenAI call produces exactly one generation with the model, parameters, input, prompt link and parent in effect at the call; when the call completes, or its stream is consumed or abandoned, the generation is ended with the returned text, or the tool calls when there are any, and the usage, where streamed chunks reassemble to the text and tool calls that a non-streamed answer would contain. Usage totals are preserved with cached and detailed tokens separated, never negative, and a failed call ends as an error with the failure's message.",
["inputs","programs","fault_sequences"],"all request/response shapes of chat, completion, responses and embedding calls, all chunkings of streams and usage objects",
"Tests replay a few recorded responses; chunk boundaries, several tool calls and usage details combine beyond examples.",
["packages/openai/src/traceMethod.ts","packages/openai/src/parseOpenAI.ts"],
[("output/usage parsing","packages/openai/src/parseOpenAI.ts")],["exported generation spans"])

p("C27","The LangChain handler mirrors every run as one finished observation",
"For any valid sequence of LangChain callback events, each run is represented by exactly one observation (tool runs as tool, model runs as generation, other runs as span; agent actions additionally as child of the agent's run), with that run's own input, output and name, child of the observation of its parent run (or of the observation active when it started, or root of a trace), and ended when the run ends or fails, a failure recorded as an error. Concurrent or interleaved runs never mix their data, nothing is retained for finished runs, and a malformed or unknown run never makes a callback throw.",
["histories","schedules","inputs"],"all interleavings of start/end/error events over forests of chain, model, tool, retriever and agent runs",
"Tests run small pipelines; mis-parenting and leaks need concurrent run trees and failures at any point.",
["packages/langchain/src/CallbackHandler.ts"],[("run-id to observation map","packages/langchain/src/CallbackHandler.ts")],["exported spans"])

p("C28","LangChain generations carry their own model, parameters, usage and prompt",
"Every model run recorded from LangChain carries the model name and parameters of that invocation, its messages with role, content and tool calls, the token usage its provider reported in any supported format with detailed categories separated from totals, first-token time for streams, and the prompt registered by a sibling step of the same parent run (once, and never a fallback prompt). User, session, tags and metadata given to the handler or in the root run's metadata are on the root run's observation, and internal keys are not exposed as metadata.",
["inputs","histories"],"all invocation parameter sets, message lists, provider usage formats and metadata",
"Tests cover one provider's format; usage arithmetic and prompt association across nested runs are input- and history-dependent.",
["packages/langchain/src/CallbackHandler.ts"],[("usage normalisation and prompt registration","packages/langchain/src/CallbackHandler.ts")],["exported generation attributes"])

p("C29","AI-SDK telemetry is enriched with Langfuse data and otherwise unchanged",
"For any telemetry event, the AI-SDK integration adds the entries of the runtime context as observation metadata in the exported attribute format, links the context's prompt only to model-level spans and only if it is well formed and not a fallback, and leaves every other attribute, span and callback result as the standard telemetry produces it. Arbitrary or malformed context values never make a telemetry callback throw.",
["inputs"],"all runtime-context objects and span types",
"Tests use one context object per case.",
["packages/vercel-ai-sdk/src/utils.ts","packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts"],
[("attribute construction","packages/vercel-ai-sdk/src/utils.ts")],["span attributes"])

p("C30","The browser client reports a score only if the server acknowledged it",
"A browser score call resolves with the id under which the score was sent exactly when the server's response acknowledges that very event without errors, and otherwise rejects with a typed error carrying the status when the server answered with a failure. Each call sends exactly one request holding exactly the given score, authenticated with the public key only, to the configured host, and custom headers can never replace the SDK's own.",
["inputs","fault_sequences","configurations"],"all score bodies, configurations, headers and server responses (statuses, malformed or partial acknowledgements, network errors)",
"Tests script a few responses; acknowledgement logic over arbitrary response bodies is an input-space property.",
["packages/browser/src/index.ts","packages/browser/src/utils.ts"],[("acknowledgement check","packages/browser/src/index.ts")],["fetch calls; promise outcome"])

p("C31","API requests are retried within bounds and outcomes reported faithfully",
"Every API call sends its request at most one plus the allowed number of retries (two by default), retrying exactly on HTTP 408, 429 and 5xx answers and waiting as long as the server's retry hint asks (up to 60 s), else growing pauses; the last response decides the outcome. Success returns the JSON response body unchanged, and a failure rejects with an error of the matching kind carrying the status and body; a request that gets no response within its timeout fails with a timeout error, and an aborted one stops.",
["fault_sequences","inputs","configurations"],"all sequences of status codes, retry headers, network errors, stalls and retry limits",
"Tests exercise no retry sequences; bounds and waiting depend on the whole sequence and header forms.",
["packages/core/src/api/core/fetcher/requestWithRetries.ts","packages/core/src/api/core/fetcher/Fetcher.ts","packages/core/src/api/core/fetcher/makeRequest.ts"],
[("retry loop and delay computation","packages/core/src/api/core/fetcher/requestWithRetries.ts")],["fetch calls and virtual time; promise outcome"])

p("C32","API requests address exactly the requested resource with exact parameters",
"Every API call is sent to the configured base URL with the documented method and path, in which each path argument is encoded as a single segment and each query parameter (including lists, zero, false and empty text) decodes back to the value given, omitted ones being absent. The body is the JSON encoding of the given data, credentials are sent as basic authentication, and SDK and caller headers are all present.",
["inputs","configurations"],"all path arguments, query values, bodies, base URLs and headers in any Unicode",
"Tests use ASCII identifiers; encoding errors appear for separators, reserved characters and nested or list values.",
["packages/core/src/api/core/url/qs.ts","packages/core/src/api/core/url/join.ts","packages/core/src/api/core/fetcher/Fetcher.ts","packages/core/src/api/core/auth/BasicAuth.ts","packages/core/src/api/core/headers.ts"],
[("URL building and header merging","packages/core/src/api/core/fetcher/createRequestUrl.ts")],["fetch calls"])

p("C33","Configuration comes from arguments, then environment, then defaults",
"For every configurable setting of the client and of the tracing processor (keys, host, environment, release, flush limits, timeouts, media upload, extra headers) the effective behaviour follows the constructor argument if given, otherwise the documented environment variable if it is set and not empty, otherwise the documented default. Missing credentials only warn and never throw.",
["configurations"],"all combinations of set/unset arguments and environment variables and their values",
"Tests set one variable at a time; precedence errors appear in combinations.",
["packages/client/src/LangfuseClient.ts","packages/otel/src/span-processor.ts","packages/core/src/utils.ts","packages/client/src/score/index.ts"],
[("precedence chains","packages/client/src/LangfuseClient.ts")],["requests and exported spans"])

p("C34","Logging emits exactly the messages at or above the configured level",
"A log call produces output exactly when its severity is at or above the effective level of its logger, on the console channel of that severity, with the configured prefix and all arguments passed on; level changes apply to every later call and to no other logger. The level of the global logger comes from explicit configuration, else from the debug or log-level environment variables, else the default, and the SDK itself never logs below it.",
["configurations","histories","inputs"],"all levels, reconfigurations, prefixes, environment settings and message arguments",
"Tests check a few level/method pairs.",
["packages/core/src/logger/index.ts"],[("level comparison","packages/core/src/logger/index.ts")],["console calls"])

p("C35","An isolated tracer provider receives all SDK spans and only those",
"After an isolated tracer provider is set (through any loaded copy of the SDK), every observation the SDK creates goes to that provider and none to the global one, while spans of other instrumentation stay with the global one; clearing it restores the global provider for later observations. Switching providers at any time never loses or duplicates a span that already started.",
["histories","configurations"],"all histories of set/clear provider and span creation through every SDK entry point",
"Tests set the provider once.",
["packages/tracing/src/tracerProvider.ts"],[("global isolated-provider slot","packages/tracing/src/tracerProvider.ts")],["spans per exporter"])

p("C36","Legacy client methods and trace links act like what they stand for",
"Every legacy method of the client sends the same requests and gives the same result or error as the current method it stands for, for all arguments, shares its cache, and also works when detached from the client. A trace link names the configured host, the project of the credentials and exactly the given trace; the project is looked up at most until it is known, and a failed lookup rejects without affecting later calls.",
["inputs","fault_sequences","histories"],"all arguments and server answers of every legacy method, and all histories of link requests with failing lookups",
"Tests call few of the legacy methods, with fixed arguments; that two entry points agree for all inputs is a differential property.",
["packages/client/src/LangfuseClient.ts"],[("legacy bindings and project id cache","packages/client/src/LangfuseClient.ts")],["requests; results"])

p("C37","A runner context supplies defaults and explicit arguments win",
"Running an experiment through a runner context has the same result, observations, run items and scores as running it directly with the context's data, dataset version and metadata filled in where the call gives none (metadata merged key by key, the call's value winning), it refuses to run without data, and it modifies neither the context nor the given objects. A regression error carries the result, metric, value and threshold it was raised with and its message names them unless a message was given.",
["inputs","configurations"],"all combinations of defaults and call arguments, local and hosted items",
"Tests check single overrides; precedence over all combinations is a configuration-space property.",
["packages/client/src/experiment/RunnerContext.ts"],[("default merging","packages/client/src/experiment/RunnerContext.ts")],["experiment results; requests; spans"])

p("C38","Prompts are stored as given and come back as stored",
"Creating a prompt sends exactly the name, content and other fields given (text prompts marked as text, chat messages in order with all their fields, placeholders by name), updating sends exactly the new labels for that name and version, and deleting names exactly the version or label given; the caller's objects are not modified. A created or fetched prompt exposes exactly the fields and content of the server's answer and serialises to them, and a refused request rejects with the server's status.",
["inputs","fault_sequences"],"all prompt contents, names, labels, versions and server answers",
"Tests create a few ASCII prompts; fidelity of every field in both directions is an input-space property.",
["packages/client/src/prompt/promptManager.ts","packages/client/src/prompt/promptClients.ts"],[("request building and response wrapping","packages/client/src/prompt/promptManager.ts")],["requests; returned prompt clients"])

p("C39","A finished application can exit: the SDK leaves nothing running behind",
"Once every call the application made has settled and background sending has had its time, nothing the SDK started keeps the process alive: no timer that holds the event loop open is left behind by scores waiting for their batch, prompt fetches and background refreshes, API requests (answered, refused, broken off, timed out or aborted by the caller), media uploads and downloads, experiments, the browser client, or spans in either export mode. Every such call settles, and every request is eventually answered or broken off.",
["inputs","fault_sequences","schedules"],"all sequences and overlaps of SDK calls, server behaviours, timeouts and aborts, with or without flush or shutdown",
"Tests run under a runner that kills leftovers; whether every path, and above all every failing path, releases its timers is a property of all histories and faults.",
["packages/core/src/api/core/fetcher","packages/client/src/score/index.ts","packages/client/src/prompt/promptManager.ts","packages/core/src/utils.ts","packages/otel/src/span-processor.ts"],[("request timeout timers and their release","packages/core/src/api/core/fetcher/makeRequest.ts"),("batch timer","packages/client/src/score/index.ts")],["timers pending after all calls settle; requests still open"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
