P={
"C01":("histories of up to ~25 steps: start/end spans (accepted and rejected, nested), clock steps, overlapping forceFlush/provider flush/shutdown, with a mask that is sync/async/slow/failing per value, a media server and an exporter with scripted latency and failures, batched and immediate mode; a second sub-check ends 1001–1990 spans behind a slow mask before one flush or shutdown","model of ended accepted spans: when each flush resolves every span ended before it must have reached the exporter once, with name, parent, times and attributes as at end; at the end the multiset of exported spans equals the model","fewer spans than the OpenTelemetry queue (2048); sampled spans"),
"C02":("one program of 1–4 observations (all types, foreign spans, trace IO, propagated metadata, media) run twice: without a mask and with a mask whose outcome per value is drawn (wrap, constant, same, empty, null/undefined/number/object, throw, weird throw, reject, slow, slow reject, falsy throws), all observation types, remote parents","differential: every sensitive attribute of the masked run equals mask(plain value) (or the fixed placeholder), every other attribute is identical, the mask was asked for each value, nothing is uploaded for values whose media the mask removed",""),
"C03":("1–5 spans with scopes and attributes of all span kinds and parents around the boundaries of the default filter (exact name, dotted child, mere prefix, `gen_ai` prefixes), default and custom filters that look at name, attributes, duration, or throw","independent statement of the default filter; exported set must equal accepted set","custom filters return booleans or throw"),
"C04":("histories of span starts under any parent (active, ended, remote, none), with or without a propagated claim for this or another trace, filters that reject/throw, ends in any order","reference predicate evaluated on the model history at each start","attributes set after start do not matter to the flag (decided at start)"),
"C05":("programs (trees) of nested, concurrent, detached-continuation scopes and spans; scopes set any subset of user, session, version, trace name, environment, tags, metadata, prompt","lexical-scope interpreter of the same program gives each span's expected attributes; also the result or error of the callback","Node-style context manager; keys other than `__proto__`"),
"C06":("one propagation call with valid and invalid values (200/201 characters, non-strings, reserved environment prefixes, malformed prompts …) in every field, optionally inside a valid scope, as baggage or not","independent validity predicates; kept values must be on span and baggage, dropped ones nowhere",""),
"C07":("nested scopes, serialised with the W3C baggage propagator and received in a fresh context, mixed with foreign baggage","round trip: receiver's spans carry the sender's attributes; with the option off no user value in outgoing baggage; foreign entries unchanged","W3C size limits, no commas in tags (documented separator)"),
"C08":("observations of every type created three ways with arbitrary values (cyclic, BigInt, toJSON that throws, Dates, undefined, symbols, megabyte-sized) and up to five updates","reference encoder written from the documentation; snapshot of the caller's objects before/after","<128 attributes (OpenTelemetry limit); no throwing accessors on top-level metadata"),
"C09":("1–4 overlapping calls through `startActiveObservation`/`observe` with arbitrary this, arguments, results, sync/async, errors of any kind (including values that cannot be stringified), all option combinations","the undecorated function run on the same script: same calls, result identity, settle order; span ended once with expected input/output/level","asynchronous = native promises"),
"C10":("programs of nested, concurrent, detached observations of all types and creation styles with explicit parents and times and active-observation updates","interpreter of the program predicting trace, parent, type, name, times, updates of each span",""),
"C11":("batches of seeds (unicode, equal, empty), unseeded calls; arbitrary JSON item inputs and byte contents","node:crypto SHA-256; injectivity and stability over the batch",""),
"C12":("1–3 spans whose fields mix data URIs (also prefixes of one another), near-misses and prose; AI-SDK v5–v7 message attributes with inline files, URLs and equal text elsewhere; upload on/off, server faults, uploads that take up to 40 s","independent tokenizer of the text; exact expected text, exact set of uploads (bytes, type, trace, observation, field)","data URI grammar `data:<type>;base64,<data>`"),
"C13":("arbitrary bytes (buffer views, MBs), types; malformed data URIs; tags with fields permuted/missing; media references with any expiry and download outcome","node Buffer/crypto as reference; parse(tag) round trip; expiry arithmetic",""),
"C14":("per medium a script of slot answers and PUT/PATCH answers (statuses, network errors, wrong id, already stored, GCS hosts), directly, from spans and from dataset items, up to 120 media concurrently, answers that take up to 45 s","protocol automaton over the request log: slot fields, exact bytes, ≤ 1+retries PUTs with pauses, stop at first success, exactly one report with last status, outcome to the caller","enumerates fault positions 0..3 and final"),
"C15":("nested values with tags (valid, repeated, adjacent, malformed, failing) up to and beyond the depth limit","reference substitution on the token level; input snapshot; key order","ambiguous overlapping tag openers excluded"),
"C16":("datasets of 0–151 items, page sizes, servers that cap pages, names needing encoding, versions, faults at any request; items with references at any path incl. keys with quotes/brackets, unparsable paths","exact item list, requests, link bodies; structural comparison with positions known from generation","server paths address existing leaves"),
"C17":("items with media/references/shared/deep/odd values in three fields, all faults of the upload protocol with latencies","expected JSON built during generation; request log: every distinct content uploaded and reported before create, no create on failure; caller's objects snapshot","media nested >20 levels excluded (documented)"),
"C18":("histories of create/flush/shutdown/clock steps with slow, failing, retried responses, flush counts and intervals; bursts of up to 99,999 scores; 12–140 requests under way at once when flush is called","queue model: at each flush resolution every earlier score is in exactly one completed request, order, ≤100 per request; timer/size triggered sends observed by time","≤100 000 queued"),
"C19":("programs of nested/concurrent observations that score explicit, object and active targets with arbitrary bodies, with and without provider","model of the active span; exact event body; uniqueness of ids",""),
"C20":("histories of get/create/update/delete/clock over up to three of 14 related names × versions × labels × TTLs, scripted slow/failing fetches; one prompt that keeps expiring while refreshes of up to 55 s are under way; up to 1,100 prompts in one cache","cache model compared at each step (answer, request count, fallback); no value fetched before an update/delete after it","labels without colon; no two responses in the same ms"),
"C21":("templates of literals and tags, adversarial values (`$&`, `{{x}}`, html, braces), chat prompts with placeholders supplied as messages, empty, odd, missing, variables and placeholders named like inherited object properties","reference substitution by construction; prompt unchanged; repeatable","well-formed templates"),
"C22":("prompts of text, variables and JSON (compact/pretty, nested, pre-escaped) as text and chat with placeholders","metamorphic: LangChain's own renderer on the converted prompt equals compile()","single-brace words are LangChain syntax"),
"C23":("experiments with up to 12 (sub-check: 130) items, latencies, failing tasks/evaluators/run evaluators, concurrency limits, hosted/local, missing inputs, values JSON cannot carry; 2–4 experiments of one client side by side or one inside a task of another; formatted summaries; autoevals adapters","model of outcomes in input order; max concurrency monitored; summary re-derived from results",""),
"C24":("the same plus faults in linking, ingestion, project lookup, nested spans, experiments inside an observation or a propagation scope, up to 24 evaluations per evaluator, 2–4 experiments of one client at once (own experiment ids, links and scores each)","request log and exported spans joined per item; every score/link on that item's ids; all sent at resolution",""),
"C25":("a stand-in client with arbitrary methods/properties/streams and the real openai client on an in-memory fetch; unusual responses","differential against the bare client (calls, receiver, args, result identity, chunk order, errors)","listed findings: promise helpers, page properties"),
"C26":("calls over chat/completions/responses/embeddings, streamed/non-streamed, tool calls in fragments, usage formats, failures, abandonment, parents and prompts","generation predicted from the script; stream ≡ non-stream; usage arithmetic","first choice only; tool calls appear in index order"),
"C27":("event histories for forests of runs (overlapping, children outliving parents, failures with odd errors, agent actions, malformed events, hours between events, parent runs the handler never saw, message types it does not know, a second handler given the same events); 1,100–2,100 runs open at once; real LangChain runnables","one-to-one map runs→observations with parent, type, name, IO, level; handler keeps nothing afterwards",""),
"C28":("model runs with all message kinds, usage formats, parameters, prompts registered by siblings, streaming, handler and root metadata, two handlers on the same run ids; nested runs bring no trace data of their own","generation predicted per run from its own events",""),
"C29":("telemetry events/contexts of arbitrary values, interleaved calls, and the real AI SDK with mock models","differential against the standard telemetry with Langfuse additions stated independently","contexts the AI SDK can hand over"),
"C30":("concurrent score calls against scripted responses (acks of other events, duplicates, errors, malformed, cut off, statuses), headers, configurations","resolves iff acknowledged; request exact; reserved headers win",""),
"C31":("scripts of statuses, Retry-After forms, X-RateLimit-Reset, bodies, network errors, stalls, aborts, timeouts, retry limits on sampled endpoints","reference of allowed attempts and waits (intervals for jitter), error class/status/body table","listed finding: non-JSON success"),
"C32":("every endpoint of `data/endpoints.json` (extracted once from the pinned API) with arbitrary path, query and body values and request options","method, decoded path segments, decoded query, JSON body, headers from the reference table","dot segments excluded"),
"C33":("arguments × environment variables × absent for every setting of client, processor, default exporter, on root, child, remote-parent, generative-AI and foreign-scope spans","precedence function; observed on the wire (requests, batch sizes, timing), not on fields","listed finding: client timeout"),
"C34":("histories of logger creation, level changes, log calls; environments; SDK scenarios that log","severity model; console channel, prefix, arguments",""),
"C35":("histories of setting/clearing isolated providers (also through a second loaded copy of the SDK), observations via all integrations, foreign spans","destination model per span","AI-SDK integration spans not covered"),
"C36":("legacy method calls with arbitrary arguments, detached; trace link calls with failing lookups and up to a day between them","differential against the current method on a second client: requests and outcome",""),
"C37":("contexts and calls with overlapping data/version/metadata","differential against direct `experiment.run` with hand-merged parameters; snapshots of inputs",""),
"C38":("create/update/delete/get of prompts with arbitrary names, contents, messages with extra fields, placeholders, labels, config against accepting and refusing servers","request equals the given fields; returned client equals the server's document (independently built), serialised form re-derived",""),
"C39":("sequences and overlaps of scores, prompt gets, all API endpoints with timeouts, retries and aborts, dataset items with media, media resolution, experiments, browser scores and spans (both export modes), left as they are, flushed or shut down, against a network that answers, refuses, breaks off or never answers","virtual clock that records for every pending timer whether it holds the event loop (not unref'd): none may remain after all calls settled and 25 s passed; every call settles, no request stays open","counts timers, not sockets"),
}
