import fc from "fast-check";

export const weirdStrings = [
  "", " ", "0", "false", "null", "undefined", "__proto__", "constructor", "toString", "hasOwnProperty", "prototype", "length",
  "a,b", "a=b", "a;b", "a%2Cb", "%", "{{x}}", "{x}", "ü", "日本語", "😀", "\u0000", "\n", "\t", "\"", "\\", "'", "/", "..", "?", "#", "&", "+", "a b", "<b>&amp;</b>",
  "@@@langfuseMedia:type=image/png|id=x|source=bytes@@@", "data:;base64,", "langfuse", "NaN", "-0", "$&", "$1", "$$", "$`",
];
/** text as applications write it: text that looks like another type, identifiers, addresses, secrets */
export const plainStrings = [
  "true", "1", "-1", "1.5", "1e3", "007", "{\"a\":1}", "[1,2]", "\"quoted\"", "https://example.com/a?b=c#d", "http://localhost:3000", "2024-01-02T03:04:05.678Z", "jane.doe@example.com",
  "Bearer sk-lf-1234", "550e8400-e29b-41d4-a716-446655440000", "4bf92f3577b34da6a3ce929d0e0e4736", "production", "latest", "default", "user-1", "Hello, world!", "line one\r\nline two", " padded ", "UPPER", "Mixed Case", "a|b", "a:b", "a-b_c.d~e", "**bold** `code`",
];
/** names as applications choose them for their fields */
export const plainKeys = [
  "id", "_id", "user_id", "userId", "sessionId", "trace_id", "customer_id", "name", "type", "value", "values", "data", "input", "output", "expectedOutput", "metadata", "tags", "role", "content", "messages", "message", "text", "error", "source", "model", "version", "prompt",
  "url", "key", "secret", "password", "email", "status", "level", "environment", "public", "attributes", "items", "result", "score", "comment", "config", "options", "a.b", "x-y", "item 1", "0", "1", "langfuse_x", "scope", "usage", "then", "data_id",
];
/** long text: two of them share everything but a few characters at the end or in the middle */
export const longString = fc.tuple(fc.oneof({ weight: 30, arbitrary: fc.constantFrom(65, 129, 199, 201, 257, 520, 1025, 2100, 5000) }, { weight: 1, arbitrary: fc.constantFrom(33_000, 70_000, 140_000) }), fc.nat(9), fc.boolean()).map(([n, d, mid]) => {
  const body = "0123456789 lorem ipsum ".repeat(Math.ceil(n / 23)).slice(0, n - 2);
  return mid ? body.slice(0, n >> 1) + "#" + d + body.slice(n >> 1) : body + "#" + d;
});
export const anyString = fc.oneof(
  { weight: 12, arbitrary: fc.string({ maxLength: 12 }) },
  { weight: 6, arbitrary: fc.string({ unit: "grapheme", maxLength: 10 }) },
  { weight: 6, arbitrary: fc.constantFrom(...weirdStrings) },
  { weight: 4, arbitrary: fc.constantFrom(...plainStrings) },
  { weight: 3, arbitrary: fc.string({ unit: "binary", maxLength: 10 }) },
  { weight: 1, arbitrary: longString },
);
/** short text only */
export const shortString = fc.oneof(
  { weight: 4, arbitrary: fc.string({ maxLength: 12 }) },
  { weight: 2, arbitrary: fc.string({ unit: "grapheme", maxLength: 10 }) },
  { weight: 2, arbitrary: fc.constantFrom(...weirdStrings) },
  { weight: 2, arbitrary: fc.constantFrom(...plainStrings) },
  { weight: 1, arbitrary: fc.string({ unit: "binary", maxLength: 10 }) },
);
/** strings without lone surrogates */
export const cleanString = anyString.filter((s) => s.isWellFormed());
export const ident = fc.stringMatching(/^[a-z][a-z0-9_]{0,7}$/);
export const token = fc.stringMatching(/^[A-Za-z0-9]{1,10}$/);
/** object keys; `__proto__` is excluded: assigning it is not a property write in JavaScript */
export const key = fc.oneof(
  { weight: 3, arbitrary: ident },
  { weight: 3, arbitrary: fc.constantFrom(...plainKeys) },
  { weight: 2, arbitrary: shortString.filter((s) => s !== "__proto__") },
);
export const jsonLeaf = fc.oneof(
  fc.constant(null), fc.boolean(), fc.integer(), fc.double({ noNaN: true, noDefaultInfinity: true }).map((x) => (Object.is(x, -0) ? 0 : x)), anyString,
);
export function jsonValue(depth = 3): fc.Arbitrary<any> {
  if (depth <= 0) return jsonLeaf;
  const inner = fc.memo((n) => (n <= 0 ? jsonLeaf : fc.oneof(
    { weight: 3, arbitrary: jsonLeaf },
    { weight: 2, arbitrary: fc.array(inner(n - 1), { maxLength: 4 }) },
    { weight: 3, arbitrary: fc.dictionary(key, inner(n - 1), { maxKeys: 4, noNullPrototype: true }) },
  )));
  return inner(depth);
}
export const jsonObject = (depth = 2) => fc.dictionary(key, jsonValue(depth), { maxKeys: 5, noNullPrototype: true });
/** string whose length sits on or around n */
export const aroundLength = (n: number, ch = "a") =>
  fc.oneof(
    fc.constantFrom(n - 1, n, n + 1).map((k) => ch.repeat(Math.max(0, k))),
    fc.integer({ min: 0, max: 2 * n + 20 }).map((k) => ch.repeat(k)),
  );
export const opt = <T>(a: fc.Arbitrary<T>) => fc.option(a, { nil: undefined });
export const bytes = (max = 40) => fc.uint8Array({ maxLength: max, minLength: 0 });
