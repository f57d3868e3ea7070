#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The list of properties lives here.
import json
J="jscandec.go"; A="append_type_stack.go"; U="internal/unescape/unescape.go"; N="internal/jsonnum/jsonnum.go"; I="internal/atoi/atoi.go"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
OBS=["return values of Unmarshal / Decoder.Decode","the destination variable after the call"]

p("C01","Decoded values equal those of encoding/json",
 "Whenever a valid JSON document is decoded without error into a zero-valued destination of a supported type, the resulting value is exactly the value encoding/json produces for the same document and type, including nil versus empty slices and maps, duplicate keys, ignored surplus elements and every nesting of structs, maps, slices, arrays, pointers, any and unmarshalers.",
 ["inputs","programs"],"all supported destination types and all valid JSON documents, both input kinds ([]byte, string), Unmarshal and reusable decoders",
 "the tests pair a few hundred fixed (type, document) samples; type nesting and document shape are both unbounded",
 [J,A],[("token-driven frame machine","jscandec.go Decode"),("type flattening","append_type_stack.go appendTypeToStack")],OBS)
p("C02","Accept/reject verdict equals that of encoding/json",
 "For every supported destination type and every valid JSON document, decoding reports an error exactly when encoding/json reports one for the same document and destination type (values of the wrong JSON type, out-of-range numbers, bad quoted values, bad map keys, failing unmarshalers are errors; everything else is not).",
 ["inputs","programs"],"all supported types and all valid JSON documents nested at most 10000 deep (encoding/json's limit), matching the type or with mismatching values at any position",
 "tests check a few wrong-type values per type at the root; mismatches at arbitrary depth and position in arbitrary types are not sampled",
 [J,A],[("per-token type switch with ErrUnexpectedValue defaults","jscandec.go Decode")],OBS)
p("C03","Malformed input is always rejected, never crashes",
 "For every byte sequence and every supported destination type decoding terminates without panicking, and it reports success only if the input is a syntactically valid JSON document; for input that is not valid JSON an error is returned even when the defect lies after the part the destination needs.",
 ["inputs"],"all byte strings (random, truncated, mutated, deeply nested, empty) for all supported types",
 "tests contain a handful of malformed samples; truncations and mutations of arbitrary documents are unbounded",
 [J,N,U],[("tokenizer validates before the callback decodes","jscandec.go Decode d.tokenizer.Tokenize")],OBS)
p("C04","Decoding into a non-zero destination merges like encoding/json",
 "Decoding a valid document into a destination that already holds data leaves it exactly as encoding/json would: absent fields and null scalars keep their value, existing maps are extended and their touched entries replaced, existing pointees, slice backing arrays and array elements are reused and merged, surplus array elements are zeroed, and null resets maps, slices, pointers and interfaces to nil.",
 ["inputs","histories"],"all supported types, all pre-existing contents (without pointers stored inside interfaces), all valid documents, including chains of several decodes into the same variable",
 "tests decode almost exclusively into zero variables",
 [J],[("slice reuse / growth copy","jscandec.go ExpectTypeSlice"),("map reuse","jscandec.go ExpectTypeMap"),("null handling","jscandec.go TokenTypeNull")],OBS)
p("C05","A reused decoder behaves like a fresh one",
 "The outcome of a decode (value, error, error index) depends only on the input, the destination contents and the options: it is the same for a fresh decoder and for a decoder with any history of successful, rejected, syntactically invalid or unmarshaler-failing decodes, and also when its tokenizer is shared with other decoders that were used in between.",
 ["histories"],"all sequences of decode calls on reused decoders with private or shared tokenizers, over all supported types, inputs and options",
 "tests reuse a decoder only for repeated successful decodes of the same input",
 [J],[("Dest reset in deferred cleanup","jscandec.go Decode"),("offsets, lengths and recursion state in frames","jscandec.go stackFrame")],OBS)
p("C06","[]byte and string inputs give the same outcome",
 "Decoding the same JSON text given as []byte and as string yields equal values, equal errors and the same error index, for every destination type and option set.",
 ["inputs","programs"],"all inputs (valid and malformed), all supported types, all decode options",
 "tests run a fixed list of inputs in both modes",
 [J,U],[("generic parameter S","jscandec.go Decoder")],OBS)
p("C07","[]byte input is neither modified nor retained",
 "Decoding never modifies its input, and no value decoded from a []byte input (nor an error reported for it, other than the syntax errors of the tokenizer, which refer to their source) changes when the caller later overwrites that slice, runs further decodes on the same or other decoders, or garbage collection runs; the same holds for string inputs with respect to later decodes.",
 ["inputs","histories"],"all documents and types, any later mutation of the input buffer and any later decoder use",
 "tests do not overwrite input buffers after decoding arbitrary types",
 [J,U],[("string copy for S=[]byte","internal/unescape/unescape.go Valid"),("unsafe.String only for number parsing","jscandec.go parseFloat32/64")],OBS)
p("C08","Error index and error kind identify the first offending token",
 "A successful decode returns index -1 and a nil error; a failing one returns a non-nil error and an index inside the input: for syntactically valid input it is the byte offset at which the first value or key (in document order) that the destination cannot accept begins, and the error is ErrIntegerOverflow for plain integers out of range of an integer destination (ErrUnexpectedValue for negative numbers into unsigned ones), ErrUnknownField for disallowed fields, the unmarshaler's own error for failing unmarshalers, and ErrUnexpectedValue for values of the wrong kind and for bad content of quoted (`string` option) numbers and integer map keys.",
 ["inputs","programs","configurations"],"all documents with one or more rejected values at any depth, all supported types, all options",
 "tests check the index for a few root-level mismatches",
 [J],[("errIndex, err assignments","jscandec.go Decode")],["errIndex and err returned by Decoder.Decode"])
p("C09","Integers decode exactly or are rejected",
 "A JSON integer literal decoded into any signed or unsigned integer type of any width - as a value, slice or array element, map value, map key, struct field, pointee or quoted (`string` option) field - yields exactly its mathematical value if that fits the type and an error otherwise; it is never truncated, wrapped or approximated.",
 ["inputs"],"all integer literals (including -0, boundary and very long ones), all integer types, all contexts",
 "tests exhaust 8/16-bit in-range values and sample a few overflows; wraparound past the range and the other contexts are not covered",
 [I,J],[("digit-count specialised parsers with overflow detection","internal/atoi/atoi.go")],OBS)
p("C10","Floats are correctly rounded; Number keeps the literal",
 "A JSON number decoded into float32, float64 or any (in every context) yields the bit-exact IEEE value strconv.ParseFloat gives for that literal (including negative zero and subnormals) and an error if it is out of range, and decoded into Number it keeps the literal text unchanged, a JSON string being accepted into Number only if its content is a complete JSON number, and the methods of a Number agree with those of json.Number.",
 ["inputs"],"all JSON number literals, all float-valued contexts",
 "tests sample a few literals; the integer fast path boundary and sign of zero need generated literals",
 [J,N],[("integer fast path below 2^24 / 2^53","jscandec.go TokenTypeInteger"),("parseFloat32/64","jscandec.go init")],OBS)
p("C11","Strings are unescaped exactly",
 "Every valid JSON string with well-formed UTF-8 content, as a value, map key, struct field name, any, slice element or text-unmarshaler argument, decodes to exactly the text its escapes denote, including surrogate pairs, lone surrogates (U+FFFD), control characters and escapes at any position and string length.",
 ["inputs"],"all JSON string literals over well-formed UTF-8, all string-valued contexts, both input kinds",
 "tests list about forty strings; positions of escapes relative to the 8-byte batches and surrogate combinations are unbounded",
 [U,J],[("batched unescape","internal/unescape/unescape.go Valid")],OBS)
p("C12","Object keys select struct fields as the tags and options say",
 "For every struct type and object, each key is assigned to the field encoding/json would choose (exact tag or field name first, otherwise the first case-insensitively equal one; ignored and unexported fields never); with DisableCaseInsensitiveMatching only exact names match and with DisableFieldNameUnescaping only keys whose raw source text equals the name match, all other keys being treated as unknown.",
 ["inputs","programs","configurations"],"all struct types without embedded fields (fields with clashing names included), all keys (exact, case-varied, escaped, unknown), all option combinations",
 "tests use a few structs with few fields and keys",
 [J,A],[("fieldFrameIndexByName","jscandec.go"),("tag parsing","append_type_stack.go reflect.Struct")],OBS)
p("C13","Unknown fields are skipped without effect or reported",
 "Inserting members with unknown names and arbitrary values anywhere into the objects decoded into structs does not change the outcome of decoding; with DisallowUnknownFields the same input is rejected with ErrUnknownField at the offset of the first unknown key, and input without unknown keys is unaffected by the option.",
 ["inputs","programs","configurations"],"all struct-containing types (including empty structs and recursive ones), all positions and values of unknown members",
 "tests have few unknown members with simple values",
 [J],[("skip loop over tokens","jscandec.go SCAN_KEYVALS")],OBS)
p("C14","Maps receive exactly the document's entries",
 "Decoding an object into a map stores exactly one entry per distinct decoded key, the last occurrence winning with a value built from scratch, adds to an existing map, and leaves every entry retrievable by ordinary lookup, for string, named string, every integer and text-unmarshaler key kind and every supported value type of any size.",
 ["inputs","programs"],"all map types and objects incl. duplicate keys, keys equal after unescaping, integer keys at the range limits, large maps that grow repeatedly",
 "tests use small maps with few key kinds and value types",
 [J,A],[("mapassign / mapassign_faststr via linkname","jscandec.go TokenTypeKey")],OBS)
p("C15","Recursive types decode correctly at any depth",
 "Struct types that contain themselves through pointers, slices or maps - directly, mutually, through nested containers, next to siblings of the same type - decode every finite document of any depth and branching (including null and empty containers at any level) to the same value as encoding/json, and errors inside recursion are reported the same way as outside.",
 ["inputs","programs","histories"],"all recursive struct type shapes, all documents; also decoder reuse after success or failure at any recursion depth",
 "tests contain three recursive shapes with a few documents",
 [J,A],[("recursion stack push/pop","jscandec.go ON_RECUR_OBJ_END, ExpectType*Recur")],OBS)
p("C16","Unmarshaler callbacks get the right bytes, in order, once",
 "For every value position whose type (or pointer to it) implements json.Unmarshaler or encoding.TextUnmarshaler, the method is called exactly once per occurrence, in document order, on the destination's own storage, with the exact raw JSON text of the value, respectively the unescaped text of the string, under the same null and pointer rules as encoding/json; the first error a callback returns is returned unchanged with the offset of its value.",
 ["inputs","programs"],"all types containing unmarshalers of any kind (struct, scalar, slice, map, pointer receivers, value receivers) in any context including map keys, all documents",
 "tests use a couple of unmarshaler types at the root, in structs and maps",
 [J,A],[("ON_JSON_UNMARSHALER, ExpectTypeTextUnmarshaler","jscandec.go"),("determine*UnmarshalerSupport","jscandec.go")],OBS+["calls recorded by the unmarshalers"])
p("C17","The `string` tag option decodes quoted scalars like encoding/json",
 "A struct field of bool, integer, float or string type with the `string` tag option (in any position of the tag's option list) accepts exactly a JSON string whose content is a complete JSON literal of that type (or null), yields that literal's value, and rejects unquoted values, trailing or missing content and out-of-range values.",
 ["inputs","programs"],"all scalar field types, all quoted and unquoted contents whose verdict does not rest on non-JSON number syntax of strconv",
 "tests sample a few contents per type",
 [J,A,N],[("ExpectType*String cases","jscandec.go TokenTypeString"),("tag option parsing","append_type_stack.go")],OBS)
p("C18","Decoding never touches memory outside the destination",
 "Whatever the type, prior contents and document, decoding writes only to the destination variable and memory reachable from or newly allocated for it: neighbouring memory, spare slice capacity beyond the decoded length of other slices, and unrelated values stay intact, and everything the decoded value references stays alive and valid across garbage collection.",
 ["inputs","programs","histories"],"all supported types (sizes from zero to large), prefilled destinations, valid and rejected documents, under garbage-collection stress",
 "tests never place guards around destinations and rarely collect garbage; unsafe pointer arithmetic errors are type- and input-dependent",
 [J,A],[("unsafe.Pointer(uintptr(Dest)+Offset)","jscandec.go"),("newarray/mallocgc/typedslicecopy linknames","jscandec.go")],["guard words around the destination","decoded values after GC with freed memory clobbered"])
p("C19","Unmarshal, new and reused decoders agree for any tokenizer size",
 "Unmarshal, a Decoder over a freshly created tokenizer of any initial stack and buffer size, and DefaultOptions versus equal options give the same value and error for the same input and destination.",
 ["inputs","programs","configurations"],"all types, inputs and tokenizer preallocation sizes",
 "tests use fixed tokenizer sizes",
 [J],[("Unmarshal and NewDecoder construct decoders separately","jscandec.go")],OBS)
p("C20","Insignificant formatting does not influence the result",
 "Two documents that differ only in insignificant whitespace, or in the escaping used inside strings and keys, decode to equal values or are both rejected with the same kind of error at corresponding places; reordering members with distinct keys gives equal values or both documents are rejected.",
 ["inputs","programs"],"all supported types (for types capturing raw text: whitespace and escaping outside the captured text), all documents and all their reformattings",
 "tests list few formatting variants",
 [J,U],[("token boundaries from the tokenizer","jscandec.go Decode"),("unescape","internal/unescape/unescape.go")],OBS)
p("C21","Independent decoders can run concurrently",
 "Decoders that do not share a tokenizer, and concurrent Unmarshal calls, running in any number of goroutines over the same or different types, inputs (including shared input buffers) and shared option values, give the same results as when run one after another, without data races.",
 ["schedules","inputs"],"all interleavings of independent decoders (sampled), over generated types and documents, under the race detector",
 "no test decodes concurrently",
 [J],[("no mutable package state","jscandec.go package variables")],OBS+["race detector reports"])
p("C22","Type any receives the canonical dynamic value",
 "A JSON value decoded into any (at the root or nested in any container) becomes nil, bool, float64, string, []any or map[string]any exactly as with encoding/json at every nesting level, replacing any non-pointer value previously stored, whatever its dynamic type.",
 ["inputs","histories"],"all valid JSON documents; all contexts in which any can occur; any previous dynamic content",
 "tests sample few nested documents into zero any values",
 [J],[("decodeAny","jscandec.go"),("type of T determined from the static type","jscandec.go Unmarshal")],OBS)
p("C23","Unsupported destinations fail with an error, never a crash",
 "Creating a decoder for, or unmarshaling into, any type either works or returns an error: unsupported types at any depth (channels, functions, complex numbers, interfaces with methods, unsupported map keys, self-referential non-struct types) yield an error, a nil destination yields ErrNilDest, and with DisallowStringTagOptOnUnsupportedTypes a `string` option on a field type that cannot have it yields ErrStringTagOptionOnUnsupportedType while it is ignored otherwise.",
 ["programs","configurations"],"all destination types, supported or not, wrapped in any context, both init options",
 "tests cover one or two unsupported types",
 [A,J],[("default: unsupported type","append_type_stack.go"),("options.DisallowStringTagOptOnUnsupportedTypes","append_type_stack.go")],["error of NewDecoder / Unmarshal"])
p("C24","Slices and arrays get the right length and elements",
 "Decoding a JSON array of n elements into a slice yields length n with each element decoded at its index whatever capacity and content the slice had before (an empty array yields an empty non-nil slice), and into an array of length N fills min(n,N) elements in order, zeroes the remaining ones and ignores surplus elements, for every element type including zero-size ones and multi-dimensional nestings.",
 ["inputs","programs"],"all element types and nestings, all lengths relative to prior length, capacity and N, elements incl. null",
 "tests use short slices, zero destinations and few element types",
 [J,A],[("specialised slice decoders","jscandec.go ExpectTypeSlice*"),("offset advance and surplus skipping","jscandec.go ON_VAL_END")],OBS)
p("C25","Pointers and null follow encoding/json's rules",
 "A null decoded into a pointer, map, slice or any of any depth yields nil and into any other type leaves it unchanged, while a non-null value decoded through pointers of any depth allocates only missing pointees, reuses existing ones, and makes every distinct position refer to its own storage.",
 ["inputs","programs"],"all pointer nestings in all contexts (fields, elements, map values, recursive), null at any level, prefilled pointees",
 "tests use pointers at the root and a few fields",
 [J,A],[("ON_PTR","jscandec.go"),("TokenTypeNull","jscandec.go")],OBS+["pointer identity"])
p("C26","Malformed input leaves everything untouched",
 "When the input is not a syntactically valid JSON document, whatever the defect and wherever it is (including data behind a complete value), the destination and everything reachable from it are exactly what they were before the call, no unmarshaler has been called, and the error and its index are those the jscan tokenizer reports for the input.",
 ["inputs"],"all malformed byte strings, all supported types and prior destination contents, all options and both input kinds",
 "tests check the error of malformed samples, never the destination afterwards",
 [J],[("decoding in the tokenizer's callback, after all tokens are known","jscandec.go Decode d.tokenizer.Tokenize")],OBS+["calls of unmarshalers"])
p("C27","Decoders keep nothing alive after a decode",
 "Once a decode has returned, successfully, with an error or by a panic of an unmarshaler, the decoder and its tokenizer hold no reference to the destination, to any part of the decoded value or to the input, so that these can be garbage collected while the decoder lives on.",
 ["histories","inputs"],"all supported types (recursive ones in particular), all documents, all outcomes",
 "no test looks at reachability",
 [J],[("frame destinations reset in the deferred function","jscandec.go Decode"),("recursion stack entries cleared when popped","jscandec.go")],["garbage collection of tracked inputs and destinations"])
p("C28","Unmarshalers may panic, allocate and decode themselves",
 "A panic of an unmarshaler called during a decode propagates to the caller unchanged, and unmarshalers may collect garbage, grow the stack and decode other documents with other decoders; the calls made, the outcome, the decoded value and all later decodes with the same decoder or another one sharing its tokenizer are what they would have been otherwise.",
 ["histories","fault_sequences"],"all types with unmarshalers in any context, all documents, panics and nested decodes at any call",
 "the tests' unmarshalers only store their argument",
 [J],[("deferred cleanup of frames","jscandec.go Decode"),("calls of UnmarshalJSON and UnmarshalText","jscandec.go")],OBS+["recovered panic value","calls of unmarshalers"])
p("C29","String input is referenced, not copied",
 "When the input is a string, every decoded string value (of string types, in any, in elements, fields and map values) whose literal has no escape sequences refers to the memory of the input instead of a copy, as Decode documents.",
 ["inputs","programs"],"all destination types holding strings or any and all documents given as string",
 "tests compare only the contents of strings",
 [J],[("substrings of the input","jscandec.go Decode TokenTypeString")],["data pointers of the decoded strings"])
p("C30","Time and memory grow in proportion to the input",
 "The processor time a decode takes and the memory it allocates are bounded by a constant times the length of the input, however long any of its parts is (elements, members, unknown members, surplus elements, characters of strings and keys, escapes, digits, whitespace, levels of nesting), whether the document is accepted, rejected or malformed, and whatever the destination held before; no depth of nesting exhausts the goroutine stack.",
 ["inputs"],"all documents, sizes and supported types, both input kinds, new and reused decoders",
 "tests use documents of a few hundred bytes, for which any growth is unnoticeable",
 [J,A,U,N],[("growth of slices and maps","jscandec.go TokenTypeArray, TokenTypeObject"),("skipping by token index","jscandec.go tokens[ti].End"),("recursion stack","jscandec.go pushRecursion")],["thread processor time","allocated bytes"])
p("C31","A reused decoder needs no memory but for new values",
 "Once a decoder has decoded a document into a destination, decoding the document again with the same decoder into the same destination allocates no more than a constant number of objects, however many values the document holds, unless it holds values that need new memory by their nature (maps, any, unmarshalers, base64, strings of []byte input, escapes, nulls).",
 ["histories","inputs"],"all types without such values and all documents for them, accepted or rejected",
 "tests never measure allocations",
 [J],[("decoder, frames and recursion stack kept between decodes","jscandec.go Decoder"),("reuse of slices and pointees of the destination","jscandec.go TokenTypeArray, ON_PTR")],["number of allocated objects"])
p("C32","A failed decode has no effect behind the error and leaves a usable value",
 "When decoding a valid document fails, everything behind the reported value or key is without effect: replacing it (with as many elements and members of the containers that enclose the error) changes neither error, index nor destination, and struct fields and map entries that no key up to the error selects and elements behind the one with the error keep what they held; and the destination remains a valid value: decoding a valid document into it afterwards gives exactly what encoding/json gives for a destination of that state.",
 ["inputs","programs","histories"],"all supported types, zero and previously filled destinations, all valid documents with a value or key the destination cannot accept, all options, any valid document decoded afterwards",
 "tests do not look at destinations after errors",
 [J],[("slices and maps allocated before their elements are decoded","jscandec.go Decode"),("return true on error","jscandec.go Decode")],["the destination after an error","outcome of a later decode into it"])
p("C33","What encoding/json writes is read back",
 "For every value of a supported type that encoding/json writes and reads back itself, decoding the text encoding/json writes for it (compact, indented, with or without HTML escaping) succeeds and yields a value for which encoding/json writes the same text, equal to what encoding/json decodes.",
 ["inputs","programs"],"all supported types encoding/json can marshal and all their values (numbers of full range and precision, all well-formed text, nil and empty containers)",
 "tests decode literal documents; round trips of arbitrary values of arbitrary types are not sampled",
 [J,U],[("Unmarshal as a drop-in replacement","jscandec.go Unmarshal")],OBS)
p("C34","Everything holds on 32-bit platforms too",
 "On platforms where int, uint and pointers have 32 bits the decoder keeps the same promises as on 64-bit ones: it accepts, rejects and decodes what encoding/json does on that platform (integers for int and uint, also quoted ones and map keys, beyond 32 bits are rejected and never wrap around), reports the same kinds of errors at the same places, places every value where it belongs and touches no other memory.",
 ["inputs","programs","histories"],"all supported types, documents, options and histories of the other properties, on a 32-bit platform (linux/386)",
 "the tests are only ever run on a 64-bit platform, the code for others is never executed",
 [J,A,I,U,N],[("parsers for int and uint of 32 bits","jscandec.go init"),("sizes and offsets of frames","append_type_stack.go appendTypeToStack"),("integer map keys","jscandec.go TokenTypeKey")],OBS)
p("C35","Decoded values own their memory",
 "The memory that decoded values refer to (pointees, maps, and slices up to their capacity) is disjoint: no two positions of a decoded value, no two values decoded into separate destinations (by the same decoder, different ones or Unmarshal) and no value and its []byte input share any. So whatever the caller does to one decoded value, including appending to its slices, is without effect on the others, on the input and on all later decodes.",
 ["histories","inputs"],"all supported types, all documents, any sequence of decodes and of changes the caller makes to decoded values",
 "tests never change a decoded value and look at others",
 [J],[("allocation of slices, maps and pointees","jscandec.go newarray, mallocgc, makemap"),("shared address of empty slices and structs","jscandec.go emptyStructAddr"),("decodeAny","jscandec.go decodeAny")],["addresses and capacities of decoded pointers, maps and slices","other decoded values after one is overwritten","outcome of later decodes"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
