import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Forwarding layers deliver every event once, in order, unchanged",
"Streaming any value through any stack of forwarding layers (references, mutable references, Box, sval_dynamic's erased Value/Stream, sval_ref's Ref and ValueRef adapters, and recursion through Stream::value / Stream::value_computed at any depth) hands the consumer exactly the event sequence the value produces when streamed directly: same calls, same order, same data, tags, labels, indexes and size hints, none lost, added or duplicated. If the consumer or the value fails part way, what the consumer saw is exactly a prefix of that sequence.",
["inputs","programs","schedules","fault_sequences"],"every value of the data model, every way its parts are delivered (inline, by value, computed, boxed, erased), every layer stack, every failure point",
"There are ~45 forwarded methods times many layers, and a test only samples a few values at one delivery; a single mis-forwarded method shows only for a particular construct at a particular depth through a particular layer.",
["src/stream.rs","src/value.rs","src/data/option.rs","dynamic/src/stream.rs","dynamic/src/value.rs","ref/src/lib.rs","ref/src/seq.rs"],
[("impl_stream_forward / Computed","src/stream.rs"),("impl_value_forward","src/value.rs"),("erased dispatch","dynamic/src/stream.rs"),("ValueRef::stream_ref","ref/src/lib.rs")],"calls received by the final sval::Stream")

p("C02","Consumers of the basic data model see an equivalent of any richer value",
"A consumer that implements only the required Stream methods (plus any subset of the optional ones) receives, for any value, the documented lowering of the richer constructs it leaves out: integers widen without changing value (and become NUMBER-tagged decimal text beyond i64), floats widen exactly, maps become sequences of two-element tuples, records become maps keyed by label, tuples become sequences, binary becomes a sequence of bytes, record-tuples become records, enums become tagged values, tags become their label, or null when they have none or are Option::None. The lowered stream is itself well formed, loses no element, and on a failure at any call is cut to a prefix with the error reported.",
["inputs","configurations","fault_sequences"],"every value, every subset of optional methods a consumer implements, every failure point",
"The lowering of a construct composes with every other one and with the subset of methods a consumer overrides; unit tests exercise a few fixed consumers.",
["src/stream.rs","src/data/number.rs","src/data/binary.rs"],
[("default_stream","src/stream.rs"),("stream_u128 / stream_i128","src/data/number.rs")],"calls received by a partial sval::Stream implementation")

p("C03","A buffered value replays exactly what was captured",
"For every value and delivery schedule, sval_buffer::ValueBuf and sval_buffer::Value (collected, collected owned, cloned, made owned with to_owned/into_owned, or nested inside another buffer) replay a stream with the same structure and data as streaming the original directly, text and binary being compared by content; into_owned/collect_owned results do not depend on the source's memory. A capture that fails part way reports an error instead of a value, and after clear() the buffer captures the next value with nothing left over from the failed one.",
["inputs","schedules","fault_sequences","histories"],"every value, every fragment and borrow schedule, every failure point, every history of capture / fail / clear / recapture",
"The buffer keeps an index stack over a flat list of parts; errors show only for particular nestings, fragment boundaries or leftover state from an interrupted capture.",
["buffer/src/value.rs","buffer/src/fragments.rs","src/data.rs"],
[("ValueBuf stream impl","buffer/src/value.rs"),("into_owned / reborrow","buffer/src/value.rs")],"events of the replayed value; Result of collect",
[("parts/stack/is_in_text_or_binary","flat capture and open containers","buffer/src/value.rs")])

p("C04","Text and binary are reassembled exactly from any fragment schedule",
"However text or binary content is split into fragments, and whichever fragments are borrowed or computed, sval_buffer's TextBuf and BinaryBuf (pushed to or collected from a value) and Value::to_text/to_binary yield exactly the concatenation of the fragments in order or report that they can't: never a truncated, reordered, duplicated or stale result. Values that aren't text/binary (BinaryBuf also accepts sequences of bytes) are rejected with an error, and clear() after any history leaves an empty, reusable buffer.",
["inputs","schedules","fault_sequences","histories"],"every fragmentation, every borrowed/computed mix, every failure point, every history of pushes and clears",
"The number of fragmentations times borrow choices is unbounded and the borrowed-to-owned transition depends on the history of the buffer.",
["buffer/src/fragments.rs","buffer/src/lib.rs","src/value.rs","src/data/text.rs","src/data/binary.rs"],
[("FragmentBuf::push","buffer/src/fragments.rs"),("TextBuf::collect / BinaryBuf::collect","buffer/src/fragments.rs"),("Extract","src/value.rs")],"as_str / as_slice / Option and Result of conversions")

p("C05","JSON output is well formed and means the value, for every schedule",
"For every value, sval_json either fails with an error or writes one well-formed JSON document that decodes to the value in serde-compatible form: text and labels decode to the same characters, numbers to the same value (non-finite numbers and Option::None to null), sequences and tuples to arrays in order, maps and records to objects with their keys in order, unit variants to their label and other variants to a one-entry object. Text tagged as already being JSON is embedded as is. It fails only for a map key that is not a scalar; and fragmentation of text, borrowed versus computed delivery, recursion through value(), size hints and tag hints never change the document.",
["inputs","schedules"],"every value of the data model and every delivery schedule of it, over every JSON entry point (fmt writer, io writer, String, Vec, JsonStr, ToJson-style adapters)",
"The writer is a small state machine (quoting, emptiness, enum tagging, number handling) whose flags leak between siblings only for particular nestings of keys, tags, enums and numbers split across fragments.",
["json/src/to_fmt.rs","json/src/to_string.rs","json/src/to_vec.rs","json/src/value.rs","json/src/tags.rs"],
[("Formatter state machine","json/src/to_fmt.rs"),("NumberTextHandler","json/src/to_fmt.rs"),("escape_str","json/src/to_fmt.rs")],"bytes written, decoded by an independent strict JSON reader",
[("is_internally_tagged/is_current_depth_empty/is_text_quoted/text_handler","writer state carried between calls","json/src/to_fmt.rs")])

p("C06","JSON writers lose nothing under I/O faults: all bytes or an error",
"When sval_json writes to an io::Write or fmt::Write that makes short writes, is interrupted, stops accepting bytes (Ok(0)) or fails at any byte, the bytes accepted by the writer are always exactly a prefix of the fault-free document, in order and without duplication. Ok is returned only if the whole document was accepted; otherwise an error is returned (carrying the writer's own io::Error when it reported one), nothing more is written after the failure, and interrupted or short writes alone never cause a failure.",
["inputs","fault_sequences","crash_points"],"every document and every sequence of short writes, EINTR, zero-length writes and hard errors at any byte offset",
"Tests use writers that accept everything; a partial-write bug needs a fault at one particular call.",
["json/src/to_io.rs","json/src/to_fmt.rs","json/src/error.rs"],
[("IoToFmt::write_str retry loop","json/src/to_io.rs"),("error conversion","json/src/to_fmt.rs")],"bytes accepted by the simulated writer; Result and its error kind")

p("C07","A consumer's error stops the stream at once and reaches the caller",
"When a consumer's method returns an error at any call, every value (primitive, standard-library, derived, flattened, buffered, erased, bridged from serde) and every layer in between stops: streaming returns an error to the original caller and no further method is called on the failed consumer. This holds at every possible call, for every value and every layer stack.",
["inputs","programs","fault_sequences"],"every value, every layer, every failing call index",
"A swallowed Result is invisible until the one call it guards fails; tests use consumers that never fail.",
["src/stream.rs","src/value.rs","src/data","buffer/src/value.rs","flatten/src/flattener.rs","serde/src/to_value.rs","derive_macros/src/stream","dynamic/src/stream.rs","json/src/to_fmt.rs","fmt/src/writer.rs"],
[("? propagation after every stream call","src/data, derive_macros/src/stream"),("Flattener dispatch","flatten/src/flattener.rs")],"Result returned to the top-level caller; calls after the first error")

p("C08","A value that fails part way is reported as failed by every consumer",
"When a value's own stream implementation returns an error at any point, including before its first event and after its last one, every consumer entry point (sval_json's, sval_fmt's, sval_buffer's collect functions, TextBuf/BinaryBuf::collect, sval_nested, sval_serde's serializer bridge, sval_flatten, sval_ref and sval_dynamic adapters) reports an error: it never panics and never returns a value as if it had been complete.",
["inputs","fault_sequences","crash_points"],"every value, every failure point, every consumer entry point",
"Tests stream values that succeed; an incomplete value accepted as complete only shows when the failure falls at a particular point.",
["json/src/to_fmt.rs","fmt/src/to_fmt.rs","fmt/src/to_write.rs","buffer/src/fragments.rs","buffer/src/value.rs","nested/src/lib.rs","nested/src/flat.rs","serde/src/to_serialize.rs","flatten/src/lib.rs"],
[("collect error handling","buffer/src/fragments.rs"),("FlatStream::finish","nested/src/flat.rs")],"Result of each entry point")

p("C09","Borrowed data is never conjured from short-lived data, nor needlessly copied",
"Any text or binary fragment a consumer receives as borrowed for 'sval points into memory the value really owns for that long: fragments delivered as computed, or anywhere beneath value_computed, never reach a consumer as borrowed, and everything a buffer, extractor or adapter keeps is still intact after the short-lived source is overwritten. Conversely forwarding layers (references, Box, erased streams, refs, single-fragment buffers) keep borrowed data borrowed, at the same address.",
["inputs","schedules","programs"],"every value, every mix of borrowed and computed delivery, every layer stack",
"The unsafe casts and lifetime-erasing adapters are correct only if each forwards to the right method; content comparison alone cannot tell and the memory reuse that exposes it is timing dependent in real programs.",
["src/stream.rs","src/data.rs","src/value.rs","ref/src/lib.rs","buffer/src/fragments.rs","buffer/src/value.rs","dynamic/src/stream.rs","nested/src/flat.rs","json/src/value.rs"],
[("Computed","src/stream.rs"),("FragmentBuf Cow transition","buffer/src/fragments.rs")],"address and lifetime class of fragments at the consumer; retained contents after the source is scribbled over")

p("C10","Formatting writes the same text for every schedule, and a prefix on failure",
"sval_fmt renders any value to one text determined by the value alone: fragmentation, borrowed versus computed delivery, recursion and hints never change it, every element, field label, tag, text and binary content appears once in order and every opening delimiter is closed; token callbacks of a TokenWrite concatenate to the same text. If the underlying fmt::Write or the value fails at any point, an error is returned (ToFmt's Display and Debug and stream_to_string mark a value's failure in the text as `<...>` instead) and what was written before is a prefix of the fault-free text.",
["inputs","schedules","fault_sequences"],"every value, every delivery schedule, every write failure point",
"The writer carries separator and depth state across calls, which goes wrong only for particular nestings or fragment boundaries; failures need a faulty writer.",
["fmt/src/writer.rs","fmt/src/to_fmt.rs","fmt/src/to_write.rs","fmt/src/token_write.rs"],
[("Writer state machine","fmt/src/writer.rs")],"text accepted by the fmt::Write; sequence of TokenWrite calls")

p("C11","The nested view of a stream has the same structure and data",
"For every value within sval_nested's documented model, a recursive sval_nested::Stream receives the same tree the flat stream describes: same scalars, text and binary contents, tags, labels, indexes, element order and number of elements, and values it is handed whole stream back the same events (hints are dropped, and record tuples arrive as records). An error returned by the nested stream, or by the value, at any point ends in an error for the caller, without panicking and without further calls.",
["inputs","schedules","fault_sequences"],"every value, every fragment/borrow schedule, every failure point of either side",
"The flat-to-nested adapter re-buffers parts of the stream depending on nesting, borrow class and position; most combinations are untested.",
["nested/src/lib.rs","nested/src/flat.rs","nested/src/flat_enum.rs","nested/src/error.rs"],
[("FlatStream stack","nested/src/flat.rs"),("FlatStreamEnum queue","nested/src/flat_enum.rs"),("default_stream","nested/src/lib.rs")],"calls received by a recording sval_nested::Stream; Result of the stream function")

p("C12","sval values serialize through serde as the equivalent serde value, or fail",
"Serializing any sval value with sval_serde::ToSerialize either returns an error or drives the serde Serializer through one complete, well-formed sequence of calls equivalent to the value (scalars, options, sequences, maps, tuples, structs and enum variants with their names, indexes, lengths and contents in order). An error from the Serializer at any call, or from the value at any point, is reported to the caller as an error, never swallowed or turned into a panic or a truncated success.",
["inputs","schedules","fault_sequences"],"every value, every delivery schedule, every failing Serializer call or producer step",
"The bridge goes through sval_nested buffering; the mapping of each construct at each position and each error path is a product tests can only sample.",
["serde/src/to_serialize.rs","nested/src/lib.rs","nested/src/flat.rs"],
[("Serializer nested stream","serde/src/to_serialize.rs")],"call tree recorded by a simulated serde::Serializer; Result")

p("C13","serde values stream as the equivalent sval value, and survive the round trip",
"Streaming any serde::Serialize through sval_serde::ToValue yields one well-formed sval stream equivalent to the Serializer calls it makes (same scalars, names, variant indexes, field order and lengths), and serializing that sval value back through ToSerialize makes the same Serializer calls the original would. An error from the consumer at any call or from the Serialize implementation at any point is returned, with no further calls to the consumer.",
["inputs","fault_sequences"],"every sequence of Serializer calls, every failing call on either side",
"Twenty-nine serializer methods times their nesting and failure points.",
["serde/src/to_value.rs","serde/src/to_serialize.rs"],
[("Stream serializer","serde/src/to_value.rs")],"events at the sval consumer; calls at the serde Serializer; Result")

p("C14","Flattening splices every nested field in once, in order, and nothing else",
"Flattening any value onto a map, record, tuple, record-tuple or sequence adds each of its top-level entries exactly once and in order as an entry of the parent (keys, labels and indexes as documented, offsets continuing from the parent's, map keys stringified and concatenated onto records), while entries before and after it and everything nested below those entries stream unchanged and well formed; values that can't be flattened contribute nothing. The returned offset is the parent's new length (one past the last entry's index when that entry brought an explicit index of its own), and an error at any call stops the stream and is returned.",
["inputs","schedules","fault_sequences"],"every parent kind, every flattened value and position, every delivery schedule, every failure point",
"The flattener tracks depth, map-key and enum state across calls; deep nestings, complex keys and repeated flattening are untested.",
["flatten/src/flattener.rs","flatten/src/label.rs","flatten/src/index.rs","flatten/src/map.rs","flatten/src/record.rs","flatten/src/record_tuple.rs","flatten/src/seq.rs","flatten/src/tuple.rs","derive_macros/src/stream/stream_record_tuple.rs"],
[("Flattener","flatten/src/flattener.rs"),("IndexAllocator","flatten/src/index.rs"),("LabelBuf","flatten/src/label.rs")],"events of the enclosing value; returned offset",
[("depth/in_flattening_enum/in_flattening_map_key","where in the flattened value the stream is","flatten/src/flattener.rs")])

p("C15","Built-in and derived values emit well-formed streams that match their data",
"Every Value implementation the project provides (unit, booleans, numbers, chars, text, Display, options, slices, arrays, vectors, maps, map/binary wrappers, tuples, references, boxes, and #[derive(Value)] types with their attributes) emits one well-formed stream: every begin has a matching end with the same tag, label and index, every declared size equals the number of entries or bytes, and the contents are the data in order. Streaming the same value again, by value or computed, gives the same events, and its to_* conversions and tag() agree with what it streams: a conversion gives the very scalar or borrowed text that is streamed or nothing, and a scalar always converts to its own type, also for values that rely on the default conversions.",
["inputs","schedules","programs"],"every built-in type and derived shape, every field value, composed at any depth and streamed repeatedly",
"Tests check a handful of constants per type; agreement between conversions, hints and events must hold for all field values and compositions.",
["src/data","src/value.rs","derive_macros/src","ref/src"],
[("Value impls","src/data"),("derive expansion","derive_macros/src/stream"),("Value::to_* extractors","src/value.rs")],"events at a protocol-checking consumer; results of to_*/tag")

p("C16","Concurrent and re-entrant streams do not disturb one another",
"Any number of streams in progress at once, on different threads or re-entrantly on one thread from inside a consumer's or a value's callback, over shared or separate values, buffers and labels, each deliver exactly what they deliver when run alone, under every interleaving of their calls and regardless of another one failing part way.",
["schedules","histories","fault_sequences"],"every interleaving of the calls of concurrent pipelines, with failures in any of them",
"Interference through hidden shared state depends on the interleaving, which tests neither control nor vary.",
["src/stream.rs","src/data.rs","buffer/src/value.rs","buffer/src/fragments.rs","json/src/to_fmt.rs","json/src/to_io.rs","fmt/src/writer.rs","nested/src/flat.rs","flatten/src/flattener.rs","serde/src/to_serialize.rs","dynamic/src/value.rs"],
[("all per-stream state lives in the stream","json/src/to_fmt.rs, buffer/src/value.rs"),("Send + Sync values","buffer/src/value.rs, src/data.rs")],"per-pipeline results compared with the same pipeline run alone")

p("C17","Without an allocator, results are the same or an error, never truncated",
"Built without the alloc feature, sval, sval_ref, sval_buffer, sval_json, sval_fmt, sval_nested, sval_flatten and sval_serde give for every value and delivery schedule either the same result as the allocating build or an error: text and binary that would need joining or copying are refused, never truncated, reordered or replaced by stale content, and work that needs no buffering still succeeds.",
["inputs","configurations","schedules","fault_sequences"],"every value, every fragment/borrow schedule, in the allocation-free configuration",
"The no-alloc code is a separate set of cfg branches that the usual tests compile but hardly exercise.",
["buffer/src/fragments.rs","buffer/src/value.rs","buffer/src/error.rs","nested/src/flat.rs","flatten/src/label.rs","json/src/to_fmt.rs","fmt/src/writer.rs"],
[("cfg(not(feature = \"alloc\")) branches","buffer/src/fragments.rs, buffer/src/value.rs")],"results of the no-alloc build against the reference model")

p("C18","sval_test sees and judges exactly the calls a value makes",
"sval_test::TokenBuf records exactly one token per call a value makes, in order and with the call's data, for every value and delivery; assert_tokens accepts a value if and only if its tokens are the expected ones, and assert_valid / assert_invalid pass if and only if streaming the value succeeds / fails, wherever the failure falls.",
["inputs","schedules","fault_sequences"],"every value, every delivery schedule, every failure point, every single-token difference",
"The tool tests rely on is itself tested on a handful of fixed values; a token it drops or confuses makes every downstream test blind.",
["test/src/lib.rs"],[("TokenBuf Stream impl","test/src/lib.rs"),("assert_tokens / assert_valid / assert_invalid","test/src/lib.rs")],"TokenBuf::as_tokens; whether the assertion panics")

p("C19","The JSON reader streams the document it is given",
"For every JSON document made of what sval_experiments' JSON reader (from_slice, JsonSlice) supports (null, true, false, numbers, strings with the escapes \\n \\r \\\" \\\\, arrays, objects, and whitespace anywhere between tokens) streaming it yields one well-formed sval stream equivalent to the document: entries in order, strings decoded, numbers as JSON_NUMBER/NUMBER-tagged text with the document's digits, text borrowed from the document. Streaming the document again gives the same events, writing it back with sval_json gives the same document without its whitespace, a document cut between two tokens inside an array or object is an error, and an error of the consumer at any call stops the stream and is returned.",
["inputs","histories","fault_sequences"],"every supported document, every spacing, every consumer failure point, every cut between tokens",
"The reader is a resumable state machine whose position depends on the whole nesting read so far; its one test reads one flat document.",
["experiments/src/json/from_slice.rs"],[("JsonSliceReader::stream_resume, Stack","experiments/src/json/from_slice.rs")],"events received by the consumer, result of streaming")

p("N01","Scalars render to their exact decimal text",
"Each single integer or float rendered by sval_json, sval_fmt or label formatting is the exact (for floats, round-trip) decimal text of that scalar.",
["inputs"],"every scalar bit pattern",
"2^64 and more inputs per type.",
["json/src/to_fmt.rs","fmt/src/writer.rs","flatten/src/label.rs"],
[("itoa / ryu calls","json/src/to_fmt.rs, fmt/src/writer.rs")],"text of one scalar")

p("N02","Label, Tag and Index equality, ordering and hashing are coherent",
"For all labels, tags and indexes, equality is an equivalence, agrees with ordering and hashing, and ignores how the text is owned.",
["inputs"],"all pairs and triples of labels, tags and indexes",
"Algebraic laws over all pairs.",
["src/data.rs"],[("PartialEq/Ord/Hash impls","src/data.rs")],"results of comparison operators")

p("N03","Unsupported derive attributes are rejected at compile time",
"Every misplaced, duplicated or contradictory #[sval(...)] attribute is rejected with a compile error rather than ignored.",
["programs"],"every annotated type definition",
"The space of annotated programs is unbounded.",
["derive_macros/src/attr.rs"],[("attr::check","derive_macros/src/attr.rs")],"compiler diagnostics")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
