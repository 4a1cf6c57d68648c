import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Interrupted writing leaves an exact prefix and reports the failure",
"Whatever value is written, in compact, indented or custom-indented style or through formatting, and at whatever point the destination refuses text, accepts only part of it or panics, the text it has accepted is exactly the beginning of that value's JSON text in the requested layout. The destination's failure reaches the caller, and after it nothing more is offered to the destination. The value itself is unchanged, and writing it again to a healthy destination delivers the complete text.",
["inputs","fault_sequences","histories"],
"every value (parsed, built or edited), every output style, every failing, short-writing or panicking call of the destination, every retry",
"The tests only ever write into a growing String, which cannot fail: no write error, short write or panic has ever been seen by the writer code.",
["src/value.rs","src/string.rs"],
[("every write's result is propagated with ?","src/value.rs WriteState::write/write_json/new_line/begin_*/end_*"),("indentation is a function of nesting level and line start","src/value.rs WriteState"),("escaping is streamed character by character","src/string.rs impl Display for AsJson")],
["Value::write_json_to","Value::pretty_write_json_to","Value::pretty_write_json_to_custom","Display for Value","Display for JsonString / Decoded / AsJson","a simulated fmt::Write destination"],
[("level / is_at_line_start","where the writer is in the layout","src/value.rs WriteState")])

p("C02","Full or failing node storage stops a document parse cleanly",
"Parsing a document into caller-supplied node storage that refuses or panics on any one insertion ends with exactly the storage's own reason, inserts nothing further, and neither succeeds nor fails for another reason. If the storage never refuses, the outcome is the same for every kind of storage, and on success it holds exactly the payload's values in document order with exact element counts. A payload therefore parses into bounded storage exactly when its number of nodes fits.",
["inputs","fault_sequences","configurations"],
"every payload and configuration, every storage capacity, every insertion at which the storage refuses (with any reason, permanently or once) or panics",
"One example overflows one heapless vector of capacity 3; all other tests use a Vec that never refuses, so no other failing position, reason or capacity is reached.",
["src/doc.rs","src/error.rs","src/parser.rs"],
[("push errors are returned through every delegate callback","src/doc.rs Nodes::push_node and ParseDelegate for &mut Nodes"),("storage reasons are unwrapped, parse reasons kept","src/error.rs into_infallable"),("container lengths are updated in place","src/doc.rs extend_object/extend_array")],
["GenericDocument::from_json*","NodeCollection::push of a simulated storage","HeaplessDocument","DocumentIter"],
[("collection","flat list of nodes, container length patched as children arrive","src/doc.rs Nodes")])

p("C03","Event consumers see a well-formed stream that stops at the first failure",
"An event consumer driven by the parser receives, in document order, one well-nested and complete series of events describing exactly the payload, and every item it hands to the parser comes back to it exactly once and in the right container, or is released. As soon as the consumer fails at any event, or the payload turns out to be malformed or nested beyond the configured limit, no further event is delivered and the caller gets exactly that failure; containers beyond the limit are never announced. If the consumer panics, everything it had handed over is released exactly once.",
["inputs","fault_sequences","histories","configurations"],
"every payload, every parse configuration, every event at which the consumer fails, stops or panics",
"The delegate test injects thirteen errors into one fixed payload and only checks the kind of the returned error: not what was delivered before or after it, nor other payloads, depths, panics or positions.",
["src/parser.rs"],
[("each callback's error is returned immediately","src/parser.rs read_tokens/read_object/read_array"),("depth budget taken at container start and given back at its end","src/parser.rs ParseState::begin_nest/end_nest"),("keys and values are moved through the parser","src/parser.rs ParseDelegate")],
["ParseDelegate callbacks of a simulated consumer","result of Parser::parse_json*"],
[("remaining_depth","containers that may still be opened","src/parser.rs ParseState")])

p("C04","Damaged payloads are judged by the JSON grammar, alike at every entry point",
"A payload that was torn, truncated, corrupted, duplicated, reordered or spliced in storage or transit is accepted if and only if the bytes that arrived are valid under the JSON grammar (RFC 8259, valid UTF-8 text, paired surrogates) and the chosen configuration, and then every accepted value is exactly what those bytes say. All ways of reading it - as text or bytes, into a value, a document, bounded storage or mere validation - agree on the verdict, the content, the reason and the position. A refusal never panics, points inside the payload and not before the token in which the damage begins (for a payload cut short, at its end), and gives a reason that is true of the first thing wrong there.",
["inputs","fault_sequences","configurations"],
"every intact payload, every sequence of storage or transport faults applied to it, every configuration, every reading entry point",
"The suites check a fixed list of about 350 hand-made files, mostly through one entry point and for accept/reject only; what arbitrary damage at an arbitrary byte does, and whether the entry points agree on it, is never examined.",
["src/parser.rs","src/string.rs","src/doc.rs","src/value.rs","src/error.rs"],
[("byte-level scanning with explicit UTF-8 verification","src/parser.rs read_string_from_source"),("escape and surrogate validation","src/parser.rs read_string_escape; src/string.rs merge_surrogate_pair"),("number grammar","src/parser.rs read_number_from_source"),("comma and nesting rules","src/parser.rs read_object/read_array"),("trailing data check","src/parser.rs parse_bytes")],
["Value::from_json*","Document::from_json*","HeaplessDocument::from_json*","Parser::validate_json*","Error::kind/offset","JsonString::from_json","JsonNumber::from_json"])

p("C05","Checkpointed documents survive crashes; torn checkpoints are refused",
"A document edited through the value API, written out completely in any style (whose indentation and line ends are JSON whitespace) and read back in any way after a crash equals the document as it was when it was written: same members and order, duplicates included, same text, same number literals. A partially written object or array is never accepted as a complete one, whatever byte it was torn at and whatever the style. Between checkpoints every lookup, typed read, conversion of a number and edit has exactly its documented effect or answer and no other.",
["histories","crash_points","inputs","fault_sequences"],
"every history of edits, lookups, checkpoints and hand-overs between nodes; every crash point and every torn length; every writing style and reading entry point",
"Round trips are tested for two dozen fixed files and three fixed edits; no edit history, no torn output and no text built from arbitrary Rust strings is ever written and read back.",
["src/value.rs","src/string.rs","src/parser.rs","src/doc.rs"],
[("raw strings are escaped while being written","src/string.rs AsJson"),("source text of parsed strings and numbers is kept","src/string.rs StringContents::Json; src/number.rs"),("containers are closed last","src/value.rs write_json_object/write_json_array"),("first match lookup","src/value.rs Object::get/get_entry_mut")],
["Value::get/get_mut/get_index/Index/IndexMut/as_*","Object and Vec methods","to_json*, write_json_to","Value/Document readers"])

p("C06","Operations in flight do not influence one another",
"Any number of parses, writes, token readers, text streams, comparisons and document readers may be in progress at once - on different threads, nested inside each other's callbacks, sharing the same inputs, values and documents, some of them failing, panicking or abandoned midway. However their steps interleave, each one has exactly the outcome it would have had alone. No operation that ended, in whatever way, leaves a trace in a later one.",
["schedules","histories","fault_sequences"],
"every interleaving of the steps of concurrent and nested operations, every point at which some are cancelled, fail or panic",
"Every test runs one operation from start to end; nothing is ever interleaved, nested, shared or abandoned.",
["src/parser.rs","src/value.rs","src/doc.rs","src/string.rs"],
[("all state is per call","src/parser.rs ParseState, Tokenizer; src/value.rs WriteState"),("shared data has no interior mutability","src/value.rs, src/doc.rs, src/string.rs")],
["results of all operations run as simulated tasks"],None,
"none: consumer, storage, destination, hasher and allocator callbacks are the seams")

p("C07","Running out of memory is survived or avoided",
"With no heap memory available at all, validating, tokenizing, parsing into bounded storage, reading a single string or number, comparing, hashing and looking up, streaming text decoded or encoded, and writing to a caller's own destination all still work. Where a parse or conversion does need memory and an allocation fails, it releases everything it had taken, leaves its inputs as they were, and the same call succeeds once memory is available again. Parsed strings and numbers refer to the caller's input instead of copying it.",
["inputs","fault_sequences"],
"every input and operation, every allocation that fails, every sequence of failing attempts before memory returns",
"No test controls the allocator, so neither the absence of allocations nor what happens when one fails is ever observed.",
["src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs"],
[("borrowed strings and numbers","src/anystr.rs AnyStr::Borrowed"),("lazy decode/encode iterators","src/string.rs Decoded, AsJson"),("bounded node storage","src/doc.rs HeaplessDocument")],
["a simulated global allocator","results and addresses of returned strings"])

p("C08","The same text is one key, however it is encoded or delivered",
"A text delivered repeatedly and in different encodings - raw, borrowed or owned, or as JSON with any mix of escapes - is one and the same string to every table that uses it as a key: equality and ordering agree with those of the decoded text, against other JSON strings and against plain text, and equal strings hash alike with any hasher (with hashers of byte streams, such as the standard one, exactly like their decoded text). Hash tables, ordered tables and object lookup therefore hold and find exactly one entry per distinct text. This still holds after the table has been written out, lost in a crash and rebuilt.",
["histories","inputs","fault_sequences","configurations"],
"every set of texts and encodings, every delivery history with duplication, reordering, re-encoding and crash/rebuild, every hasher",
"The tests compare a dozen fixed pairs and hash two of them with one hasher; no table, no second hasher, no delivery history and few mixed encodings are reached.",
["src/string.rs","src/value.rs","src/parser.rs","src/anystr.rs"],
[("comparison decodes on the fly, after a check of decoded lengths","src/string.rs PartialEq/PartialOrd/Ord"),("hash is fed in representation-independent chunks","src/string.rs Hash"),("decoded length and escape flag tracked while scanning","src/parser.rs read_string_from_source; src/string.rs From<&str>")],
["==, partial_cmp, cmp, Hash of JsonString","HashMap, BTreeMap, Object::get"],
[("JsonStringInfo","decoded (or encoded) length and whether escapes occur","src/string.rs")])

p("C09","A token reader recovers from damage with bounded progress",
"Reading tokens from any input, damaged or not, the reader yields exactly the tokens the text contains up to the first malformed token, reports an error there, and can then be read on: each step consumes input, so it ends after at most as many steps as there are bytes, and every token it yields, also after errors, is well formed. Looking ahead never consumes anything or changes what is read, and names the kind of the token that follows. The reported position only moves forward and stays within the input.",
["inputs","histories","schedules","fault_sequences"],
"every damaged or intact input, every interleaving of look-ahead, reading and position queries, several readers on the same input",
"Two one-token inputs and one fixed look-ahead sequence are tested; nothing is ever read on after an error.",
["src/parser.rs"],
[("each read consumes at least one byte","src/parser.rs ByteIterator::next, Tokenizer::read_peek"),("peek only skips whitespace","src/parser.rs Tokenizer::peek")],
["Tokenizer::next/next_or_eof/peek/offset","JsonString and JsonNumber of the tokens"],
[("offset","bytes consumed","src/parser.rs ByteIterator")])

p("C10","Readers sharing a document each see all of it, in order, exactly once",
"Any number of readers walking the same document, duplicated at any point and advanced in any order by single nodes, by whole values or by skipping values, each see exactly the nodes of the document in order, without loss or repetition. Reading or skipping a value moves past that value and all it contains and no further, and the value read equals that part of the payload. A reader that is paused, copied or abandoned does not affect another, and at the end each reader reports the end without failing.",
["histories","schedules","inputs"],
"every document, every schedule of stepping, reading, skipping, copying and abandoning any number of readers, every storage type",
"Two fixed walks over two tiny documents are tested, by one reader each.",
["src/doc.rs"],
[("values are rebuilt from element counts","src/doc.rs hydrate_value_from_node"),("skipping recurses by element counts","src/doc.rs DocumentIter::skip_next_value")],
["DocumentIter::next/next_value/skip_next_value/clone","Value::from(document)"],
[("nodes","position in the shared flat list","src/doc.rs DocumentIter")])

p("C11","Interrupted text streams resume without loss, repetition or corruption",
"Streaming a string as decoded text or as JSON text yields, for every string and however it was obtained, exactly the text it stands for or a valid encoding of it (the original one if it was parsed), with the announced lengths. If the consumer stops, fails or crashes at any character and resumes from a copy of the stream taken earlier, or prints the rest from there, what it has received in total is exactly that text once. Size estimates never exclude the true number of characters left.",
["inputs","histories","crash_points","fault_sequences"],
"every string and representation, every interleaving of reading, copying, printing into failing destinations, crashing and resuming",
"The tests collect a handful of short strings from start to end; no stream is copied, interrupted, resumed or printed midway, and only one control character is encoded.",
["src/string.rs"],
[("stream position and pending escape are part of the cloned iterator","src/string.rs Decoded, AsJson, EscapeState"),("escape tables and surrogate arithmetic","src/string.rs")],
["JsonString::decoded/as_json/len/decoded_len/decode_if_needed/escape_if_needed/as_str/as_json_str","Iterator, Clone, Display of the streams"],
[("state","pending characters of an escape sequence","src/string.rs AsJson")])

p("C12","Hostile payloads cannot exhaust the stack or the heap",
"Whatever the size and shape of a payload - nested far beyond the limit, extremely wide, or one huge token, well formed, cut or damaged - reading it, walking, comparing, writing, converting and releasing what was read work within an amount of stack that depends only on how deeply containers are nested within the configured limit, never on the payload's size. A payload nested too deeply is refused before it can use more. The heap memory in use at any moment while reading is at most a fixed multiple of the payload's size. With the limit switched off, stack use is still at most proportional to the nesting.",
["inputs","configurations","fault_sequences"],
"every payload size, shape and damage, every nesting limit, every operation on what was read, under a stack and a heap budget",
"One file with 100,000 opening brackets is parsed with the default limit; neither stack nor heap use is ever measured or limited, and nothing wide, mixed or huge is read, walked, converted or released.",
["src/parser.rs","src/value.rs","src/doc.rs","src/string.rs"],
[("depth budget taken before a container is entered","src/parser.rs ParseState::begin_nest"),("elements are read in loops, containers by recursion","src/parser.rs read_object/read_array; src/doc.rs hydrate_value_from_node, skip_next_value; src/value.rs writer"),("no reservation ahead of need","src/value.rs ParseDelegate for ValueParser; src/doc.rs Nodes")],
["stack high-water mark of each operation","bytes held from a budgeted global allocator","verdict of each operation"],
[("remaining_depth","containers that may still be opened","src/parser.rs ParseState")])

p("C13","Every operation ends, and its work is proportional to the text involved",
"Whatever the size, shape or damage of a payload, every operation comes to an end: reading it into any target, reading tokens, walking or skipping parts of a document, comparing, hashing, looking up, decoding, encoding, writing, converting and releasing what was read. The number of steps it takes is at most proportional to the text that goes in, is looked at and comes out; in particular no operation starts over for each element, character or level. This also holds when the payload is malformed, the consumer or destination fails, or containers are nested up to the limit.",
["inputs","configurations","fault_sequences"],
"every payload size, shape and damage, every nesting limit, every operation on what was read, under a budget of steps of a simulated clock",
"All payloads in the tests but one are a few bytes long, where linear and quadratic work cannot be told apart, and no test has a time limit.",
["src/parser.rs","src/value.rs","src/doc.rs","src/string.rs"],
[("each byte is read once","src/parser.rs ByteIterator, Tokenizer::read_peek"),("each node is visited once","src/doc.rs hydrate_value_from_node, skip_next_value"),("strings are compared, hashed and measured in one pass","src/string.rs")],
["ticks of a simulated clock (one per basic block of the library) taken by each operation","the end of each operation"],
[("offset","bytes consumed","src/parser.rs ByteIterator")])

p("N01","Numbers convert to native types exactly when they are representable",
"A number converts to an integer type exactly when its literal is an integer within that type's range, and to a floating-point type as the nearest representable value. Numbers written with a fraction or exponent never convert to integer types. The literal itself is kept verbatim.",
["inputs"],"every number literal and every native type","Only the literals 0 and 1 are converted.",
["src/number.rs","src/value.rs"],[("delegation to FromStr of the native type","src/number.rs JsonNumber::parse")],["JsonNumber::as_*","Value::as_*"])
p("N02","Parse configuration presets and setters mean what they say",
"Each configuration preset has the documented settings, and each setter changes only the setting it names. Settings can be combined in any order with the same result.",
["configurations"],"every sequence of setters","One combination of all setters is compared once.",
["src/parser.rs"],[("const builder functions","src/parser.rs ParseConfig")],["ParseConfig fields"])
p("N03","Error messages name the failure and its position",
"The printed form of an error contains its position and a description that is different for each kind of failure. Errors from consumers are included in the message.",
["inputs"],"every kind of error","The test only checks that printing does not panic.",
["src/error.rs"],[("Display for ErrorKind and Error","src/error.rs")],["Display of Error"])
p("N04","Typed accessors return data only for the matching type",
"Each accessor of a value returns its content exactly when the value has that type and nothing otherwise. Indexing panics exactly when the documentation says so. Conversions into a value create the matching type.",
["inputs"],"every value and accessor","Each accessor is tried on one or two values.",
["src/value.rs"],[("pattern matching accessors","src/value.rs Value::as_*")],["Value::as_*","Index/IndexMut"])
p("N05","The library builds without std or alloc and exposes what is promised there",
"With any combination of the documented features the library compiles, also for targets without a standard library or an allocator. What each combination promises to offer is available.",
["configurations"],"every feature combination and target","The host build checks four feature combinations, and only that they compile on the host.",
["src/lib.rs","Cargo.toml"],[("cfg(feature) gates","src/*.rs")],["cargo check"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
