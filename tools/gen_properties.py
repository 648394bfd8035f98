import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=observe or ["public API results"],hook_needed=None)))
p("C01","Every supported value survives an encode/decode round trip",
 "For every supported type (built-in std types, collections, tuples, arrays, network types, Result, types declared with the retrofit macro) and every value of it, in every context (top level, struct field, collection element, optional, map key or value, enum variant body), encoding it and decoding the bytes as the same type yields an equal value. This holds for every encoding entry point combined with every decoding entry point and style (slice, reader, stream; copying, borrowing), whether unknown fields are ignored or rejected, as long as the decoding limits admit the value. Decoding consumes exactly the bytes the encoder produced, so values written back to back are read back one by one.",
 ["inputs","programs","configurations"],"all catalog types x all boundary-domain values x all contexts x all entry-point pairs x permissive/strict config",
 "The unit tests round-trip a handful of fixed values, most of them in one context and through to_vec/from_slice_copy only; the guarantee is about every type/context/entry-point combination.",
 ["src/ser.rs","src/de.rs","src/retrofit.rs","src/sugar.rs","src/adapt.rs"],
 [("Serialize body/field/element contexts","src/ser.rs"),("Deserialize accumulators and finish","src/de.rs"),("fourleaf_retrofit! generated impls","src/sugar.rs")])
p("C02","Encoded bytes are exactly those of the documented format",
 "The bytes produced for any value are exactly the ones the documented format prescribes for its type, value and context: descriptor bytes, minimal little-endian base-128 integers, ZigZag for signed types, length-prefixed blobs, flattening of collections in field context and wrapping in element context, declaration order, and struct terminators. Encoding is deterministic and does not depend on the entry point used. A type that only wraps or refers to another one (references, slices, boxes, reference-counted pointers, copy-on-write, copied adapter, a delegating struct) encodes and decodes just as the documentation relates it to the wrapped type.",
 ["inputs","programs"],"all catalog types x boundary-domain values x contexts, compared byte for byte with an independent encoder written from the documentation",
 "Tests pin the bytes of a few dozen literals; a change to any other type, arity, magnitude or context silently breaks compatibility with stored data while encoder and decoder still agree with each other.",
 ["src/ser.rs","src/wire.rs","src/stream.rs","src/retrofit.rs","src/lib.rs"],
 [("Serialize impls","src/ser.rs"),("encode_u64, encode_descriptor, zigzag","src/wire.rs"),("write_* methods","src/stream.rs")])
p("C03","The low-level parser agrees with the wire grammar on every byte string",
 "For every byte string, the element-by-element reader yields exactly the sequence of elements the documented wire grammar assigns to it (kind, tag, byte offset, nesting depth, integer value, enum discriminant, blob content, padding, exceptions, end of struct, end of document), and it reports an error exactly where the input stops being well formed. The field-level reader yields the same sequence with padding dropped, exceptions turned into errors carrying up to 256 bytes of message, and both end markers turned into end-of-struct. After either, the byte stream is positioned immediately after the last content read.",
 ["inputs"],"all byte strings up to a length bound over a structural byte alphabet, extended by token sequences, against a reference parser",
 "Tests parse a few hand-written streams; the quantifier is over all byte strings including malformed and oddly nested ones.",
 ["src/stream.rs","src/wire.rs"],
 [("next_element_impl, next_value, next_blob","src/stream.rs"),("Descriptor::parse, decode_u64","src/wire.rs")],
 [("pos","byte offset from the start of the stream","src/stream.rs Stream"),("struct_depth","nesting depth","src/stream.rs Stream"),("eof","end of document seen","src/stream.rs Stream"),("blob_end/commit","pending partially consumed blob","src/stream.rs Stream")])
p("C04","Integers are encoded minimally and decoded exactly or rejected",
 "Every 64-bit unsigned value is written in its shortest form (and in the fixed-width form as exactly ten bytes), signed values through ZigZag, and both are read back exactly. A reader accepts every denormalised (zero-padded) encoding of up to 257 bytes, and rejects an encoding whose value does not fit in 64 bits or which is longer, never returning a wrong value. Converting a decoded integer to a narrower, signed, boolean, null or platform-sized type succeeds exactly when the value is representable and then preserves it.",
 ["inputs"],"all encodings built from every significant-prefix pattern x padding length 0..300; all boundary values x all conversions; exhaustive for 8/16-bit types",
 "Tests sample some values; shift/overflow boundaries of a variable-length code need every (length, top bits, padding) combination.",
 ["src/wire.rs","src/stream.rs","src/de.rs"],
 [("decode_u64 / encode_u64 / encode_fixed_u64 / zigzag / unzigzag","src/wire.rs"),("to_int! conversions, to_bool, to_null","src/stream.rs")])
p("C05","Truncated input is always detected",
 "If the bytes of an encoded value are cut short at any point, decoding never succeeds: every strict prefix is rejected with an error, whatever the type, the entry point, and whether the input is seekable. With graceful end-of-file enabled, running out of input exactly where an element could start is the same as an explicit end-of-document marker there, and running out anywhere else (inside an integer, inside a blob including one that is being skipped, between a header and its payload) is still an error.",
 ["inputs","crash_points","configurations"],"every cut point of every encoded catalog value and of a set of crafted documents x {graceful, not} x {seekable, not} x {slice, reader}",
 "Tests truncate one or two documents at one place; append-only files can be cut at any byte.",
 ["src/stream.rs","src/de.rs","src/wire.rs"],
 [("StreamTracker::read graceful EOF substitution","src/stream.rs"),("skip_blob, skip_by_seek, skip_by_discard","src/stream.rs"),("Blob::read_fully, slice, ext_slice","src/stream.rs")])
p("C06","Hostile input can neither crash, hang nor exhaust memory",
 "Whatever bytes are fed to any decoding entry point for any supported type, decoding terminates with a value or an error: it never panics, never overflows the stack while the recursion limit is in force, and never loops without consuming input. The memory it allocates is bounded by a small multiple of the configured limits plus the input actually supplied, no matter what lengths or counts the input claims.",
 ["inputs","configurations"],"all short byte strings over a structural alphabet plus amplification documents (huge claimed lengths, deep nesting, many fields) x a set of target types x entry points, under an allocation-counting allocator",
 "Robustness is a for-all-inputs statement; the tests feed almost only well-formed input.",
 ["src/de.rs","src/stream.rs","src/wire.rs","src/unknown.rs"],
 [("Context::push recursion limit","src/de.rs"),("Context::collect / Context::blob","src/de.rs"),("Blob::read_fully growth by actual data","src/stream.rs"),("OverwideInteger cut-off","src/wire.rs")])
p("C07","Decoding limits are exact, cumulative and enforced everywhere",
 "The number of elements placed in variable-size collections (including maps, sets, preserved unknown fields) is summed over the whole document and may not exceed the configured maximum; likewise the total bytes copied into strings and byte vectors; and nesting may not exceed the recursion limit. A document that needs exactly the limit is accepted and one that needs one more is rejected with the corresponding limit error, for every type and wherever in the document the elements are. Zero-copy blobs, fixed-length byte arrays and skipped content do not count against the blob limit, and the same accounting rules hold for custom decoders that use the context directly. A configuration that nobody changed has the documented limits: 65536 bytes copied into blobs, 256 collected elements.",
 ["inputs","configurations","histories"],"catalog documents x every limit value from 0 to usage+1; all sequences of context accounting calls up to a depth, against a counter model",
 "Tests probe one limit with one document each; exactness at each boundary, accumulation across fields and depth for every type is a quantified statement.",
 ["src/de.rs","src/unknown.rs","src/sugar.rs"],
 [("Context::{push,push_tag,collect,blob}","src/de.rs"),("ContextStats shared by subcontexts","src/de.rs")],
 [("collected","elements counted so far","src/de.rs ContextStats"),("total_blob","bytes copied so far","src/de.rs ContextStats"),("depth","context nesting","src/de.rs Context")])
p("C08","Decoding follows the schema: cardinality, wire type and range",
 "For every supported type and every document, decoding accepts exactly the documents the schema admits and yields exactly the value they denote: required fields must occur once, optional ones at most once, fixed arrays exactly their length, collections any number of times in document order, maps and sets with the usual duplicate-key semantics; fields may be interleaved with other fields in any order. A field of the wrong wire type, out of range, missing, duplicated or with an unknown discriminant makes decoding fail instead of yielding a made-up or defaulted value.",
 ["inputs","programs"],"all token sequences (fields of each wire type and tag, nested structs, enums, end markers, padding, exceptions) up to a depth, per target type, against a reference decoder driven by the type's schema",
 "Tests check one accepted and a few rejected documents per type; orderings, interleavings and duplicates are combinatorial.",
 ["src/de.rs","src/sugar.rs","src/retrofit.rs","src/unknown.rs"],
 [("Accum types, deserialize_field, finish","src/de.rs"),("des_struct_body! and fourleaf_retrofit! body loops","src/de.rs, src/sugar.rs")])
p("C09","Unknown fields and padding never disturb what is known",
 "Inserting a well-formed unknown field (any unused tag, any wire type, arbitrarily nested, containing padding, exceptions or fields whose tags are known in the enclosing struct) or padding at any element boundary of a document leaves the decoded value and the position after it unchanged when unknown fields are ignored. When they are not ignored, each unknown field is rejected with an error naming its tag and byte offset, while padding is still accepted. Fields belonging to the types are never reported as unknown.",
 ["inputs","configurations","programs"],"every element boundary of each catalog document x a closed set of unknown-field and padding fragments (pairs in the thorough tier) x {ignore, reject}",
 "Forward compatibility is promised for fields nobody has defined yet, at any position; tests skip one or two simple ones.",
 ["src/de.rs","src/stream.rs","src/sugar.rs"],
 [("Context::unknown_field, Field::skip, Stream::skip_up","src/de.rs, src/stream.rs")])
p("C10","Edit-compatible types preserve everything they do not understand",
 "A struct with an unknown-fields catch-all or an enum with an unknown-variant catch-all that decodes a document and encodes the result keeps every field and variant it does not know, with the same tag, wire type, nested content and relative order, for any document and in both copying and borrowing mode, whether or not unknown fields are ignored elsewhere. Known fields can be edited without affecting the preserved ones, and preserved content never leaks into known fields or the reverse. Decoding any document as pure unknown fields and encoding it again reproduces it canonically.",
 ["inputs","histories"],"all token sequences up to a depth as unknown content x catch-all struct/enum types x copy/borrow x read-modify-write by an older schema followed by reading with the newer one",
 "The single test round-trips one document; preservation must hold for all nested shapes.",
 ["src/unknown.rs","src/sugar.rs","src/adapt.rs"],
 [("UnknownFields / UnknownField","src/unknown.rs"),("(?) handling in fourleaf_retrofit!","src/sugar.rs"),("Copied","src/adapt.rs")])
p("C11","Zero-copy decoding equals copying decoding and borrows from the input",
 "For every document and type usable in both styles, borrowing decoding accepts the same documents and yields the same values as copying decoding, apart from the copied-blob limit which never applies to borrowed data. Borrowed byte slices and strings, at any nesting, point into the input buffer at exactly the blob's location and length, while anything requested as copied is independent of the input. A blob reaching beyond the buffer is rejected, and borrowing a blob consumes it so that the stream continues right after it.",
 ["inputs","programs"],"all token sequences up to a depth per zero-copy capable type, decoded in both styles; pointer identity checked for every borrowed slice",
 "Tests check one pointer; equivalence of the two decoders is over all documents.",
 ["src/de.rs","src/io.rs","src/stream.rs","src/adapt.rs"],
 [("ZeroCopy impls for &[u8], &str, Cow","src/de.rs"),("AsExtBytes, Blob::ext_slice","src/io.rs, src/stream.rs")])
p("C12","Decoding does not depend on how the input is delivered",
 "The outcome of decoding or skipping (value or failure, final stream position, bytes consumed from the source) is the same however the source splits its data into short reads, however often a read is interrupted, and whether or not it is seekable, including when a declared seek capability fails at run time. A hard I/O error of the source surfaces as an error carrying it, never as a value, and the stream's position afterwards is still the number of bytes taken from the source. The decoder never reads past the end of the value it decodes, so what follows in the source stays available.",
 ["fault_sequences","inputs"],"all environment scripts with up to k deviations (1-byte read, interrupted, hard error, seek failure) at every read/seek call x a set of documents and types; k iterated",
 "Tests read from complete in-memory slices, which never answer short, interrupt or fail.",
 ["src/stream.rs","src/wire.rs","src/de.rs"],
 [("read_byte/read_exact loops","src/wire.rs"),("StreamTracker","src/stream.rs"),("skip_by_seek fallback to discard","src/stream.rs")])
p("C13","Encoding does not depend on how the output accepts data",
 "The bytes that reach the sink are the same however it splits writes into short writes and however often a write is interrupted. If the sink fails (error, or accepting zero bytes) at any point, the encoding call reports failure and what reached the sink is a prefix of the correct encoding. An encoding call that reports success has delivered every byte, including the patched length of dynamically sized blobs on seekable sinks. The reported position stays the number of bytes the sink took, also after a failure, and committing again after a failed commit never reports success unless the output is complete.",
 ["fault_sequences","inputs"],"all environment scripts with up to k deviations (1-byte write, interrupted, zero write, hard error, seek error) at every write/seek call x a set of values and writer programs; k iterated",
 "Tests write into a Vec or a file, which never answer short or fail.",
 ["src/stream.rs","src/wire.rs","src/ser.rs"],
 [("encode_* via write_all","src/wire.rs"),("Blob write, write_all, finish_dynamic_blob","src/stream.rs"),("to_writer / to_stream commit","src/ser.rs")])
p("C14","Stream navigation keeps position, depth and end state consistent",
 "After any sequence of reading operations (next element, next field, skip a field, skip up to a depth, partially reading or ignoring a blob, commit, seek, logical position reset, clearing the end flag), the reported position, nesting depth and end-of-document state are those of a simple model of the document, and the next element returned is the one that model predicts. Skipping a field skips exactly it and its children; skipping up to a depth stops right after the end marker that reaches it; an unread or partly read blob never bleeds into the next element. Once the end of the document was seen, further reads return it without touching the source until cleared.",
 ["histories","inputs"],"all operation sequences up to a depth over a set of documents, state compared with a reference model after every operation",
 "Tests run fixed scripts of a few calls; statefulness makes the quantifier all histories.",
 ["src/stream.rs"],
 [("next_element_impl, skip_up, Field::skip, commit, reset_pos, seek, clear_eof","src/stream.rs")],
 [("pos, eof, blob_end, struct_depth, commit","reader state","src/stream.rs Stream")])
p("C15","Any sequence of writer calls produces the document it describes",
 "After any sequence of low-level writing operations (integers, structs, enums, blobs with given data, pre-sized or dynamically sized, exceptions, padding, alignment, end markers, commit), the output parses back to exactly the elements written, in order, and the reported position equals the bytes emitted. A pre-sized blob never accepts more than its size; continuing or committing while it is not completely written, or positioned elsewhere than its end, is reported as an error telling how much is missing, and a dynamically sized blob gets exactly the length of what was written. Alignment padding ends at the requested multiple with fewer padding bytes than it, and a tag outside 1 to 63 is refused with a panic before anything is written, in every build profile.",
 ["histories"],"all writer-operation sequences up to a depth over a small argument alphabet, output and state compared with a reference writer and re-parsed; debug and release profiles for tag checks",
 "Tests write fixed sequences of two or three elements.",
 ["src/stream.rs","src/wire.rs"],
 [("write_*, write_desc_with_blob_alloc, finish_dynamic_blob, check_at_end_of_blob, pad_to_align","src/stream.rs")],
 [("blob_end, dynamic_blob_start, commit","uncommitted blob","src/stream.rs Stream")])
p("C16","A blob behaves as a bounded file over its own bytes",
 "Through any sequence of reads, buffered reads, writes, seeks, slicing and bounded extraction on a blob, the blob behaves like a fixed-length file holding exactly its bytes: its positions and remaining length are consistent, out-of-range seeks fail without moving, and reads and writes stop at its end. In-place writes change only the addressed bytes and never anything outside the blob. Whatever was done with the blob, the stream continues with the element following it, and operations needing bytes the source does not have report the blob as truncated instead of panicking or returning short data.",
 ["histories","inputs"],"all operation sequences up to a depth on blobs of several lengths at several offsets (first, middle, last, truncated), against a byte-array file model, including the surrounding bytes",
 "Tests do a few seeks on one blob; arithmetic on start/end/current offsets has many corner combinations.",
 ["src/stream.rs","src/io.rs"],
 [("Read/BufRead/Write/Seek for Blob, slice, slice_mut, ext_slice, read_fully, read_or_trunc","src/stream.rs"),("TransparentCursor, AsExtBytes","src/io.rs")],
 [("blob_end, len, pos","blob window","src/stream.rs Blob/Stream")])
p("C17","Copying a stream element by element reproduces it",
 "For every well-formed document, copying it element by element (or field by field with end markers) into another stream yields a document with exactly the same elements, tags, values, blob contents and padding, canonically encoded, and byte-identical if the source was canonical. Copying a blob that was already partly consumed, or one whose source ends early, never passes silently as a complete copy. It holds for any chunking of source and sink.",
 ["inputs","fault_sequences"],"all documents from the token grammar up to a depth, and their truncations, copied through the element and field APIs, plus environment scripts on small documents",
 "No test copies anything but a single fixed document.",
 ["src/stream.rs"],
 [("write_element, write_field","src/stream.rs")])
p("C18","Several values and in-band signals share one stream",
 "Values written one after another on one stream are read back in order by successive decode calls, each starting right after the previous one ended, whatever padding lies between them, until an explicit end of document or (gracefully) the end of the input, which ends every open struct and every later read until it is cleared. An exception met where a field is expected is reported as an error carrying its message (at most its first 256 bytes, lossily decoded), and decoding can continue after it. After a decoding failure that is not a format or I/O error, skipping up to top level resumes exactly at the next value.",
 ["inputs","histories"],"all sequences of up to n values/padding/exceptions/end markers from a closed set, all single faults injected at every field of a value followed by a good value",
 "Tests decode one value per stream.",
 ["src/de.rs","src/stream.rs","src/ser.rs"],
 [("from_stream_copy/borrow, to_stream","src/de.rs, src/ser.rs"),("skip_up, clear_eof, exception handling in next_field","src/stream.rs")])
p("C19","64-bit position arithmetic never wraps",
 "For streams whose positions or declared lengths are anywhere up to the maximum 64-bit offset, every read, skip, seek, slice and write either works with exact positions or fails with an error; it never panics, wraps around, moves to a wrong place, or accepts a blob that would end beyond the maximum. Blobs longer than a signed 64-bit seek can express are skipped exactly, and declared but absent data is reported as missing. The rules are the same in debug and release builds.",
 ["inputs","histories"],"all combinations of boundary positions and lengths (0, small, 2^31, 2^63, 2^64 neighbourhoods) x operations x operation pairs on a virtual sparse device",
 "Tests cannot hold exabyte inputs; they only use tiny offsets.",
 ["src/stream.rs"],
 [("check_advance_pos, skip_by_seek splitting, Blob::seek displacement checks, OVERHEAD checks","src/stream.rs")])
p("C20","Decode errors name the right cause and place",
 "When a document has a single fault, the error reported has the kind the documentation assigns to it (missing field, too many or too few occurrences with the right bound, unknown field with tag and offset, unknown variant with discriminant, invalid value, wrong wire type, limit exceeded, malformed or truncated input, exception). Its location text lists the path of field names from the outermost value to the offending field with the byte offset of each field on the way. The error's printed text states that location and the details (tag, discriminant, bound).",
 ["inputs","programs"],"every single-fault mutation (of a closed set) at every field of each nested catalog document, error kind and location compared with the reference decoder's",
 "Tests match error variants for a few literals and never the location.",
 ["src/de.rs","src/sugar.rs","src/unknown.rs"],
 [("Context Display, push/push_tag, Error variants","src/de.rs")])
p("C21","Decoded values always respect their type's invariants",
 "No document can make decoding return a value outside its type's domain: characters are Unicode scalar values, text is valid UTF-8 (checked both when copied and when borrowed), booleans come only from 0 and 1, unit-like markers only from 0, durations have less than a second of nanoseconds, fixed byte arrays and addresses have exactly their length, and enum values only declared discriminants. Everything inside the domain is accepted and preserved.",
 ["inputs"],"exhaustive over the encoded payload domain near each validity boundary: all 1-3 byte blobs plus all 4-byte UTF-8 boundary patterns, all char boundaries, all lengths 0..N for arrays, all small discriminants",
 "Tests have one negative sample per rule at most.",
 ["src/de.rs","src/stream.rs","src/retrofit.rs"],
 [("String/&str/char/bool/Duration/array deserialisers","src/de.rs, src/retrofit.rs"),("to_bool, to_null","src/stream.rs")])
p("C22","Documented schema evolutions are compatible",
 "A value written with one schema is read correctly with another one whenever the documentation calls the change compatible: adding or deleting an optional or collection field, widening an integer, narrowing it for values that still fit, turning a single-valued field into an optional or collection of it, widening a collection's cardinality, adding an enum variant, and the reverse direction for forward compatibility. In each case the fields common to both schemas have equal values, and values that do not fit the reader's schema are rejected rather than misread.",
 ["programs","inputs"],"all pairs from a closed set of schema versions x all boundary-domain values, checked against the documented rule table",
 "The documentation's compatibility rules are universally quantified over types and values; only one example is tested.",
 ["src/lib.rs","src/de.rs","src/ser.rs","src/sugar.rs"],
 [("field/element contexts, accumulators, unknown-field skipping","src/de.rs, src/ser.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
