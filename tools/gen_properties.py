import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)

p("C01","A handle keeps showing exactly the bytes it was made from",
 "A byte or string value made by any constructor, conversion, clone or concatenation exposes exactly the source bytes (same length, same order, same emptiness), whichever storage form is chosen for it. It keeps exposing exactly those bytes for its whole life, whatever is later done with any other value that shares the same storage. Consuming it byte by byte or char by char, or converting it to an owned vector, string, builder or another handle type, yields those same bytes.",
 ["inputs","histories"],"every source content and length (in particular around the inline limit), every storage form (inline, static, borrowed, reference-counted, external object), every chain of conversions and every history of operations on sibling handles",
 "The tests convert a couple of fixed strings once; they never keep siblings of one buffer alive while others are sliced, frozen, extended or dropped, and hit two or three of the storage-form transitions.",
 ["src/bytedata.rs","src/stringdata.rs","src/shared_bytes.rs","src/external.rs","src/byte_chunk.rs"],
 [("storage form chosen by length and source","src/bytedata.rs ByteData::from_static/from_borrowed/from_owned/from_concat/from_external"),("clone by form","src/bytedata.rs impl Clone for ByteData"),("builder re-use only when unique","src/shared_bytes.rs From<SharedBytes> for SharedBytesBuilder")],
 ["as_slice/as_str/len/is_empty of every live handle after every operation"],
 [("kind bits","which of inline/static/borrowed/shared/external a handle is","src/bytedata.rs")])

p("C02","Slicing obeys slice-range semantics and never escapes the value",
 "Taking a sub-range of a byte or string value (copying, consuming, in place, taking a prefix, or splitting at a position) yields exactly the bytes the same range of a plain slice would yield; taking a line takes it with its newline. A range that a plain slice rejects (start past end, end past the length, a bound at the numeric limit, a cut inside a character for text) panics, or is refused, and never yields a value covering any other byte. This holds in optimised builds exactly as in debug builds.",
 ["inputs","configurations"],"every content, length, storage form and range (all bound kinds, reversed, out-of-range and usize::MAX bounds), chains of repeated slicing, debug and optimised builds",
 "Tests slice a few in-range ranges in debug builds; out-of-range, reversed and overflowing bounds per storage form, and release arithmetic, are not sampled.",
 ["src/bytedata.rs","src/stringdata.rs","src/shared_bytes.rs","src/byte_chunk.rs","src/external.rs"],
 [("range checks per form","src/bytedata.rs ByteData::sliced/into_sliced/make_sliced/into_shared_range"),("offset/length checks","src/shared_bytes.rs sliced/into_sliced/make_sliced and the *_range variants")],
 ["result bytes or panic, compared with the std slice operation on a plain Vec/String"])

p("C03","Text values always hold valid UTF-8",
 "Every text value reachable through safe operations (string handles, string builders, string queues and each of their chunks, and the strings produced from them) is valid UTF-8 at all times. Building text from raw bytes succeeds exactly when the bytes are valid UTF-8 and otherwise hands the bytes back or reports the standard library's error. An operation that would cut a character is rejected instead of producing broken text.",
 ["inputs","histories"],"every byte string (valid, truncated, overlong, surrogate, beyond the last code point) as raw source, every position as a cut, every history of text operations",
 "Tests use ASCII and a few characters at aligned positions; validity must hold for every multi-byte layout across every cut and chunk boundary.",
 ["src/stringdata.rs","src/shared_str_builder.rs","src/queue/string_queue.rs","src/queue/drain.rs","src/queue/char_iter.rs","src/nom_7/stringdata.rs","src/serde_1/stringdata.rs"],
 [("validation on entry","src/stringdata.rs try_from_bytedata/try_from_shared"),("boundary checks on cuts","src/queue/string_queue.rs slice/split_off/replace_range; src/shared_str_builder.rs truncate")],
 ["bytes of every live text value revalidated with the standard decoder after each operation"])

p("C04","No sequence of safe calls causes undefined memory behaviour",
 "Whatever safe calls a program makes, in whatever order and with whatever arguments (including ones that panic), the library never reads or writes outside memory it owns, never uses memory after releasing it, never reads uninitialised memory, never frees with the wrong size or alignment, and never breaks the aliasing or validity rules of the language. ",
 ["inputs","histories","configurations"],"every history of safe calls over every type and storage form, including hostile arguments, in debug and optimised builds",
 "The tests run without any sanitizer, so an out-of-bounds read or a wrongly sized free passes silently; and they drive a handful of short histories.",
 ["src/shared_bytes.rs","src/shared_bytes_builder.rs","src/external.rs","src/bytedata.rs","src/queue/linked_root.rs","src/queue/linked_node_data.rs","src/queue/linked_iter.rs","src/queue/drain.rs","src/bytes_1/mod.rs","src/std.rs"],
 [("raw allocation and layout bookkeeping","src/shared_bytes_builder.rs, src/shared_bytes.rs"),("uninitialised ring slots","src/queue/linked_node_data.rs"),("type-erased external payloads","src/external.rs")],
 ["AddressSanitizer and Miri reports; allocator monitor (layout of every free, red zones, poisoned frees)"])

p("C05","Backing storage is released exactly once, after its last user is gone",
 "Every buffer or external object backing a value stays alive as long as any handle, slice, queue, iterator or foreign wrapper derived from it exists, and is destroyed exactly once, no later than when the last of them is dropped or converted. After all values are gone nothing remains allocated, with the single exception of what was deliberately interned.",
 ["histories","inputs"],"every history of creating, cloning, slicing, converting, draining, partially iterating, taking back and dropping values in any order",
 "Tests do not count allocations or destructor calls, so leaks, double drops and premature releases on less common conversion paths go unnoticed.",
 ["src/shared_bytes.rs","src/shared_bytes_builder.rs","src/external.rs","src/bytedata.rs","src/bytes_1/shared_bytes.rs","src/bytes_1/bytedata.rs","src/queue/linked_root.rs","src/queue/drain.rs","src/queue/chunk_iter.rs"],
 [("reference counts","src/shared_bytes.rs Clone/Drop; src/external.rs Clone/Drop"),("ownership transfer by transmute/forget","src/bytedata.rs, src/bytes_1/shared_bytes.rs")],
 ["destructor counters of instrumented external objects; per-allocation ledger of a monitoring global allocator"])

p("C06","Handles shared between threads are free of data races",
 "Values that share storage may be cloned, read, sliced, converted, taken back and dropped concurrently from any number of threads without a data race, and every thread sees the exact bytes. The storage is released exactly once, and every access made through any handle happens before that release; exclusive reuse of storage is granted only when no other handle can still be accessing it.",
 ["schedules"],"every interleaving (and every weak-memory execution) of handle operations on shared storage by several threads",
 "The test suite has no multi-threaded test of shared handles at all, and a stress test on x86 would not show a missing acquire/release ordering.",
 ["src/shared_bytes.rs","src/external.rs","src/bytes_1/shared_bytes.rs","src/interning/static.rs"],
 [("atomic reference counts and their orderings","src/shared_bytes.rs Clone/Drop/is_unique/From<SharedBytes> for SharedBytesBuilder"),("external reference counts","src/external.rs Clone/Drop/take_inner"),("foreign vtable","src/bytes_1/shared_bytes.rs SHARED_BYTES_BVT")],
 ["ThreadSanitizer reports, Miri data-race reports over many schedules, byte checks in each thread, destructor counts"])

p("C07","Sharing is zero-copy where it is promised",
 "Cloning a static, borrowed, reference-counted or external value, slicing or splitting more than fourteen bytes off it, queueing it, converting between handle types that can share storage (including to the foreign byte-buffer type in its default configuration), and freezing a builder all keep pointing at the original storage instead of copying the content. Taking an external object back out of its sole handle returns that same object, and a unique whole-buffer shared value turns back into a builder in place. Values of at most fourteen bytes made by the inline constructors never allocate.",
 ["inputs","histories"],"every content length, offset and chain of sharing operations",
 "Tests compare contents only, so a silent copy passes; whether storage is shared depends on length, offset, uniqueness and type in combinations the tests do not reach.",
 ["src/bytedata.rs","src/shared_bytes.rs","src/shared_bytes_builder.rs","src/external.rs","src/bytes_1/shared_bytes.rs","src/bytes_1/bytedata.rs","src/queue/byte_queue.rs"],
 [("offset/length views","src/shared_bytes.rs sliced"),("external views","src/external.rs"),("vtable transmute","src/bytes_1")],
 ["data addresses of results against the source storage; allocation sizes seen by the monitoring allocator"])

p("C08","Equality, ordering and hashing depend only on content",
 "Comparing any two byte or text values, of the same or of different types, gives the result of comparing their plain byte content: equality, inequality and lexicographic order agree with each other in both directions. Values of one type that are equal hash equally, and a type usable as a borrowed key hashes and compares like its borrowed form. Storage form, sharing, offset and chunk layout never influence any of it.",
 ["inputs"],"every pair of contents (equal, prefix, first/last-byte difference), every pair of types for which a comparison exists, every storage form and every division into chunks",
 "Tests compare a few equal pairs; antisymmetry, transitivity across types and hash agreement across chunk layouts are universal statements over pairs.",
 ["src/bytedata.rs","src/stringdata.rs","src/shared_bytes.rs","src/queue/byte_queue.rs","src/queue/string_queue.rs"],
 [("PartialEq/PartialOrd/Ord/Hash implementations","src/bytedata.rs, src/stringdata.rs, src/shared_bytes.rs, src/queue/byte_queue.rs, src/queue/string_queue.rs")],
 ["results of ==, partial_cmp, cmp and a recording hasher against std on the plain bytes"])

p("C09","Builders behave as growable vectors and strings",
 "Under every history of appending, writing, extending, reserving, truncating, clearing, in-place mutation, filling spare capacity and freezing, a byte or string builder holds exactly what a plain vector or string would, its capacity is never below its length or below what was reserved, and freezing yields exactly the held bytes. Storage requested with an alignment starts at that alignment before and after growth and freezing. Turning a frozen value back into a builder never changes what other handles see.",
 ["histories","inputs"],"every history of builder operations, every requested capacity and (power-of-two) alignment, shared and unique origins",
 "Tests perform two or three appends with the default alignment; growth, realignment and reuse across histories are unbounded.",
 ["src/shared_bytes_builder.rs","src/shared_str_builder.rs","src/shared_bytes.rs","src/std.rs","src/bytes_1/shared_bytes_builder.rs"],
 [("growth and relocation","src/shared_bytes_builder.rs reserve/extend_from_slice"),("header initialisation on freeze","src/shared_bytes_builder.rs build")],
 ["content, length, capacity and address after each operation against a Vec/String model"],
 [("off/len/cap","data offset, used length and allocation size","src/shared_bytes_builder.rs")])

p("C10","A byte queue is one byte sequence under every edit history",
 "Under every history of pushing and popping at both ends, appending, slicing, splitting off, draining, consuming, taking while, replacing a range, extending, collecting and cloning, a byte queue reads back as exactly the byte sequence a plain vector would hold after the same edits. Its length is the exact number of bytes, its chunk count is the number of chunks it yields, and pushed chunks come out at the ends in order. Out-of-range positions are rejected and leave no byte lost or duplicated.",
 ["histories","inputs"],"every history of queue operations, from empty to several linked blocks of chunks, every chunk size including inline-sized ones, every position",
 "The tests push at most a few chunks in fixed order; the linked ring blocks only meet their wrap-around, merge and split cases in long mixed histories.",
 ["src/queue/byte_queue.rs","src/queue/linked_root.rs","src/queue/linked_node_data.rs","src/queue/linked_node_leaf.rs"],
 [("byte count kept beside the list","src/queue/byte_queue.rs remain"),("linked ring blocks","src/queue/linked_root.rs append/push/pop; src/queue/linked_node_data.rs")],
 ["full content, len, chunk_len, front/back after every operation against a VecDeque model"],
 [("remain","total bytes","src/queue/byte_queue.rs"),("count","number of chunks","src/queue/linked_root.rs")])

p("C11","Iterators yield exactly the content with honest sizes",
 "Iterating a byte or string value or queue by chunks, bytes, chars, indexed chars or drain, borrowed or owned, from the front or the back, with any mix of skipping, taking, nth, last and counting, yields exactly the elements the plain content has at those places. Size hints are always correct bounds (exact where an exact size is promised), and an exhausted iterator stays exhausted. Stopping at any point, or dropping a drain half-way, leaves the queue with exactly the content outside the drained range.",
 ["inputs","histories"],"every chunk layout (including characters at every position of a chunk), every script of iterator calls interleaved from both ends, every stopping point",
 "Tests call for-loops over short queues; skip/nth/last/double-ended behaviour across block boundaries is combinatorial.",
 ["src/queue/linked_iter.rs","src/queue/chunk_iter.rs","src/queue/byte_iter.rs","src/queue/char_iter.rs","src/queue/drain.rs"],
 [("block-skipping","src/queue/linked_iter.rs skip_mut"),("byte positions","src/queue/byte_iter.rs"),("drain drop","src/queue/drain.rs")],
 ["items and size_hint after each call against a standard iterator over the plain content"])

p("C12","Searching and splitting agree with the plain definition and terminate",
 "Prefix, suffix and at-position tests, and finding a byte, a predicate or a byte string (from the start or from a position), give the answer the plain content defines, however the content is divided into chunks. Splitting on a needle, once, always or a limited number of times, yields, in order, the pieces between the separators, the last piece of a limited split keeping the rest and the second part of a split-once starting with the separator; an empty separator never splits and empty content yields no pieces. Every such operation terminates.",
 ["inputs"],"every content, needle (empty, repeated, self-overlapping, longer than the content), start position, limit and chunk layout",
 "The tests search for one needle inside one chunk; matches straddling chunks, partial matches and repeated needles are only settled over all layouts.",
 ["src/queue/byte_queue.rs","src/queue/split.rs","src/bytedata.rs","src/stringdata.rs","src/queue/string_queue.rs"],
 [("cross-chunk search","src/queue/byte_queue.rs find_slice_after/exists_at"),("split iterators","src/queue/split.rs; src/bytedata.rs split_on/split_once_on")],
 ["results against naive search on the concatenated bytes; step budget for termination"])

p("C13","A string queue is one string under every edit history",
 "Under every history of pushes, pops, appends, slices, splits, drains, replacements, taking while, taking lines, formatted writes and conversions, a string queue reads back as exactly the string the same edits of a plain string produce, with exact byte length. Character iteration, character search and indices report the characters and byte positions of that string. A position that is out of range or inside a character is rejected.",
 ["histories","inputs"],"every history of text-queue operations, every multi-byte layout over chunks, every position",
 "Tests cover a few ASCII pushes; boundary positions relative to chunks and characters are unbounded.",
 ["src/queue/string_queue.rs","src/queue/char_iter.rs","src/queue/drain.rs","src/queue/byte_queue.rs"],
 [("boundary checks","src/queue/string_queue.rs slice/split_off/drain/replace_range"),("delegation to the byte queue","src/queue/string_queue.rs")],
 ["content and result of each operation against a String model"])

p("C14","Reading and writing through std I/O loses and invents nothing",
 "Reading any value through the standard read interfaces, with any sequence of buffer sizes, vectored buffers, buffered peeks, partial consumption, read-to-end, line or exact reads, delivers exactly its bytes in order and then end-of-file, and never touches a destination buffer beyond what it reports as read. Writing any sequence of buffers through the standard write interfaces appends exactly those bytes, and the reported count is what was accepted. Failed exact reads and invalid text reads report an error as the standard library does.",
 ["inputs","histories"],"every content and chunk layout, every sequence of read/write calls and buffer sizes including empty and oversized ones",
 "No test drives the I/O traits with buffers larger than the data, vectored buffers, or partial consumption over chunk boundaries.",
 ["src/std.rs"],[("Read/BufRead/Write implementations","src/std.rs")],
 ["bytes returned, destination sentinels and remaining content against std::io::Cursor"])

p("C15","Interoperation with the foreign byte-buffer type is faithful",
 "Converting any value to the foreign byte-buffer type and back, in either configuration of that support, preserves the content, and the converted buffer behaves like a native one under cloning, slicing, splitting, uniqueness queries, conversion to owned or mutable form, and dropping in any order. Driven through the foreign reading interface a value yields exactly its bytes with exact remaining counts; driven through the foreign writing interface a builder accumulates exactly what was put. Advancing past the end is rejected.",
 ["inputs","histories","configurations"],"every content and storage form, every history of foreign-type operations, every get/put width and endianness, both conversion configurations",
 "Tests convert one string each way; the hand-written dispatch table is only exercised by clone and drop.",
 ["src/bytes_1/mod.rs","src/bytes_1/bytedata.rs","src/bytes_1/shared_bytes.rs","src/bytes_1/queue.rs","src/bytes_1/shared_bytes_builder.rs"],
 [("hand-written vtable","src/bytes_1/shared_bytes.rs SHARED_BYTES_BVT"),("Buf/BufMut","src/bytes_1/*.rs")],
 ["content and counters against native Bytes/BytesMut driven by the same script; allocation ledger"])

p("C16","Interning is canonical and content-preserving",
 "Interning a value returns a value with the same content, and interning equal content any number of times, from any thread, yields the same stored instance (values of at most fourteen bytes, which are held inline, excepted); looking up without inserting finds exactly what has been interned. Interned values stay valid for as long as they are held, independent of the source value, and copies of the interner share one set.",
 ["inputs","histories","schedules"],"every sequence and interleaving of intern and lookup calls for byte and text content of every length",
 "Tests intern two strings from one thread; canonicity must hold for concurrent first-time interning and concurrent first-time initialisation.",
 ["src/interning/static.rs","src/interning/byte_interning.rs"],
 [("lazily created concurrent map","src/interning/static.rs")],
 ["content and data address of results against a set model; Miri/ThreadSanitizer reports"])

p("C17","Rendering shows exactly the content",
 "The display form of text equals its characters, formatting flags are honoured as by the plain type's rendering, and the debug form of a single text value equals that of the plain string. The hexadecimal form of bytes is two digits per byte in order, independent of chunking; the escaped byte rendering is ASCII-safe, unambiguous, and identical for the same bytes however they are divided. Formatting into a builder, inline buffer or queue stores exactly the formatted text, or reports an error when it does not fit.",
 ["inputs"],"every byte content and chunk layout, every format width/flag supported, writers of every remaining capacity",
 "Tests render two short literals; escapes at chunk boundaries and every byte value are not covered.",
 ["src/byte_string_render.rs","src/bytedata.rs","src/shared_bytes.rs","src/stringdata.rs","src/queue/byte_queue.rs","src/queue/string_queue.rs","src/macros.rs","src/byte_chunk.rs"],
 [("escaped rendering","src/byte_string_render.rs"),("hex and fmt impls","src/lib.rs, src/queue/byte_queue.rs")],
 ["rendered strings against an independent renderer"])

p("C18","Compile-time helpers and UTF-8 decoding agree with the standard library",
 "The constant-evaluable helpers (equality, prefix/suffix, bounded slicing of bytes and text, searching, splitting once, concatenation) return for every input what the corresponding standard operation returns. Decoding characters from raw bytes yields for valid UTF-8 exactly the standard characters, positions and byte lengths, and never yields a character for bytes the standard decoder rejects. ",
 ["inputs"],"every byte string and text, every range and needle, every code point and every malformed sequence",
 "Tests decode ASCII and one error; the code-point space and malformed sequences are far larger.",
 ["src/lib.rs","src/char_indicies.rs","src/macros.rs"],
 [("const helpers","src/lib.rs"),("character decoder","src/char_indicies.rs; src/lib.rs const_utf8_char_next")],
 ["results against core::str / slice operations, all code points and exhaustive short byte strings"])

p("C19","Serialisation round-trips",
 "Serialising any value and deserialising it again, borrowed or owned, through a textual or a binary data format, yields an equal value; text serialises as a string and bytes as a byte string. A deserialiser handing over borrowed, transient or owned strings, byte buffers, or sequences of bytes is accepted with the exact content, and no text value is ever made from invalid UTF-8. Borrowed input is only referenced while it is allowed to be.",
 ["inputs"],"every content and storage form, every way a data format may present it",
 "Tests use one serializer and short literals; the visitor entry points (borrowed/transient/owned, str/bytes/seq) are not covered.",
 ["src/serde_1/bytedata.rs","src/serde_1/stringdata.rs","src/serde_1/shared_bytes.rs","src/serde_1/mod.rs"],
 [("visitors","src/serde_1/*.rs")],
 ["values from serde_json and from a recording/driving serde backend"])

p("C20","Parser-combinator input behaves like plain slices and strings",
 "Used as parser-combinator input, byte and text values and queues give, for every input and combinator (hex dumps and non-ASCII character tokens on bytes excepted), the same outcome (matched prefix, remaining rest, incomplete request, or recoverable/unrecoverable error) as a plain byte slice or string with the same content, however a queue is divided into chunks. Matched and remaining parts concatenate to the input.",
 ["inputs"],"every input content and chunk layout, streaming and complete combinators, every pattern and split position",
 "Tests run two parsers on one input each.",
 ["src/nom_7/bytedata.rs","src/nom_7/stringdata.rs","src/nom_7/bytequeue.rs","src/nom_7/stringqueue.rs"],
 [("nom input traits","src/nom_7/*.rs")],
 ["parser results against nom on &[u8]/&str"])

p("C21","HTTP bodies deliver the whole content with honest size hints",
 "Polled as an HTTP body in either supported protocol-crate generation, a value delivers data frames that concatenate to exactly its content and then signals the end exactly once and forever. The size hint is always exactly the remaining byte count, and end-of-stream is reported exactly when nothing remains. No trailers are invented and no empty stall occurs.",
 ["inputs","histories"],"every content length (around frame limits in particular), storage form and chunk layout, every point at which hints are queried",
 "Tests do not poll bodies larger than one frame.",
 ["src/http_body_04.rs","src/http_body_1.rs"],
 [("frame cutting","src/http_body_04.rs, src/http_body_1.rs")],
 ["frames, size_hint and is_end_stream at every step against the remaining byte count"])

p("C22","Arbitrary-input generation yields only well-formed values",
 "Generating a value from any raw fuzz input either yields a well-formed value of its type (consistent length and content, valid text) or reports that data ran out, never panics, and is a function of the raw input only. Borrowed parts refer to the raw input.",
 ["inputs"],"every raw input byte string, including empty and truncated ones",
 "No test runs the generators at all.",
 ["src/arbitrary_1/bytedata.rs","src/arbitrary_1/stringdata.rs","src/arbitrary_1/shared_bytes.rs","src/arbitrary_1/byte_queue.rs","src/arbitrary_1/string_queue.rs"],
 [("Arbitrary implementations","src/arbitrary_1/*.rs")],
 ["generated values re-checked by the content, UTF-8 and queue-consistency monitors; repeated generation compared"])

p("C23","A panicking call leaves every value usable and nothing lost",
 "When an operation panics because its arguments are rejected, or because a callback, destructor or iterator supplied by the user panics inside it, every value that survives is still well-formed (readable, droppable, length consistent with content) and values not involved are unchanged. No storage is released twice or while still referenced because of the panic; a rejected argument leaves the receiver's content unchanged.",
 ["fault_sequences","histories"],"every operation taking a position or user callback, every point at which the callback can panic, followed by further use and drop",
 "Tests never continue using a value after a panic.",
 ["src/queue/byte_queue.rs","src/queue/string_queue.rs","src/queue/drain.rs","src/bytedata.rs","src/shared_bytes_builder.rs","src/external.rs"],
 [("state moved out and back around callbacks","src/bytedata.rs take_while; src/queue/byte_queue.rs take_while/split_off; src/shared_bytes_builder.rs apply_unfilled"),("destructor of external payloads","src/external.rs Drop")],
 ["content before/after the caught panic, destructor counters, allocation ledger"])

p("C24","Feature configurations do not change observable behaviour",
 "A program using only what two feature configurations have in common observes the same contents, results and rejections in both, in debug and in optimised builds. Without heap support a queue holds a fixed number of chunks, reports being full exactly then, and refuses further pushes without losing content.",
 ["configurations","inputs"],"every pair of supported feature sets and build profiles, the same histories of common operations",
 "Each configuration is tested by its own few tests; nothing compares the behaviour of one history across configurations, and the heap-less queue is not tested at all.",
 ["Cargo.toml","src/lib.rs","src/bytedata.rs","src/queue/byte_queue.rs","src/queue/linked_root.rs","src/bytes_1/mod.rs"],
 [("cfg(feature) variants","src/queue/linked_root.rs, src/queue/byte_queue.rs, src/bytes_1/*.rs, src/bytedata.rs")],
 ["digest of the event transcript of one workload in each configuration"])
for d in P:
    d["statement"]=d["statement"].strip()
    assert len(d["title"])<=80,d["title"]
    assert d["statement"].count(". ")<=2,d["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
