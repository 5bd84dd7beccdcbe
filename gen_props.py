import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
R="src/records/"
p("C01","Record bodies decode exactly as the kernel lays them out",
  "For every non-sample record type and every byte string, byte order and header flag combination, parsing the record body yields each field with exactly the width, offset and order the kernel ABI gives it, with trailing strings stripped of their NUL padding and nothing else, variable-length parts taken from the length fields that describe them, and alternative layouts (build id instead of device/inode numbers, switch in versus switch out) chosen by the header flag that selects them. A body that is too short for its fixed or announced contents is an error, never a partly filled record.",
  ["inputs","configurations"],"all body bytes, all lengths, all misc flags, all byte orders and all chunkings of the source",
  "each record has at most one hand-written sample in the tests; field order swaps, width mistakes on zero high bytes and length-field arithmetic survive any finite sample",
  [R+f for f in ["mmap.rs","mmap2.rs","comm.rs","exit.rs","throttle.rs","lost.rs","lost_samples.rs","aux_record.rs","itrace_start.rs","switch_cpu_wide.rs","namespaces.rs","ksymbol.rs","bpf_event.rs","cgroup.rs","text_poke.rs","aux_output_hw_id.rs"]],
  [("Parse impl of every record type","src/records/*.rs"),("round_up_mod","src/records/text_poke.rs")])
p("C02","Samples contain exactly the fields the sample type selects, in ABI order",
  "For every combination of sample type, read format, branch and register configuration and every byte string, a parsed sample reports a field exactly when the configuration selects it, and its value is the one stored at the position the kernel ABI assigns given all earlier selected and variable-length fields, including padding after raw data, the omitted dynamic size of empty stacks, the absent registers of an empty register ABI and the id taken from either of its two places. If the bytes do not cover every selected field, parsing the sample fails.",
  ["inputs","configurations"],"all 2^25+ sample type combinations, read formats, register masks, lengths and contents",
  "the field position is a function of all 25 selector bits and eight data-dependent lengths; tests cover two combinations",
  [R+"sample.rs",R+"read.rs","src/config.rs"],[("Sample::parse","src/records/sample.rs"),("Registers::parse","src/records/sample.rs"),("Parser::parse_padded","src/parse.rs")])
p("C03","The sample-id trailer is located, sized and decoded consistently",
  "For every configuration the size reserved for the sample-id trailer equals the number of bytes its decoding consumes, it is exactly the last bytes of the record, its fields are present exactly when the sample type selects them and the session requested trailers on all records, and mmap and sample records have none. A record too small to hold the trailer is reported as an invalid record.",
  ["inputs","configurations"],"all sample types, with and without trailers, all record sizes and types",
  "the size computation and the decoder are separate code that must agree on all 64 selector combinations and on every record size",
  [R+"mod.rs","src/parse.rs"],[("SampleId::estimate_len",R+"mod.rs"),("SampleId::parse",R+"mod.rs"),("Parser::parse_metadata_with_header_impl","src/parse.rs")])
p("C04","Every record type reaches its own callback with its own metadata",
  "For every header type value, parsing a record invokes exactly the visitor callback documented for that type, once, with the decoded body and with metadata reporting that header's type, flags and sample id; types the library does not know are delivered as unknown with the complete undecoded body. Parsing into the record enum yields the variant of the same name, and both entry points (with the header still in the stream or already read) agree.",
  ["inputs","configurations"],"all 2^32 type values, all flags, bodies and sources, fast path and slow path",
  "dispatch has two code paths and over twenty arms; tests exercise three",
  ["src/parse.rs","src/visitor.rs",R+"mod.rs"],[("Parser::parse_record_impl","src/parse.rs"),("Parser::parse_record_with_header","src/parse.rs"),("RecordVisitor",R+"mod.rs"),("RecordMetadata::new","src/visitor.rs")])
p("C05","A record consumes exactly its declared size and never reads outside it",
  "Whenever the declared size is at least the header size and the source holds that many bytes, parsing a record advances the source by exactly the declared size whether or not the body was understood or fully used, so the next record starts at the right place; the body decoder sees only the bytes of that record. A declared size smaller than the header is reported as an invalid record, and a source that ends early is reported by the source's own error.",
  ["inputs","histories"],"all headers, sizes, sources and sequences of records",
  "desynchronisation only shows on the record after an odd one: bodies longer or shorter than their decoder, sizes at the boundary, bodies that fail to decode",
  ["src/parse.rs","src/parsebuf.rs"],[("Parser::parse_metadata_with_header_impl","src/parse.rs"),("Parser::split_at","src/parse.rs"),("ParseBufCursor::new","src/parsebuf.rs")])
p("C06","No input can make parsing panic",
  "For every byte string, every configuration built from event attributes and every conforming byte source, no parsing entry point panics: no arithmetic overflow, index, slice, unwrap, expect, assertion or unreachable failure is reachable, whether or not overflow checks are compiled in. The same holds for every accessor of a value obtained from parsing.",
  ["inputs","configurations"],"all inputs, configurations, byte sources and accessors",
  "panics hide behind extreme lengths, empty groups, zero-sized remainders and chunk boundaries that a finite test set or a short fuzz run does not hit",
  ["src/parse.rs","src/parsebuf.rs","src/records/","src/impls/perf_event_attr.rs","src/util/cow.rs"],[("all panic edges of the MIR reachable from the parsing entry points","whole crate")])
p("C07","Unsafe code never exposes uninitialised, out-of-bounds or misaligned data",
  "For every input, configuration and conforming byte source, each unsafe operation is used within its contract: buffers are only declared initialised after every byte was written, raw copies stay inside both buffers, memory is only reinterpreted as integers when the alignment and byte order match and only for types that any bit pattern is valid for, and optional fields are only read or dropped when they were set.",
  ["inputs","configurations"],"all inputs and chunkings, all field combinations",
  "violations are usually silent: the bytes just happen to be there",
  ["src/parse.rs","src/macros.rs",R+"sample.rs"],[("Parser::parse_bytes / parse_to_slice / parse_slice_direct","src/parse.rs"),("option_struct!","src/macros.rs"),("DataSource::bitfield",R+"sample.rs")])
p("C08","Announced lengths cannot force large allocations",
  "For every input, memory reserved ahead of reading is bounded by what the source says it still holds, or by a fixed small amount when it cannot say, and all further growth is matched by bytes actually read; a length field by itself never causes an allocation of that length. This covers byte fields, element arrays and record framing alike.",
  ["inputs"],"all announced lengths up to 2^64-1, all sources with or without a remaining-length hint",
  "the failure needs a hostile length and a source without a hint and shows only as memory use",
  ["src/parse.rs","src/parsebuf.rs"],[("Parser::safe_capacity_bound","src/parse.rs"),("Vec::with_capacity call sites","src/parse.rs"),("ParseBufCursor::new","src/parsebuf.rs")])
p("C09","Parsing always terminates in time proportional to the data read",
  "For every input and conforming byte source each parsing loop makes progress on every iteration: it consumes at least one byte, produces one announced element, or shrinks what is left to inspect, so parsing any finite source ends. No parsing function recurses.",
  ["inputs"],"all inputs and chunkings; every loop and call cycle reachable from parsing",
  "a non-terminating input hangs the test run instead of failing it, and needs a specific chunk split or length to trigger",
  ["src/parse.rs","src/parsebuf.rs"],[("chunk loops","src/parse.rs"),("ParseBufCursor::advance_slow","src/parsebuf.rs")])
p("C10","Results do not depend on how the source is split into chunks",
  "For every byte sequence, every division of it into non-empty chunks, borrowed or temporary, aligned or not, and with or without a remaining-length hint, each parser operation (integers, arrays, byte strings, rest-of-input, element slices, repeated elements) returns the same contents, consumes the same number of bytes and fails in the same cases. Borrowing instead of copying is the only permitted difference.",
  ["inputs","schedules"],"all streams, all chunk divisions, kinds and hints, all requested lengths including zero",
  "fast and slow paths are different code and the slow ones run only at particular chunk boundaries; the space of divisions is exponential",
  ["src/parse.rs","src/parsebuf.rs"],[("parse_array / parse_array_slow","src/parse.rs"),("parse_bytes / parse_bytes_direct / parse_bytes_slow","src/parse.rs"),("parse_rest","src/parse.rs"),("parse_slice / parse_slice_direct / parse_repeated","src/parse.rs")])
p("C11","Multi-byte values are decoded in the configured byte order",
  "For every byte string each built-in byte order decodes 16, 32 and 64 bit integers as that order defines, the dynamic order behaves exactly like the fixed order it names, and an order claims to be native only when its decoding equals the host's. Every multi-byte integer of every record goes through the configured order; raw byte arrays never do.",
  ["inputs","configurations"],"all byte values, all four byte orders",
  "tests run almost only little-endian data on a little-endian host, where most byte-order mistakes are invisible",
  ["src/endian.rs","src/parse.rs"],[("Endian impls","src/endian.rs"),("parse_u16/u32/u64","src/parse.rs")])
p("C12","The parse configuration reproduces the event attributes it was built from",
  "For every event attribute value, the configuration reports the same read format, sample type and register masks and honours the same trailer and branch-index settings, with unsupported read-format bits kept visible as unsupported rather than dropped; changing one component (header flags, sample type, read format, byte order) leaves every other component unchanged, and no value of one component leaks into another. The default configuration is that of all-zero attributes, a copy is the same configuration, and the header flags a configuration took over from one record never influence how a later record is laid out.",
  ["inputs","configurations"],"all 64-bit read formats, sample types, masks and 16-bit flags, and sequences of updates",
  "the components share one packed word; a width or shift mistake only corrupts specific bit combinations",
  ["src/config.rs"],[("ConfigFlags","src/config.rs"),("RawParseConfig::from","src/config.rs")])
p("C13","Errors carry the documented kind and pass the source's error through",
  "For every failure, an error coming from the byte source reaches the caller as the source produced it, running out of data in built-in sources is reported as end of input, malformed contents as an invalid record, and unsupported configuration or data as such. No failure is turned into success and no source error other than end of input is swallowed.",
  ["inputs","fault_sequences"],"all failing inputs, all error kinds and positions at which a source can fail",
  "tests never inject source failures, and the error kind depends on which of many checks fires first",
  ["src/error.rs","src/parse.rs",R+"read.rs","src/impls/perf_event_attr.rs"],[("ParseError constructors","src/error.rs"),("error exits of the parser","src/parse.rs")])
p("C14","Counter values and groups decode per read format or are rejected",
  "For every read format and byte string, a single counter value and a counter group decode to exactly the fields the read format selects, at the ABI positions, with the announced number of group entries; a read format with unsupported bits, or whose group bit does not match the requested shape, is rejected as an unsupported configuration before anything is consumed, and an entry count too large to represent is an invalid record.",
  ["inputs","configurations"],"all read formats, all contents and entry counts",
  "32 format combinations times two shapes times data-dependent counts; tests cover one",
  [R+"read.rs","src/flags.rs"],[("ReadValue::parse / ReadGroup::parse",R+"read.rs"),("ReadFormat::element_len","src/flags.rs")])
p("C15","Group accessors, iteration and conversions agree with the group's contents",
  "For every counter group, its length, emptiness, indexed and by-id lookup, forward and backward iteration, skipping, last and size hints all describe the same sequence of entries, each entry reporting an optional field exactly when the read format selects it. Converting a single value to a group and back, or picking an entry out of a group, preserves every reported field, and only single-entry groups convert to a value.",
  ["inputs","configurations"],"all groups, indices, ids and read formats",
  "agreement of nine entry points over all formats and lengths is a relational property",
  [R+"read.rs"],[("ReadGroup / GroupIter / GroupEntry",R+"read.rs"),("From<ReadValue> / TryFrom<ReadGroup>",R+"read.rs")])
p("C16","Serialized event attributes are decoded for every structure version",
  "For every declared structure size, decoding event attributes accepts exactly the published sizes and anything larger than the newest supported one, fills exactly the fields that size includes at their ABI offsets and leaves the others zero, and consumes exactly the declared size. A larger structure is accepted only if all bytes beyond the known fields are zero and is otherwise reported as unsupported data.",
  ["inputs"],"all sizes and contents",
  "nine versions plus future ones with a data-dependent tail check; there is no test",
  ["src/impls/perf_event_attr.rs"],[("perf_event_attr parse","src/impls/perf_event_attr.rs")])
p("C17","Optional-field containers report exactly what was stored",
  "For every subset of present fields, a sample or sample id reports exactly the stored values for present fields and nothing for absent ones, its copy reports the same, a default one reports nothing, and a sample id extracted from a sample reports that sample's own values; every stored value that owns memory is released exactly once.",
  ["inputs","configurations"],"all field subsets and values, clones, defaults and drops",
  "presence bits and uninitialised storage must agree for all subsets; a mismatch is undefined behaviour rather than a test failure",
  ["src/macros.rs",R+"sample.rs",R+"mod.rs"],[("option_struct!","src/macros.rs"),("SampleId::from_sample",R+"mod.rs")])
p("C18","Ownership and type conversions preserve record contents",
  "Converting a record to its owned form, to the record enum or from the extended to the plain mmap form preserves every field, for every record value; OS-string and path views expose exactly the stored bytes.",
  ["inputs"],"all record values, borrowed or owned",
  "functional-update conversions silently keep or drop fields and no test calls them",
  [R+f for f in ["mmap.rs","mmap2.rs","comm.rs","ksymbol.rs","cgroup.rs","text_poke.rs","read.rs","mod.rs"]],[("into_owned / into_mmap / to_mmap / From impls","src/records/*.rs")])
p("C19","Decoded flags, bit fields and indices follow the kernel's definitions",
  "For every raw value, every accessor that picks a bit field, a sub-value or an indexed entry out of decoded data (branch entries, memory data sources, auxiliary flags, transaction codes, namespaces) returns exactly the bits or entry the kernel ABI assigns to that name, all bits of flag words are preserved by parsing, and every named flag and enumeration constant has its ABI value.",
  ["inputs"],"all 64-bit raw values, all named constants",
  "no test reads these accessors; adjacent bit fields with small values hide shift and mask mistakes",
  [R+"sample.rs",R+"aux_record.rs",R+"namespaces.rs",R+"ksymbol.rs",R+"bpf_event.rs","src/flags.rs"],[("BranchEntry / DataSource / Txn / AuxFlags / Namespaces accessors","src/records/"),("bitflags! and c_enum! tables","src/flags.rs, src/records/")])
p("C20","Visitor callbacks that are not overridden fall back as documented",
  "For every record, a visitor that does not override the callback for its type receives the fallback callback with that record's metadata, except that an unhandled extended mmap record is delivered as a plain mmap record with the same contents.",
  ["inputs","programs"],"all records and all subsets of overridden callbacks",
  "depends on the set of overridden callbacks, which tests fix",
  ["src/visitor.rs"],[("Visitor default methods","src/visitor.rs")])
p("C21","Built-in byte sources honour the source contract",
  "Every built-in byte source (byte slice, buffered reader and the library's own bounded views) never yields an empty chunk, keeps yielding the same bytes until advanced past them, moves forward by exactly the requested amount, reports a remaining length only if it is exact at every moment, and reports end of input exactly when nothing is left.",
  ["inputs","histories"],"all contents, chunk lists and sequences of chunk and advance calls",
  "a hint or offset that drifts only after several advances across chunk boundaries is invisible to single-step tests",
  ["src/parsebuf.rs"],[("ParseBuf impls","src/parsebuf.rs"),("ParseBufCursor","src/parsebuf.rs"),("TrackingParseBuf","src/parsebuf.rs")])
p("C22","Borrowed results cannot outlive the input and types stay thread-safe",
  "No safe program can obtain from parsing a reference that outlives the source data or that aliases data a later read may overwrite, and every record, error and configuration type can be sent to and shared between threads and, where documented, cloned.",
  ["programs"],"all client programs accepted by the compiler",
  "it is a statement about programs that must not compile; a test suite only contains programs that do",
  ["src/parse.rs","src/parsebuf.rs",R+"mod.rs"],[("public signatures of Parser and ParseBuf","src/parse.rs, src/parsebuf.rs")])
p("C23","Debug and error text reflect the value",
  "For every decoded record, sample, counter value, group entry, register set and data source, debug output is one structure that names each field it shows once, shows optional fields exactly when the value has them, and gives every field that is an integer, flag set, byte string or array this field's own value; the text of an error is the text of its kind (different for each kind, omitted for external errors that have a source) followed, set apart, by the text of its source, once, exactly when there is one.",
  ["inputs"],"all record and error values, all combinations of optional fields",
  "formatting is not tested at all, and with 25 optional fields a wrong condition or value shows only in particular combinations",
  ["src/error.rs","src/macros.rs",R+"mod.rs",R+"read.rs",R+"sample.rs",R+"mmap2.rs"],[("Debug impls and debug_if! / option_struct!","src/records/*.rs, src/macros.rs"),("Display for ParseError","src/error.rs")])
p("C24","Byte strings and addresses are rendered losslessly",
  "For every byte string, the quoted rendering used in debug output determines the bytes uniquely (valid UTF-8 parts escaped as characters, invalid bytes as escapes, nothing dropped or repeated), and the hexadecimal rendering of a build ID shows two digits per byte, in order.",
  ["inputs"],"all byte strings",
  "renderings differ only for particular byte values and places where UTF-8 is invalid",
  ["src/util/fmt.rs"],[("ByteStr / HexStr / HexAddr","src/util/fmt.rs")])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
