#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
R='flatgeobuf/file_reader.go'; W='flatgeobuf/file_writer.go'; T='packedrtree/packedrtree.go'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Files round-trip: what the writer is given is what the reader returns",
 "A header and any sequence of features written with the file writer (one by one, or with an index it builds from the features, or with a prebuilt index) are returned by the file reader unchanged and in the order they were written (for an index the writer builds itself: in the order of that index's leaves, which is the order it writes them in), together with an equivalent index. This holds for known and unknown feature counts, every legal index node size including no index, features with nested or missing geometry, properties and columns of any size, and however the caller batches its reads. It holds for every legal way the underlying streams split or combine transfers (short reads, empty reads, data delivered together with end-of-file, seekable or not), and for files that start at any position of a larger stream.",
 ["inputs","schedules","configurations"],
 "All headers, features, feature counts, node sizes, write methods, read batchings and all io.Reader/io.Writer-legal transfer schedules.",
 "No existing test writes a file at all, and the reader tests read a few fixed sample files from regular os.File handles; transfer schedules, sizes and batchings are never varied.",
 [W,R,"flatgeobuf/flatbuffers.go","flatgeobuf/flat/Feature.go","flatgeobuf/flat/Header.go",T],
 [("size-prefixed table writing","flatgeobuf/flatbuffers.go writeSizePrefixedTable"),("feature framing","flatgeobuf/file_reader.go readFeature"),("batch loop","flatgeobuf/file_reader.go Data, DataRem")],
 obs=["FileWriter.Header/Index/IndexData/IndexDataPtr/Data","FileReader.Header/Index/Data/DataRem"])

p("C02","Written files have exactly the FlatGeobuf v3 byte layout",
 "A completed write sequence produces exactly the 8-byte signature, the size-prefixed header, the optional packed R-tree and the size-prefixed features of the FlatGeobuf v3 layout, with no other byte before, between or after. In the index, nodes are 40-byte little-endian records stored from the root level down to the leaves; each internal node carries the exact union of its children's boxes and the number of its first child, and there is exactly one leaf per feature carrying the exact bounding box of all that feature's coordinates (nested parts included) and the feature's byte offset in the data section; an index the writer builds itself lists its leaves in the order of the features in the data section. This holds for whichever write method was used and regardless of rejected or failed-and-retried calls in between.",
 ["inputs","histories","fault_sequences"],
 "All feature sets, node sizes, write methods, and all histories with rejected calls or failed zero-byte writes interleaved.",
 "Existing tests compare only the Hilbert order of sample files' leaves; none checks bytes produced by the writer, and none injects a failed write.",
 [W,"flatgeobuf/spec.go","flatgeobuf/flatbuffers.go",T,"packedrtree/box.go","packedrtree/native_littleendian.go"],
 [("index construction","packedrtree/packedrtree.go New"),("feature bounds and offsets","flatgeobuf/file_writer.go IndexDataPtr, featureBounds"),("node serialisation","packedrtree/packedrtree.go Marshal")],
 obs=["bytes accepted by the io.Writer"])

p("C03","File index search returns exactly the intersecting features",
 "A bounding-box search on an indexed file returns exactly the features whose bounding box intersects the query box (boxes that only touch do intersect), each exactly once, in the order they appear in the file, with unchanged content. The answer is the same on seekable and non-seekable streams, whether the index is streamed or was already loaded, after any sequence of earlier reads, searches and rewinds, wherever the file starts in the stream, and for every legal way the stream splits transfers. A file without an index reports that there is none and its features stay readable sequentially.",
 ["inputs","histories","schedules"],
 "All indexed files (including ones whose leaf order differs from data order), query boxes, prior call histories, stream kinds and transfer schedules.",
 "The only existing file search example needs a sample file that is not in the repository; seekable vs. non-seekable, cached vs. streamed and post-rewind searches are untested.",
 [R,T,"packedrtree/box.go"],
 [("search and feature collection","flatgeobuf/file_reader.go IndexSearch"),("streaming search","packedrtree/packedrtree.go Seek"),("skip over unwanted features","flatgeobuf/file_reader.go discard")],
 state=[("index cache and saved offsets","decide which search path is used and where it seeks","flatgeobuf/file_reader.go FileReader")],
 obs=["FileReader.IndexSearch"])

p("C04","Streaming index search equals brute force and lands at the index end",
 "Searching a serialized R-tree directly on a seekable stream returns exactly the references whose boxes intersect the query box, each exactly once, in the order of the index's leaves and with the offset and leaf position of each; searching the same tree in memory (built or deserialized) returns the same set. After a successful streaming search the stream is positioned at the first byte after the index, wherever in the stream the index begins. This holds for every reference list, node size, query box and every legal way the stream splits transfers.",
 ["inputs","schedules"],
 "All reference lists (any Offset values, Hilbert-sorted), node sizes, queries, stream start offsets and transfer schedules.",
 "Existing tests search small diagonal arrangements in memory; streaming search is exercised on four references from offset zero with whole-buffer reads only.",
 [T,"packedrtree/box.go","packedrtree/hilbert.go"],
 [("generic tree search","packedrtree/packedrtree.go search"),("node fetching","packedrtree/packedrtree.go Seek, readLittleEndianNodes"),("box intersection","packedrtree/box.go intersects")],
 obs=["packedrtree.Seek","PackedRTree.Search"],
 )

p("C05","Index serialization is lossless, exactly sized and stream-exact",
 "Serializing an R-tree writes exactly the number of bytes given by the size calculation for its reference count and node size and returns that number; deserializing reads exactly that many bytes and no more, and yields a tree with the same bounds, reference count, node size and search results, which serializes again to identical bytes. If the destination accepts only part of the index, the returned byte count is exactly what it accepted and its error is returned. If the source ends early or fails, deserialization returns an error that preserves the cause and no tree.",
 ["inputs","fault_sequences","schedules"],
 "All trees, all transfer schedules, all truncation points and all read/write failure points.",
 "Existing tests round-trip a handful of small trees through bytes.Buffer and inject one immediate read failure.",
 [T,"packedrtree/native_littleendian.go","packedrtree/native_bigendian.go"],
 [("Marshal","packedrtree/packedrtree.go Marshal"),("Unmarshal","packedrtree/packedrtree.go Unmarshal"),("Size","packedrtree/packedrtree.go size, levelify")],
 obs=["PackedRTree.Marshal","packedrtree.Unmarshal","packedrtree.Size"])

p("C06","A reader behaves like a cursor over the file for every call history",
 "For every sequence of reader calls, sequential reads continue exactly after the last feature returned, end-of-data is signalled never before the last feature, together with it when the count is declared, and again whenever asked afterwards, and a zero-length read consumes nothing. Calls made out of order (before the header, the header twice, the index after it was passed) return an error, read nothing, and leave later results unaffected. On a seekable stream a rewind makes the file readable and searchable again from just after the header any number of times, with or without an index; on other streams rewinding returns an error and changes nothing.",
 ["histories","inputs","schedules"],
 "All finite sequences of Header, Index, IndexSearch, Data (any batch size), DataRem, Rewind, Close over all files and stream kinds.",
 "Existing tests make one fixed short call sequence per sample file; no test calls Rewind, mixes searches with reads, or makes a call out of order.",
 [R,"flatgeobuf/stateful.go"],
 [("reader state machine","flatgeobuf/stateful.go toState"),("saved index and data offsets","flatgeobuf/file_reader.go saveGenericOffset"),("index skipping","flatgeobuf/file_reader.go skipIndex")],
 state=[("reader state","position within the file's sections","flatgeobuf/stateful.go"),("featureIndex/featureOffset","next feature to read","flatgeobuf/file_reader.go")],
 obs=["every FileReader method"])

p("C07","A writer enforces order and counts for every call history",
 "For every sequence of writer calls, the bytes on the stream are always a prefix of one valid file: header first and only once, the index exactly once and only if the header announces one, then features, and never more features than a non-zero declared count. A call that is rejected - because it is out of order, disagrees with the header's feature count or node size, or is handed something that is not a complete size-prefixed table - returns an error, writes nothing and leaves the writer usable. Closing reports an error if fewer features were written than the header declared, and every successful call reports exactly the number of bytes it put on the stream.",
 ["histories","inputs"],
 "All finite sequences of Header, Index, IndexData, IndexDataPtr, Data, Close with valid and invalid arguments.",
 "The writer has no tests at all.",
 [W,"flatgeobuf/stateful.go","flatgeobuf/flatbuffers.go"],
 [("writer state machine","flatgeobuf/file_writer.go canWriteIndex, canWriteData"),("count and node-size agreement","flatgeobuf/file_writer.go index"),("truncation report","flatgeobuf/file_writer.go Close")],
 state=[("featureIndex vs numFeatures","features written so far","flatgeobuf/file_writer.go")],
 obs=["every FileWriter method","bytes accepted by the io.Writer"])

p("C08","Write failures are reported exactly and never corrupt the file further",
 "When the underlying stream fails a write (at any byte, with any part of the data accepted), the writer call in progress returns an error that preserves the cause, and the byte counts returned by all calls add up to exactly the bytes the stream accepted. After a failure that left a piece partly written, no later call adds any byte and every later call fails; after a feature write of which nothing was accepted, writing can be retried and then completes to exactly the file an error-free run produces. At every moment the stream holds a prefix of that file.",
 ["fault_sequences","histories","crash_points"],
 "All write-failure points, partial-acceptance amounts, transient and permanent failures, full devices, over all write histories.",
 "No test injects a write failure into the file writer.",
 [W,"flatgeobuf/stateful.go","flatgeobuf/flatbuffers.go",T],
 [("sticky error state","flatgeobuf/stateful.go toErr"),("torn-feature detection","flatgeobuf/file_writer.go Data"),("byte accounting","flatgeobuf/file_writer.go")],
 obs=["FileWriter return values","bytes accepted by the io.Writer"])

p("C09","Read failures surface, stay, and never turn into wrong data",
 "If the underlying stream fails a read or a seek at any point, the reader call in progress returns an error that preserves the cause - never success, never plain end-of-file, never a changed or skipped feature - and features it reports as delivered before the failure are correct. After such a failure every later read, search, index or rewind call on that reader also fails and does not touch the stream. Streaming index search and index deserialization report stream failures in the same way.",
 ["fault_sequences","histories"],
 "All positions and kinds of read and seek failures (transient, permanent, with or without partial data), over all call histories.",
 "No file reader test injects a failure; index tests inject three fixed ones.",
 [R,T,"flatgeobuf/stateful.go"],
 [("sticky error state","flatgeobuf/stateful.go toErr"),("error wrapping","flatgeobuf/errors.go wrapErr")],
 obs=["FileReader return values","calls made on the underlying stream"])

p("C10","A file cut short at any byte is never mistaken for a complete one",
 "If a file is cut at any byte (crash or torn write of the producer), reading the remainder returns exactly the features completely contained in it, in order and unchanged, and then reports an error that is distinguishable from a normal end of data; searches return either the same features as on the full file or an error. When the header declares an unknown feature count, a cut exactly between two features is the only one that may read as a normal end of data. No cut makes any call panic or hang.",
 ["crash_points","inputs","schedules"],
 "All truncation points of all files, on seekable and non-seekable streams, with every read batching and transfer schedule.",
 "No test reads a truncated file.",
 [R,"flatgeobuf/spec.go",T],
 [("end-of-data detection","flatgeobuf/file_reader.go readFeature, Data"),("index skipping","flatgeobuf/file_reader.go skipIndex, discard")],
 obs=["FileReader return values"])

p("C11","Damaged input never panics, hangs, or demands unbounded memory",
 "For arbitrarily damaged input (flipped, overwritten, inserted or deleted bytes anywhere in a file, a serialized index or a property block), every reader, index, property-reading and summary call returns normally within a number of stream operations bounded by the input, with a result or an error - it does not panic or loop. The memory requested is bounded by the size of the input actually present plus a fixed allowance, no matter which counts and lengths the damaged input claims. The same holds for calls made after an error on the same reader. A search that succeeds on a damaged index returns only features lying at the offsets the index gives.",
 ["fault_sequences","inputs","histories"],
 "All byte-level damage to all valid files, indexes and property blocks, over all call histories on the damaged input.",
 "No test reads damaged input; sample files are all well-formed.",
 [R,T,"flatgeobuf/prop_reader.go","flatgeobuf/flatbuffers.go","flatgeobuf/stringers.go","flatgeobuf/spec.go"],
 [("panic trapping","flatgeobuf/flatbuffers.go safeFlatBuffersInteraction"),("header length limit","flatgeobuf/spec.go headerMaxLen"),("index size overflow checks","packedrtree/packedrtree.go size")],
 obs=["panics, stream operation counts and allocation totals of every call"])

p("C12","Closing is final, releases the stream once, and reports its error",
 "Closing a reader or writer at any point of any history closes the underlying stream exactly once if it can be closed, and returns the stream's close error if there is one. From then on every call, a second close included, returns the closed error, touches the stream in no way, and features, headers and indexes obtained earlier remain valid. Dropping or failing calls never close the stream on their own.",
 ["histories","fault_sequences","crash_points"],
 "All points in all reader and writer histories (including after failures) at which close may be called, with closable, failing-to-close and non-closable streams.",
 "No test closes a reader or writer and then uses it, or checks how often the stream was closed.",
 ["flatgeobuf/stateful.go",R,W],
 [("close","flatgeobuf/stateful.go close"),("Close","flatgeobuf/file_writer.go Close")],
 obs=["FileReader.Close","FileWriter.Close","io.Closer calls"])

p("C13","Property values of every type round-trip over any stream",
 "Every property value written with the property writer is read back with the matching read call as the same value, over the full range of every type and for strings and binaries of any length including empty; each value occupies exactly its little-endian FlatGeobuf encoding (strings and binaries prefixed by a 4-byte length). Decoding a property block with a schema (a header's or a feature's columns) returns every entry in order with its column index, column definition, type and value. This holds for every legal way the streams split transfers.",
 ["inputs","schedules"],
 "All values of all 15 column types, all schemas and blocks, all transfer schedules.",
 "No test reads or writes property values except two text summaries of sample files with small values.",
 ["flatgeobuf/prop_reader.go","flatgeobuf/prop_writer.go","flatgeobuf/schema.go","flatgeobuf/flat/Column.go"],
 [("value encodings","flatgeobuf/prop_writer.go"),("value decodings","flatgeobuf/prop_reader.go"),("schema-driven decoding","flatgeobuf/prop_reader.go ReadSchema")],
 obs=["PropWriter.*","PropReader.*"])

p("C14","Property I/O failures and truncation are always reported",
 "If the stream under a property reader fails or ends inside a value, the read returns an error and never a made-up or default value as success; schema-driven decoding reports an error whenever the block ends anywhere but between two entries, names a column the schema does not have, or the stream fails. If the stream under a property writer fails, the write returns that error and the byte count it returns is exactly what the stream accepted. A block that ends between two entries is a normal end.",
 ["fault_sequences","crash_points","inputs"],
 "All truncation points, read and write failure points and kinds, over all property blocks, schemas and value sequences.",
 "No test injects failures into, or truncates, property data.",
 ["flatgeobuf/prop_reader.go","flatgeobuf/prop_writer.go"],
 [("full reads","flatgeobuf/prop_reader.go"),("ReadSchema error handling","flatgeobuf/prop_reader.go ReadSchema"),("length-then-bytes write","flatgeobuf/prop_writer.go WriteBinary")],
 obs=["PropReader.*","PropWriter.*"])

p("C15","Concurrent use of one in-memory index is safe and gives isolated answers",
 "Any number of goroutines may search, query the bounds and counts of, print and serialize the same in-memory R-tree at the same time, whatever the interleaving: there is no data race, each search returns exactly the answer a lone search would, and each serialization is byte-identical. Features and headers already returned by a reader may likewise be inspected concurrently. No such operation changes the tree.",
 ["schedules","inputs"],
 "All interleavings of read-only operations of several goroutines on one shared tree (built or deserialized) and on shared features and headers.",
 "All existing tests are single-goroutine.",
 [T,"packedrtree/box.go","flatgeobuf/stringers.go"],
 [("per-call search state","packedrtree/packedrtree.go search"),("read-only node storage","packedrtree/packedrtree.go PackedRTree")],
 obs=["PackedRTree.Search/Bounds/NumRefs/NodeSize/String/Marshal from several goroutines"],
 hook="packedrtree search loop: yield point under build tag verif")

p("C16","Separate readers, writers and searches never influence one another",
 "Any number of readers, writers, index builds, searches and property codecs working on different streams give the same results, produce the same bytes and consume the same input when their operations are interleaved in any way - including in the middle of a call, at any stream operation, or on different goroutines - as each gives when run alone. A failure or close of one never affects another. There is no data race between them.",
 ["schedules","histories","fault_sequences"],
 "All interleavings, at stream-operation granularity, of several instances' histories, with faults in some of them.",
 "All existing tests use one instance at a time from one goroutine.",
 [R,W,T,"packedrtree/hilbert.go","flatgeobuf/prop_reader.go","flatgeobuf/prop_writer.go"],
 [("per-instance state, no package-level mutable state","flatgeobuf/file_reader.go, flatgeobuf/file_writer.go")],
 obs=["results of every instance compared to a solo run"],
 hook=None)

p("C17","Reading consumes exactly the bytes of what it returns",
 "Checking the magic number consumes exactly 8 bytes (or all, if there are fewer); reading the header, the index or the next features leaves the stream exactly at the first byte after the last item returned, and never requests bytes beyond the section or feature in progress. Consequently several files, or a file followed by other data, can be read back to back from one stream, seekable or not, when feature counts are declared. Each property read likewise consumes exactly its value's encoding.",
 ["inputs","histories","schedules"],
 "All files and call histories, all batch sizes and transfer schedules, on streams with arbitrary data before and after the file.",
 "No test looks at the stream position after a call except for the magic number.",
 [R,"flatgeobuf/spec.go","flatgeobuf/prop_reader.go",T],
 [("exact-length reads","flatgeobuf/file_reader.go Header, readFeature"),("Magic","flatgeobuf/spec.go Magic"),("index end positioning","packedrtree/packedrtree.go Seek, Unmarshal")],
 obs=["position of and bytes requested from the io.Reader"])

p("C18","Streaming makes progress: nothing waits for bytes it does not need",
 "When a file is produced and consumed through a slow or stalling non-seekable stream, each header, index or feature is returned as soon as its own bytes have arrived, however the arrivals are cut and delayed, without waiting for a later byte or for the producer to finish. On the producing side every byte of an item has been handed to the stream when the call that writes it returns. Once stalls stop, producer and consumer both finish within a number of stream operations bounded by the amount of data.",
 ["schedules","fault_sequences"],
 "All interleavings of a producer and a consumer over a bounded pipe, all arrival delays, stalls and buffer sizes.",
 "No test connects a writer and a reader, or uses a stream that delivers data late.",
 [R,W,"flatgeobuf/flatbuffers.go",T],
 [("unbuffered reads","flatgeobuf/file_reader.go readFeature"),("unbuffered writes","flatgeobuf/flatbuffers.go writeSizePrefixedTable")],
 obs=["blocking of FileReader and FileWriter calls on a simulated pipe"])

p("C19","Returned values are independent snapshots and arguments are left alone",
 "Headers, features, indexes and search results returned by any call keep their content whatever is called later (more reads, searches, rewinds, close) and whatever the caller does with other returned values or with buffers it passed in; modifying a returned feature or result list changes no later answer. Features, references and boxes passed to a writer or index constructor are neither modified (other than the documented in-place reordering by the sort itself) nor needed after the call returns. Bytes once returned to the caller are never changed later.",
 ["histories","inputs"],
 "All call histories with the caller mutating arguments after calls and returned values between calls.",
 "No test keeps a returned value across later calls, or mutates arguments.",
 [R,W,T,"flatgeobuf/prop_reader.go","flatgeobuf/prop_writer.go"],
 [("fresh buffer per feature","flatgeobuf/file_reader.go readFeature"),("copied leaves","packedrtree/packedrtree.go New"),("string aliasing via unsafe","flatgeobuf/prop_reader.go ReadString")],
 obs=["all returned values re-examined after every later call"])

p("C20","Only streams with a valid FlatGeobuf v3 preamble are accepted",
 "The magic check accepts a stream exactly if its first 8 bytes are the FlatGeobuf signature with any major and patch version bytes, and reports those two versions; the reader accepts only major version 3 with any patch version. Reading a header fails for a wrong signature or version, a header length that is too small or above the 32 MiB limit, an index node size of 1, a feature count beyond the platform's integer range, or a stream that ends or fails before the header is complete - whatever the rest of the stream holds and however it is delivered. After any such failure the reader never delivers a feature.",
 ["inputs","fault_sequences","schedules"],
 "All damage to the preamble and header fields, all truncations within them, all transfer schedules, followed by any calls.",
 "Tests read the magic number of one sample file and never an invalid preamble.",
 ["flatgeobuf/spec.go",R],
 [("signature comparison","flatgeobuf/spec.go Magic"),("header validation","flatgeobuf/file_reader.go Header")],
 obs=["Magic","FileReader.Header and later calls"])

p("C21","References are Hilbert-sorted like the reference implementations",
 "Sorting references orders them by descending position of their box centres on the order-16 Hilbert curve over the given bounds, exactly as other FlatGeobuf implementations do, and is a permutation of its input.",
 ["inputs"],"All reference lists and bounds.",
 "Tests compare a grid of fixed points and sample files.",
 ["packedrtree/hilbert.go"],[("curve index","packedrtree/hilbert.go hilbertOfXY, hilbertOfCenter")],obs=["packedrtree.HilbertSort"])
p("C22","Index size arithmetic is exact or reports overflow",
 "The size calculation returns the exact serialized size for every reference count and node size, or an overflow error, never a wrapped value.",
 ["inputs"],"All reference counts and node sizes.","Tests use a table of examples.",
 [T],[("size","packedrtree/packedrtree.go size, totalNodes")],obs=["packedrtree.Size"])
p("C23","Text summaries reflect the object summarised",
 "The text summaries of headers, features, boxes, references and trees show the values of the object they summarise.",
 ["inputs"],"All headers, features, boxes, references and trees.","Examples check a few sample files' summaries.",
 ["flatgeobuf/stringers.go","packedrtree/box.go"],[("stringers","flatgeobuf/stringers.go")],obs=["HeaderString","FeatureString","String methods"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
except ImportError:
    raise SystemExit(0)
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P),"properties")
