#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

add("C01", "Node index returns exactly the source location of every node",
 "For every valid PBF whose node ids ascend (from id 1 up), the node index built from it answers each node id in the file with that node's longitude and latitude in units of 1e-7 degree, computed from the block's granularity and offsets (truncated toward zero when finer than 1e-7). It answers not-found for every id that is not in the file, including ids inside gaps the index fills and ids just outside every range.",
 ["inputs", "configurations"], "every id/gap/block/group layout, coordinate, granularity, offset, compression, worker count and entity mix",
 "No test builds a node index at all; id spacing, block boundaries, granularity and offsets are unbounded input dimensions.",
 ["cmd/nodeindex/indexer/nodeindexer_worker.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "internal/nodeindex/nodeindex.go", "internal/nodeindex/nodesubindex.go", "internal/nodeindex/index_element.go", "internal/t/dense_nodes.go"],
 [("range building with one-id gap filling", "cmd/nodeindex/indexer/nodeindexer_worker.go:Worker"), ("offset accumulation", "cmd/nodeindex/indexer/nodeindexer_writer.go:Output"), ("binary search", "internal/nodeindex/nodesubindex.go:findNodeActual")],
 ["nodeindex CLI output file", "dumpnodeindex -p -s", "lookup API"],
 [("index element", "first id, count and location offset of an id range", "internal/nodeindex/index_element.go")])

add("C02", "Splitting a node index into passes partitions it and hints never matter",
 "For every node index and every number of passes, each indexed node is found, with its correct location, in exactly one pass, and any id not indexed is found in none; indexes that are empty, have fewer locations than passes, or hold most locations in one range included. The answer to a lookup is the same for every valid lookup hint, including one returned by any earlier lookup in that pass.",
 ["inputs", "histories", "configurations"], "every index content, pass count, lookup sequence and hint",
 "The lookup and the pass splitting have no tests; failures depend on the arithmetic relation between range sizes and pass count.",
 ["internal/nodeindex/nodeindex.go", "internal/nodeindex/nodesubindex.go"],
 [("SubIndex split by location count", "internal/nodeindex/nodeindex.go:SubIndex"), ("hint shortcut", "internal/nodeindex/nodesubindex.go:findNodeActual")],
 ["sub-index lookup results", "dumpnodeindex --sub-index-index/--sub-index-count"],
 [("hint", "element position of the previous hit", "internal/nodeindex/nodesubindex.go")])

add("C03", "Index files follow their documented binary layout exactly",
 "Every node, way and relation index file the tools write can be decoded by a reader written only from ENCODING.md, with every byte of the file accounted for. Node index: version 1 header, element count, elements in ascending non-overlapping id order with contiguous offsets, each location 0 or a negative 64-bit little-endian value; way index: element count and alignment shift, elements in file order whose 31-bit id and 33-bit block offset address blocks that start on the alignment boundary and hold zero-terminated delta varints padded with zero bytes to the boundary; relation index: id, way count, and per way its id (positive), location count and locations.",
 ["inputs", "configurations"], "every valid PBF, alignment, worker count and pass count",
 "No test reads or writes an index file; external consumers (a patched osm2pgsql) depend on the layout byte for byte.",
 ["ENCODING.md", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_worker.go", "cmd/relindex/relindex.go"],
 [("header patched last", "cmd/*/..._writer.go:Output"), ("padToAlignment", "cmd/wayindex/wayindexer/wayindexer_worker.go")],
 ["the .nodeidx/.wayidx/.relidx files"])

add("C04", "Rewriting nodes replaces known way refs only and preserves all else",
 "For every PBF and node index, rewritenodes outputs a valid PBF in which each way's ref list has the same length and order, each ref whose node is in the index is replaced by that node's encoded location, and every other ref (unknown node or already-converted negative location) is unchanged. Way ids and tags, nodes, relations, string tables, block coordinate parameters, header blocks and the order of blocks and entities are preserved exactly, and blocks without ways are copied byte for byte.",
 ["inputs", "configurations"], "every PBF content and block layout, every subset of nodes present in the index, ways of up to the OSM limit of 2000 refs anywhere on the globe, worker count",
 "No test runs the rewriter; correctness depends on ref order, hint state carried between ways, and mixed blocks.",
 ["cmd/rewritenodes/rewriter/noderewriter_worker.go", "cmd/rewritenodes/rewriter/noderewriter_writer.go", "internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/t/way.go"],
 [("in-place ref replacement", "cmd/rewritenodes/rewriter/noderewriter_worker.go:Worker"), ("raw pass-through of undecoded parts", "internal/t/primitive_group.go")],
 ["rewritenodes output PBF"])

add("C05", "Memory-limited node rewriting gives the same result as unlimited",
 "For every input and node index, running rewritenodes under any memory target, and so in any number of passes, produces an output byte-identical to the single-pass output. Ref resolution is complete after the last pass no matter how passes divide the index, and no intermediate pass file remains afterwards.",
 ["inputs", "configurations", "histories"], "every PBF, index size and memory target / number of passes, including converted refs met again by later passes",
 "Multi-pass runs need an index above one megabyte; the tests have none.",
 ["cmd/rewritenodes/rewritenodes.go", "cmd/rewritenodes/rewriter/noderewriter_worker.go", "internal/nodeindex/nodeindex.go"],
 [("pass loop and intermediate files", "cmd/rewritenodes/rewritenodes.go:main"), ("negative refs pass through", "cmd/rewritenodes/rewriter/noderewriter_worker.go")],
 ["rewritenodes output PBF and its directory"])

add("C06", "Way index returns every way's refs with repeats collapsed",
 "For every PBF with ascending way ids below 2^31 and every alignment, the way index answers each way id in the file with that way's ref list in order, in which only runs of equal consecutive refs are collapsed to one, and answers not-found for every other id. This holds for every valid lookup hint and every number of passes over the index: a way is found with those refs in at least one pass and never with different refs.",
 ["inputs", "configurations", "histories"], "every way id set, ref list (64-bit ids or encoded locations, arbitrary jumps), alignment, hint, pass count, lookup sequence",
 "No test builds or reads a way index; delta/terminator encoding and alignment arithmetic depend on data values.",
 ["cmd/wayindex/wayindexer/wayindexer_worker.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "internal/wayindex/wayindex.go", "internal/wayindex/subindex.go", "internal/pb/64.go"],
 [("duplicate collapse then zero-terminated deltas", "cmd/wayindex/wayindexer/wayindexer_worker.go"), ("block offset rebasing", "cmd/wayindex/wayindexer/wayindexer_writer.go"), ("binary search with hint", "internal/wayindex/subindex.go")],
 ["wayindex CLI output", "lookup API"])

add("C07", "Relation index lists every relation's member ways with their locations",
 "For every PBF and way index, the relation index holds every relation of the PBF once, in file order, each followed by exactly its members of type way, in member order and with repeats kept. Each member way carries the location list the way index holds for it, or an empty list if the way index does not have it; node and relation members are omitted.",
 ["inputs", "configurations"], "every mix of member types, relations without way members, ways missing from the index, PBFs without relations, empty way indexes, outputs far larger than the write buffer",
 "relindex has no tests.",
 ["cmd/relindex/relindex.go", "cmd/relindex/relindexerinit/relindexer_worker.go", "cmd/relindex/relindexerinit/relindexer_writer.go"],
 [("member extraction", "cmd/relindex/relindexerinit/relindexer_worker.go"), ("location substitution", "cmd/relindex/relindex.go:rewrite")],
 [".relidx file"])

add("C08", "Relation index does not depend on the number of passes",
 "For every input and every number of passes of at least one, relindex exits successfully and writes a relation index byte-identical to the one written with a single pass. No intermediate pass file remains afterwards.",
 ["inputs", "configurations"], "every PBF, way index and pass count, including more passes than ways",
 "Pass boundaries depend on location sizes; no test runs relindex.",
 ["cmd/relindex/relindex.go", "internal/wayindex/wayindex.go"],
 [("negative way id marks unresolved", "cmd/relindex/relindex.go:rewrite"), ("scaled pass split", "internal/wayindex/wayindex.go:SubIndexWithScaledPass")],
 [".relidx file and its directory"])

add("C09", "Tag filter removes exactly the listed node tags and loses nothing else",
 "tagfilter deletes from every node exactly the tags whose key is on the deletion list or starts with a listed prefix, drops exactly the nodes left with no tags, and keeps every other node with its id, remaining tags and location (to 1e-7 degree). Ways and relations keep all tags, refs, members, roles and member types; header blocks are kept unchanged; the order of the kept entities of each kind is preserved, and the result is a valid PBF whose string references resolve to the original strings (index 0 being the empty string).",
 ["inputs", "configurations"], "every tag set, including empty values, empty roles, keys near the listed ones, arbitrary bytes, mixed-type blocks, granularity and offsets, worker counts",
 "Only the string-table helper is tested, on a handful of fixed strings; nothing runs the filter.",
 ["cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "cmd/tagfilter/tagfilterer/tagfilterer_writer.go", "internal/t/primitive_block_nodes.go", "internal/t/primitive_block_ways.go", "internal/t/primitive_block_relations.go", "internal/t/string_table_builder.go"],
 [("keepTag", "cmd/tagfilter/tagfilterer/tagfilterer_worker.go"), ("string table rebuild", "internal/t/string_table_builder.go")],
 ["tagfilter output PBF"])

add("C10", "Decompression preserves every block's payload, type and order",
 "For every PBF, decompress outputs a PBF with the same number of blocks in the same order and with the same types, each stored uncompressed with a payload byte-identical to the original's uncompressed payload (empty and very large payloads included). Decompressing again is a no-op on payloads, and every other tool gives the same result on the decompressed file as on the original.",
 ["inputs", "configurations"], "every payload size and content, compression level or none, block count, worker count",
 "No test covers it; pooled buffers make payloads of different sizes interact.",
 ["cmd/decompress/decompressor/decompressor_worker.go", "cmd/decompress/decompressor/decompressor_writer.go", "internal/t/blob.go", "internal/t/blob_header.go"],
 [("inflate into pooled buffer", "internal/t/blob.go:decodeZLib"), ("re-encode", "cmd/decompress/decompressor/decompressor_worker.go")],
 ["decompress output PBF", "other tools' outputs on it"])

add("C11", "Counting and finding tools report exactly what the file holds",
 "blockcount prints the exact number of blocks; entitycount prints the exact numbers of blocks, nodes, ways, way refs and relations together with the maximum node, way and relation ids and the maximum refs of a way; entityfind prints every node, way and relation whose id was asked for, once per occurrence and with its tags, location, refs, members and roles, and nothing else. The results do not depend on the number of workers.",
 ["inputs", "configurations", "schedules"], "every PBF, id query list and worker count",
 "No tests; counters are merged across concurrent workers.",
 ["cmd/blockcount/blockcount.go", "cmd/entitycount/entitycount.go", "cmd/entityfind/entityfind.go"],
 [("atomic merge", "cmd/entitycount/entitycount.go:countEntities")],
 ["stdout of the three tools"])

add("C12", "Outputs do not depend on worker count, thread count or scheduling",
 "For every input, each converting or indexing tool writes byte-identical output for every number of workers and OS threads and on every repetition, with file content following input block order. Concurrent workers, the writer and the progress display never access shared data without synchronisation.",
 ["schedules", "inputs", "configurations"], "every worker/thread count and interleaving of block completion, with blocks of very unequal cost",
 "Tests are single-threaded; the interleavings of workers, reordering and pooled buffers are unbounded.",
 ["internal/pbf/process.go", "internal/pbf/reorder.go", "internal/pool/bytebuffer.go", "cmd/*/*/*_worker.go"],
 [("reorder buffer", "internal/pbf/reorder.go"), ("exactly one output message per input block", "cmd/*/*_worker.go"), ("buffer returned to the pool only after use", "cmd/*/*_worker.go")],
 ["output files", "race detector reports"])

add("C13", "The wire codec round-trips and agrees with protobuf",
 "For every value and list of values, encoding then decoding each varint, zigzag, packed, delta, zero-terminated-delta, string and embedded-message form returns the original and consumes exactly the bytes produced, also when other bytes precede or follow. The bytes agree with the protobuf wire format (compatible with an independent implementation in both directions, embedded lengths possibly padded to a fixed width), and an embedded message too large for its length field is refused rather than mis-encoded.",
 ["inputs"], "all 64-bit values and every list of them, in particular the 7-bit length boundaries, extremes and wrap-around deltas; all embedded sizes around the reserved widths",
 "The tests only use single-byte varints.",
 ["internal/pb/varint.go", "internal/pb/32.go", "internal/pb/64.go", "internal/pb/embed.go", "internal/pb/buffer.go"],
 [("unrolled varint codec", "internal/pb/varint.go"), ("reserved-width embedding", "internal/pb/embed.go")],
 ["codec API"])

add("C14", "Truncated or malformed PBF input is rejected, never taken as success",
 "For every PBF cut short anywhere except at a block boundary, and for every PBF with a field length that overruns its enclosing message or the file, an unknown block type, or a compressed block whose data is damaged or disagrees with its declared size, each tool that reads that part exits with a failure status and terminates. It never hangs and never uses bytes from outside the enclosing message.",
 ["inputs", "fault_sequences"], "every truncation point, length corruption position and value, nesting depth and compressed-block damage",
 "No test feeds malformed input.",
 ["internal/pbf/process.go", "internal/pb/buffer.go", "internal/pb/varint.go", "internal/t/blob.go", "internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/t/way.go", "internal/t/relation.go", "internal/t/dense_nodes.go"],
 [("panics on anything unexpected", "internal/t/*.go"), ("bounds checks", "internal/pb/buffer.go")],
 ["exit status of every tool"])

add("C15", "Success is reported only when the complete output was written",
 "Whatever write fails, at whatever byte of whichever output or intermediate file (also when the failure is reported only as the file is closed), and whatever read or mapping of an input or intermediate file fails, a tool that exits successfully has written exactly the output it writes without the fault. The same holds for the report a tool prints on standard output: success means all of it was written. A node index whose build stopped part way is refused by the tools that read node indexes.",
 ["fault_sequences", "crash_points", "inputs"], "every byte position at which writing to a file starts to fail or the process dies, for every tool with an output, and of the reports on standard output",
 "No test injects write failures.",
 ["internal/iio/wrappers.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "cmd/relindex/relindex.go", "cmd/*/*/*_writer.go"],
 [("panic on write error or torn write", "internal/iio/wrappers.go"), ("version header written last", "cmd/nodeindex/indexer/nodeindexer_writer.go")],
 ["exit status", "output files", "dumpnodeindex exit status on partial files"])

add("C16", "Packed index fields round-trip or are refused, never alias",
 "For every id, count and offset, packing them into a node-index or way-index entry either returns exactly the packed values when read back or is refused with a failure. No value just at, or beyond, a field's capacity (or below zero) is accepted and read back as something else, and every value that fits is accepted.",
 ["inputs"], "all values of the count (24 bit), offset (40 and 33 bit) and way id (31 bit) fields, in particular the boundaries",
 "No tests; the boundary values do not occur in small data.",
 ["internal/nodeindex/count_offset.go", "internal/nodeindex/index_element.go", "internal/wayindex/indexdata.go"],
 [("range checks", "internal/nodeindex/count_offset.go:NewCountOffset; internal/wayindex/indexdata.go:MakeIndexData")],
 ["packing API", "nodeindex/wayindex exit status"])

add("C17", "The block pipeline delivers every block once, in order, and always ends",
 "For every file, number of workers and order in which workers finish, every block reaches exactly one worker once with its type and bytes, and the writing side receives every worker result exactly once in file order; waiting on the run returns only after all of it is done. With W workers W blocks can be in work at once, however long any of them or the writing takes. After cancellation at any moment the run still ends, and what was written is an in-order prefix without gaps.",
 ["schedules", "inputs", "fault_sequences"], "every completion order the worker count allows, every block count and every cancellation point",
 "No test touches the pipeline; the order of completion is up to the scheduler.",
 ["internal/pbf/process.go", "internal/pbf/reorder.go"],
 [("reorder buffer", "internal/pbf/reorder.go"), ("channel close / WaitGroup shutdown order", "internal/pbf/process.go:processFileWork")],
 ["work and write callbacks of the pipeline API"],
 [("reorder buffer", "blocks finished ahead of the next one to write", "internal/pbf/reorder.go")])

add("C18", "Location encoding is lossless, always negative, and truly interleaved",
 "For every longitude in [-180,180] and latitude in [-90,90] degrees at 1e-7 resolution, the encoded location is a negative 64-bit value whose even bits are the longitude and whose odd bits are the latitude with the top bit set, and decoding it returns the same longitude and latitude. Distinct coordinates have distinct encodings, and encode/decode of arbitrary 32-bit pairs are mutually inverse.",
 ["inputs"], "all coordinate pairs, especially both signs, the poles, the antimeridian and single-bit values",
 "The test samples only raw bit pairs through one encode/decode pair, never locations, sign recovery or bit placement.",
 ["internal/morton/morton.go", "cmd/nodeindex/indexer/nodeindexer_worker.go", "ENCODING.md"],
 [("table interleave", "internal/morton/morton.go:Encode"), ("sign recovery", "internal/morton/morton.go:DecodeLocation")],
 ["encode/decode API", "nodeindex output"])

add("C19", "The whole toolchain yields each relation's true way geometry",
 "For every dataset run through nodeindex, rewritenodes, wayindex and relindex (with any workers, memory target, alignment and passes, and with the PBF decompressed or tag-filtered at any point after the node index was built, or decompressed before), the relation index contains for every member way present in the data the encoded locations of its nodes in order, with repeats collapsed and nodes missing from the data kept as their ids. Members missing from the data have no locations.",
 ["inputs", "configurations", "histories"], "every dataset and every configuration of the chained tools",
 "Nothing tests the tools together.",
 ["cmd/nodeindex", "cmd/rewritenodes", "cmd/wayindex", "cmd/relindex", "cmd/decompress", "cmd/tagfilter"],
 [("negative location vs positive id convention", "ENCODING.md; cmd/rewritenodes/rewriter/noderewriter_worker.go")],
 [".relidx produced by the chain"])

add("C20", "Dump tools print the full index content and never a false mismatch",
 "For every index the tools build, dumpnodeindex prints every stored location in order with its id and its longitude/latitude, and a search result equal to it; dumpwayindex prints every way id with its stored locations and the same list as search result. Neither reports a mismatch or a failed search on the full index. Restricting dumpnodeindex to an element range, to one of several sub-indexes, or to an element range of a sub-index prints exactly that part, the sub-indexes together giving the whole; restricting dumpwayindex to a sub-index never yields a mismatch, and each way is found in at least one sub-index.",
 ["inputs", "configurations"], "every index, element range, sub-index choice and print/search option",
 "The dump tools have no tests.",
 ["cmd/dumpnodeindex/dumpnodeindex.go", "cmd/dumpwayindex/dumpwayindex.go", "internal/morton/morton.go"],
 [("extract vs search comparison", "cmd/dumpnodeindex/dumpnodeindex.go:main")],
 ["stdout of the dump tools"])

add("C21", "Progress bars always show the whole message and the right fraction",
 "For every message of one-column characters, width of at least one and progress fraction, the progress markup renders to exactly the message (percent signs and non-ASCII characters included) padded with spaces to the width, with its highlighted part being the first floor(width*fraction) characters (the fraction clamped to 0..1, and the whole text when that reaches its end). The display's bars show the true state that way: the file bar shows the file name, the reader's position in bytes, the file's size and their percentage, and highlights that fraction; the pass bar shows the pass and the number of passes and highlights (passes done + fraction of the file) / passes; the copy bars of nodeindex and wayindex and the way bar of rewritenodes show amount, total and their fraction.",
 ["inputs", "histories"], "every message, including percent signs and non-ASCII characters anywhere, every width shorter or longer than it, every fraction including out-of-range ones, every progress of a file, pass or copy",
 "The formatter and the widgets have no tests.",
 ["internal/ui/format.go", "internal/ui/widget/widget_process_state.go", "internal/ui/widget/widget_pass_progress.go", "cmd/nodeindex/indexer/widget", "cmd/wayindex/wayindexer/widget", "cmd/rewritenodes/rewriter/widget"],
 [("escape and split", "internal/ui/format.go:MarkupAsProgress"), ("pass fraction", "internal/ui/widget/widget_pass_progress.go:update")],
 ["markup rendered by the text widget", "display widgets drawn on a screen"])

add("C22", "Pooled buffers are never shared between two holders",
 "For every sequence of borrow and return operations, from one or many goroutines, a borrowed buffer has exactly the requested length and shares no memory with any other buffer currently borrowed or with memory that was only wrapped. Returning a wrapped (not borrowed) buffer never lets a later borrower write to it. The tools keep a buffer for as long as they use the block in it: whatever the number of workers and however they interleave, what a tool writes or reports for a block comes from that block's own data.",
 ["histories", "schedules", "inputs"], "every interleaving of borrows, returns and sizes",
 "The pool has no tests, and sharing only shows over a history of operations.",
 ["internal/pool/bytebuffer.go"],
 [("isBorrowed flag", "internal/pool/bytebuffer.go:Put"), ("capacity check", "internal/pool/bytebuffer.go:Get"), ("buffers given back once the block is written", "cmd/rewritenodes/rewriter/noderewriter_worker.go")],
 ["buffers handed out by the pool API", "files and reports of the tools"])

add("C23", "Blocks rebuilt from decoded entities decode to the same entities",
 "For every list of nodes, ways and relations, building a block, serialising it and decoding it again (by this code or by an independent decoder) returns the same ids, tags, refs, members, member types and roles in the same order, and the same locations whenever they are multiples of 1e-7 degree. The block's string table holds each string once with the empty string first and the rest by falling frequency of use then byte order, so the bytes are the same on every run.",
 ["inputs"], "every combination of entities and strings, including empty strings as tag value or role, many repeats, untagged nodes and arbitrary bytes",
 "Tests cover sorting of a few fixed strings and never the serialised result.",
 ["internal/t/string_table_builder.go", "internal/t/primitive_block.go", "internal/t/primitive_block_nodes.go", "internal/t/primitive_block_ways.go", "internal/t/primitive_block_relations.go", "internal/t/dense_nodes.go", "internal/t/way.go", "internal/t/relation.go"],
 [("frequency sort with pinned empty string", "internal/t/string_table_builder.go:Finalize"), ("dense key/value linearisation", "internal/t/string_table_builder.go:ToKeyValLinear")],
 ["block building and decoding API"])

add("C24", "Tools touch only their outputs, replace them fully, and leave no debris",
 "For every successful run of a tool, the input PBF and index files are unchanged, the output file contains only the new result whatever it held before (longer, shorter or absent), and no other file remains in the output's directory. Temporary and pass files left behind by an earlier, interrupted run do not affect the result. Of its inputs a tool needs nothing but permission to read them: files it may not write, in directories it may not write, named through symbolic links, give the same result. Runs at the same time whose outputs lie in one directory, also of one tool and with the same input, give the results they give one after the other.",
 ["inputs", "configurations", "histories", "schedules"], "every tool, option set and prior content of output, temporary and pass files",
 "No test runs a tool against an existing directory.",
 ["internal/iio/wrappers.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "cmd/rewritenodes/rewritenodes.go", "cmd/relindex/relindex.go"],
 [("create truncates", "internal/iio/wrappers.go:OsCreate"), ("temporary removal", "cmd/*/*_writer.go, cmd/relindex/relindex.go, cmd/rewritenodes/rewritenodes.go")],
 ["directory listing and file contents after the run"])

add("C25", "The worker list always shows exactly the active workers",
 "After every sequence of workers starting and finishing, the tracked list holds exactly the active workers, each once and in starting order; the displayed rows match the list after each refresh, with a continuing worker keeping its row. The list's version changes whenever the list does, and a snapshot taken earlier never changes afterwards.",
 ["histories", "schedules"], "every sequence of start, finish and refresh operations, also concurrent",
 "The tracker has no tests.",
 ["internal/tracker/worker_tracker.go", "internal/tracker/widget_workers.go"],
 [("version counter", "internal/tracker/worker_tracker.go"), ("diff on refresh", "internal/tracker/widget_workers.go:RefreshStates")],
 ["tracker and worker-list widget API"])

add("C26", "The progress display changes no result; a cancelled run never claims success",
 "Running nodeindex, wayindex, rewritenodes, relindex, tagfilter or decompress on a terminal with the progress display (any refresh interval, terminal size and worker count) ends, succeeds and writes the same output as with the display off (-r 0), leaves no other file, and restores the terminal. While the tool is at rest in the middle of its work the display shows its input file, true position and size, pass, all its workers and its writer, also after the terminal was resized, and Ctrl-L draws it again in full. Other keys (but Ctrl-A, which aborts) and resizing change nothing else. When Ctrl-C is pressed at any moment the tool ends, and its exit status is 0 only if the complete output was written; a cancelled run leaves no temporary or pass files, and an incomplete node index left behind is refused by its readers.",
 ["inputs", "schedules", "fault_sequences"], "every input and tool, refresh interval, terminal size, and moment of the key press",
 "No test runs a tool, let alone on a terminal.",
 ["internal/ui/ui.go", "internal/ui/widget", "internal/tracker/widget_workers.go", "internal/icontext/context.go", "internal/pbf/process.go"],
 [("event loop start and stop", "internal/ui/ui.go:NewUI, Stop"), ("cancellation", "internal/pbf/process.go:processFileWork"), ("exit status", "internal/icontext/context.go:ExitIfCancelled")],
 ["tools run on a pseudo terminal: exit status, files, terminal state and screen content"])

add("C27", "Invalid command lines never succeed or touch files; spelling is irrelevant",
 "A command line that lacks a required option, has an unknown option, an unusable or missing value, an extra argument or contradicting options makes a tool exit with a non-zero status and a message, without creating or changing any file; -h or --help exits 0, lists every option and touches nothing either. A value that cannot work (fewer than one worker or pass, a zero memory limit, a timing factor of one or less, a negative alignment or sub-index) or a path that cannot be opened never leads to success or a hang, with or without the progress display. A valid command line gives the same result whatever the order and spelling (short, long, joined or with =) of its options, with defaulted options left out or given, and with any thread limit or profiling options.",
 ["inputs", "configurations"], "every tool, option, value class, spelling and order",
 "No test runs a command or parses its arguments.",
 ["cmd/*/args.go", "internal/args", "internal/system", "internal/ui/args.go"],
 [("validation after parsing", "cmd/*/args.go:parseArgs"), ("help detection", "internal/args/help.go:IsHelp"), ("profiles", "internal/system/setup.go:Setup")],
 ["exit status, messages and files of the tools"])

add("C28", "Several passes split the location data evenly, within the memory target",
 "For every node index and number of passes, the sub-index of each pass covers at most an equal share of the locations plus one range; for every way index, at most an equal share of the location bytes plus one way (apart from rounding by the number of passes). rewritenodes -m M uses so many passes that none resolves references to more than M MiB of location data plus one range, and not more than one pass beyond the fewest that this takes; it reports one run time per pass.",
 ["inputs", "configurations"], "every index, number of passes and memory target",
 "The tests know one tiny index and one pass.",
 ["internal/nodeindex/nodeindex.go", "internal/wayindex/wayindex.go", "cmd/rewritenodes/rewritenodes.go"],
 [("share by locations", "internal/nodeindex/nodeindex.go:SubIndex"), ("share by bytes", "internal/wayindex/wayindex.go:SubIndexWithScaledPass"), ("number of passes", "cmd/rewritenodes/rewritenodes.go:main")],
 ["lookup answers of each pass's sub-index", "references resolved in each pass file of rewritenodes", "reported passes"])

add("C29", "Worker and writer status lines and printed lookup statistics are true",
 "Whenever the workers of decompress, nodeindex, wayindex, relindex, rewritenodes or tagfilter rest, the display has one line per running worker, in starting order, which names the data block the worker is sending or says that it waits for one; those of tagfilter give the exact numbers of nodes this worker kept and dropped so far and its writer's line the exact number of blocks dropped; finished workers have no line. The lookup statistics rewritenodes and relindex print at the end count every lookup exactly once, with any workers, passes and timing: hits (hitHint + hitDefault) are the looked up ids the index covers, misses the looked up ids it does not cover or does not cover in that pass.",
 ["inputs", "schedules", "histories"], "every file, tool, number of workers, passes, and order in which blocks are taken and handed on",
 "No test looks at the display, the states behind it or the statistics.",
 ["cmd/tagfilter/tagfilterer", "cmd/nodeindex/indexer", "cmd/wayindex/wayindexer", "cmd/relindex/relindexerinit", "cmd/rewritenodes/rewriter", "cmd/decompress/decompressor", "internal/ui/widget/widget_command.go", "internal/nodeindex/nodesubindex.go", "internal/wayindex/subindex.go"],
 [("state changes", "cmd/*/*/*_worker.go"), ("atomic counters", "internal/nodeindex/nodesubindex.go:findNodeActual"), ("status text", "cmd/*/*/widget")],
 ["display lines on a simulated screen", "stdout of rewritenodes and relindex"])

add("C30", "A truncated index never gives a wrong result",
 "For every node index and way index, and every length below its own to which it may have been cut (an interrupted copy, a full disk), rewritenodes with any memory target, relindex with any number of passes, and dumpnodeindex and dumpwayindex without sub-index options either fail with a non-zero status or give exactly the result they give with the whole index. Locations or ways lost with the cut part never show up as missing nodes or ways, as other locations, or as an unchanged reference in an output that claims success.",
 ["inputs", "fault_sequences"], "every index, every cut position, every tool, pass count and worker count that reads it",
 "The tests only open complete indexes.",
 ["internal/nodeindex", "internal/wayindex", "cmd/rewritenodes", "cmd/relindex", "cmd/dumpnodeindex", "cmd/dumpwayindex"],
 [("sizes in the header", "internal/nodeindex/nodeindex.go, internal/wayindex/wayindex.go"), ("bounds of lookups", "internal/nodeindex/nodesubindex.go, internal/wayindex/subindex.go")],
 ["output of rewritenodes and relindex", "stdout of the dump tools", "exit status"])

add("C31", "Memory does not grow with the size of the input",
 "For every tool that reads a PBF file and every number of workers, the private memory one run needs depends on the workers, the size of the blocks and the options, not on the number of blocks or entities: a file of many times as many blocks of the same kind is processed in about the same memory (indexes and pass files that are mapped from disk do not count).",
 ["inputs", "configurations"], "every tool, worker count, kind of block and number of blocks",
 "The tests process single values and files of a few blocks.",
 ["internal/pbf/process.go", "internal/pbf/reorder.go", "cmd/nodeindex/indexer", "cmd/wayindex/wayindexer", "cmd/relindex", "cmd/rewritenodes", "cmd/tagfilter", "cmd/decompress"],
 [("bounded channels and reorder buffer", "internal/pbf/process.go"), ("results are written as they arrive", "cmd/*/*/*_writer.go")],
 ["peak private memory of the process"])

add("C32", "Passes and blocks don't multiply disk space, open files or mappings",
 "However many passes relindex and rewritenodes make, the files in the output's directory (also those already removed but still held open or mapped) never take more than a small multiple of the size of the input and the output together: a pass file is gone soon after the pass that reads it. The number of files a writing tool holds open or mapped at a time depends neither on the number of passes nor on the number of blocks.",
 ["inputs", "configurations"], "every input, index, number of passes and memory target",
 "The tests run no tool.",
 ["cmd/relindex/relindex.go", "cmd/rewritenodes/rewritenodes.go", "internal/pbf/process.go", "internal/iio/wrappers.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go"],
 [("pass files are removed as passes end", "cmd/relindex/relindex.go:main, cmd/rewritenodes/rewritenodes.go:main"), ("inputs are unmapped and closed", "internal/pbf/process.go:processFileWork, cmd/relindex/relindex.go:rewrite")],
 ["files of the output's directory, open files and mappings of the process while it runs"])

add("C33", "Processing time is in proportion to the size of the input",
 "For every tool, the CPU time of a run grows (nearly) in proportion to its input: to the number of blocks, of groups and entities per block, of tags, references or members per entity, of different strings per block, and of elements and locations of the index; looking up n ids in an index of m elements takes time in proportion to n log m, not to n m.",
 ["inputs", "configurations"], "every tool, kind of entity and dimension of the input",
 "The tests process single values.",
 ["internal/t", "internal/pb", "internal/nodeindex/nodesubindex.go", "internal/wayindex/subindex.go", "cmd/*/*/*_worker.go", "cmd/*/*/*_writer.go"],
 [("binary search with hint", "internal/nodeindex/nodesubindex.go:findNodeActual, internal/wayindex/subindex.go:findLocationsActual"), ("hashed string table", "internal/t/string_table_builder.go"), ("amortised buffers", "cmd/wayindex/wayindexer/wayindexer_worker.go")],
 ["CPU time of the process"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
