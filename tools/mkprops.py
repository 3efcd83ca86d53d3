import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="pkg/col/"
p("C01","Block writer round-trip: every stored pair is read back unchanged",
"For every supported encoding, every block size target and every sequence of accepted block writes (resubmitting the unwritten tail whenever a write reports that the block is full), reading the finalized file block by block returns exactly the id-value pairs that were written, in the order they were given. This holds for the whole id range (unsigned 64 bit) and value range (signed 64 bit), for unsorted and repeated ids, and for empty files. Block boundaries are where the writer reported them.",
["inputs","configurations","programs"],"all pair sequences x 8 encodings x block size targets x chunkings into block writes",
"The tests round-trip a few dozen hand-picked small sequences and use only encodings 0, 3, 4 and 7; wrap-around deltas, extreme values, unsorted or repeated ids, long blocks and the partial-write protocol are sampled once or not at all.",
[C+"writer_block_io.go",C+"writer_encoding.go",C+"encoding.go",C+"reader_block.go",C+"reader_decode.go"],
[("section encoders",C+"writer_encoding.go"),("block decoder",C+"reader_decode.go"),("partial block write protocol",C+"writer_block_io.go")],
["Reader.GetPairs","Reader.BlockCount","BlockFullError.ItemsWritten"])
p("C02","Simple writer stores every accepted pair exactly once",
"After any sequence of batches accepted by the simple writer and a successful close, the file holds exactly the pairs of all batches, each as often as it was passed and with its own value, whatever the batch sizes, batch order, encoding and block size target (also when the target is changed between batches). The reported total item count then equals the number of pairs passed; before that it never exceeds that number and never decreases. The caller's slices are never modified.",
["inputs","histories","configurations"],"all histories of write batches, target changes and close",
"Tests write a few regular batches with consecutive ids; batch boundaries around the flush threshold, repeated ids, tails left over by full blocks and target changes are not explored.",
[C+"simple_writer.go",C+"writer_block_io.go"],
[("pending buffer and flush loop",C+"simple_writer.go"),("full-block tail carry-over",C+"simple_writer.go")],
["Reader.GetPairs","SimpleWriter.TotalItems"],
[("pending pairs","accepted but not yet in a block",C+"simple_writer.go")])
p("C03","Simple writer emits blocks with ids in ascending order",
"Every block of a file produced by the simple writer lists its ids in non-decreasing order, each id keeping its own value, no matter in which order the pairs and batches were passed.",
["inputs","histories"],"all batch histories, sorted or not, overlapping or interleaved id ranges",
"Tests check order within one batch only; several batches whose id ranges interleave before a block is flushed are not covered.",
[C+"simple_writer.go","column_format_spec.md"],
[("sorting before a block is flushed",C+"simple_writer.go")],["Reader.GetPairs"])
p("C04","Written files follow the documented on-disk format",
"A decoder written only from the format description (header, page-aligned blocks with header, section layout and encoded sections, global id bitmap, footer index and trailer) recovers from every finalized file exactly the pairs written, and every stored statistic (block count, min, max, sum, count, offsets, sizes, encoding, size target) has its true value. Each encoding applies delta and variable-length coding to exactly the sections it is documented for, with the shortest variable-length form.",
["inputs","configurations"],"all finalized files over all encodings, targets and pair sequences",
"Tests read files with the same package that wrote them, so an error mirrored in writer and reader passes; the few byte-level tests cover one raw block.",
["column_format_spec.md",C+"writer_header.go",C+"writer_block.go",C+"writer_block_io.go",C+"writer_finalize.go",C+"encoding.go"],
[("header, block and footer writers",C+"writer_finalize.go"),("section encoders",C+"writer_encoding.go")],["file bytes"])
p("C05","Reader accepts every file that conforms to the format",
"Any file laid out according to the format description by an independent encoder opens and returns exactly the encoded pairs, aggregates and id bitmap. This includes files whose sections are located only through the recorded offsets (value section before the id section, gaps between or after sections, unpadded or differently spaced blocks, blocks stored in another order than the index lists them, a bitmap placed before the blocks) and files without an id bitmap.",
["inputs","configurations"],"all conforming files, including layouts the current writer does not produce",
"All test files come from the current writer, which always uses one layout, so ignoring a recorded offset or size goes unnoticed, as does a mirrored change that can no longer read existing files.",
["column_format_spec.md",C+"reader_header.go",C+"reader_block.go",C+"reader_decode.go",C+"reader.go"],
[("footer and index parsing",C+"reader_header.go"),("section location through the block layout",C+"reader_block.go")],["NewReader","Reader.GetPairs","Reader.Aggregate","Reader.GetGlobalIDBitmap"])
p("C06","Unfiltered aggregates from metadata equal a scan and the true result",
"For every file, the unfiltered count, min, max, sum and average are those of the stored pairs (sum in 64-bit wrap-around arithmetic, average = that sum divided by count), identically whether taken from the stored block statistics or computed by reading all blocks. A file without pairs yields all zeros on either path.",
["inputs","configurations"],"all files: values over the full signed range, any number of blocks, any encoding",
"Tests use small positive values in a few blocks; negative and extreme statistics, all-negative blocks, overflowing sums and empty files are not sampled on both paths.",
[C+"reader_aggregate.go",C+"encoding.go",C+"utils.go",C+"writer_block_io.go"],
[("stored block statistics",C+"writer_block_io.go"),("signed statistic encoding",C+"encoding.go"),("merging of blocks",C+"reader_aggregate.go")],["Reader.Aggregate","Reader.AggregateWithOptions"])
p("C07","Filtered aggregates cover exactly the allowed and not denied pairs",
"For every file and every combination of an allow bitmap and a deny bitmap (each absent, empty, sparse, dense or unrelated to the file), the aggregate covers exactly the pairs whose id is in the allow bitmap, when given, and not in the deny bitmap, when given, and is all zeros when there are none. The metadata shortcut setting does not change the result. The bitmaps passed in are not modified.",
["inputs","configurations"],"all files x allow/deny bitmap combinations",
"The one randomized test uses sorted ids, small values and allow filters only, with a rarely hit deny path; empty results, ids at range borders, unsorted blocks and combined filters are not explored.",
[C+"reader_aggregate.go"],
[("block pruning",C+"reader_aggregate.go"),("per-id filtering",C+"reader_aggregate.go")],["Reader.AggregateWithOptions"])
p("C08","Parallel aggregation equals sequential aggregation",
"For every file, filter combination and metadata setting, aggregation with any number of workers (negative for automatic, fewer, as many, or more than there are blocks) returns exactly the same result as the sequential aggregation, on every run.",
["inputs","configurations","schedules"],"all files x filters x worker counts x completion orders",
"Tests compare a few worker counts on one regular data set without extremes, empty partitions or blocks a filter leaves without matches.",
[C+"reader_aggregate.go"],
[("work partitioning and result merging",C+"reader_aggregate.go")],["Reader.AggregateWithOptions"])
p("C09","Block pruning never loses a block that can match",
"The list of candidate blocks for a filter contains every block holding at least one id that passes the filters, in ascending order without repetition and only with valid indices. With an allow bitmap it omits every block whose id range lies completely below the smallest or above the largest allowed id. Without an allow bitmap it lists all blocks.",
["inputs","configurations"],"all files (sorted, unsorted, overlapping blocks) x allow/deny bitmaps",
"Tests check a handful of fixed filters on blocks with disjoint consecutive ranges.",
[C+"reader_aggregate.go",C+"writer_block_io.go"],
[("range overlap test against index entries",C+"reader_aggregate.go")],["Reader.FilteredBlockIterator"])
p("C10","Global id bitmap is exactly the set of stored ids",
"For every finalized file the global id bitmap contains precisely the ids of the stored pairs, over the full unsigned 64-bit range. Turning caching on or off, in any order with lookups, never changes its contents.",
["inputs","histories"],"all files and all sequences of cache enabling, disabling and lookups",
"Tests look at a few consecutive ids in one container; sparse ids across many containers, extreme ids, empty files and cache toggling histories are not sampled.",
[C+"reader.go",C+"writer_block_io.go",C+"writer_finalize.go"],
[("bitmap built while writing blocks",C+"writer_block_io.go"),("bitmap serialisation",C+"writer_finalize.go"),("optional cache",C+"reader.go")],["Reader.GetGlobalIDBitmap"],
[("cached bitmap","lazily loaded copy",C+"reader.go")])
p("C11","Multi-file aggregation applies newest-wins per id",
"Aggregating several files ordered oldest to newest covers, for each id, exactly the pairs stored for that id in the newest file containing the id and none from older files, restricted to the allow bitmap when given; count, min, max, sum and average are those of these pairs and all zeros if there are none. Repeating the aggregation, with bitmap caching on or off and with or without the metadata shortcut, gives the same result. Neither the allow bitmap nor any file's own id bitmap or own aggregates are changed by it.",
["inputs","histories","configurations"],"all lists of files (any overlap of ids), filters, caching settings and repetitions",
"Tests use two or three tiny files, no caching, no negative values and each reader once; aliasing between the running deny set and a cached bitmap needs several calls to show.",
["pkg/multicol/aggregate.go",C+"reader_aggregate.go",C+"reader.go"],
[("newest to oldest deny accumulation","pkg/multicol/aggregate.go"),("result merging","pkg/multicol/aggregate.go")],["MultiReader.Aggregate","Reader.GetGlobalIDBitmap"],
[("deny bitmap","ids already seen in newer files","pkg/multicol/aggregate.go")])
p("C12","Concurrent reads of one open file equal sequential reads",
"Any mix of block reads, aggregations (filtered or not, sequential or parallel), pruning and id bitmap lookups (caching on or off) issued concurrently on one open file, directly or through multi-file readers sharing it, returns what the same calls return one after another. No call causes a data race, a panic or a deadlock.",
["schedules","inputs"],"all concurrent mixes of read operations and their interleavings",
"The concurrent test runs block reads only on one file, outside the race detector, and never touches the bitmap or the aggregations concurrently.",
[C+"reader.go",C+"reader_io.go",C+"reader_aggregate.go"],
[("positional reads without a shared file offset",C+"reader_io.go"),("lazily cached bitmap",C+"reader.go")],["Reader methods","race detector"])
p("C13","Block size limit: maximal prefix written, estimate exact",
"A block write that would exceed the size target writes the longest prefix of the given pairs whose complete block, padding included, still fits the target (at least one pair), and reports exactly how many pairs were written; a write that fits stores all pairs and reports success. The size estimate for any pairs equals the size the block takes if written next. The simple writer's blocks keep to the target in force in the same way, whatever size from 0 to 2^32-1 it is set to.",
["inputs","configurations"],"all pair sequences x encodings x targets x file positions",
"Tests check two fixed sizes with raw encoding; page-border sizes, variable-length encodings and targets around single-pair blocks are not explored.",
[C+"writer_block_io.go"],
[("size estimation",C+"writer_block_io.go"),("prefix search",C+"writer_block_io.go")],["Writer.WriteBlock","Writer.EstimateBlockSize","footer block sizes"])
p("C14","Blocks and footer are page aligned and do not overlap",
"In every finalized file, the first block starts right after the file header, each further block starts where the previous one ends, and every block ends on a page boundary with zero padding. The id bitmap lies after the last block, the footer starts on a page boundary after the bitmap, and the recorded offsets and sizes tile the file without overlap or unaccounted bytes up to its end.",
["inputs","configurations"],"all finalized files",
"Tests check alignment for a few sizes of one encoding.",
[C+"writer_block_io.go",C+"writer_finalize.go",C+"constants.go"],
[("padding computation",C+"constants.go"),("block padding",C+"writer_block_io.go"),("footer padding",C+"writer_finalize.go")],["file bytes"])
p("C15","Rejected calls report an error and have no effect",
"Calls outside the contract - block writes or batches with differing id and value counts, empty block writes, size estimates of no or unequally many ids and values, any write with an unsupported encoding (which a simple writer may report only when closed), size targets that are negative or beyond 32 bits, block writes after finalization, simple writer calls after close - report an error (an empty batch and a repeated close are accepted as no-ops, and a repeated finalization may be). Such calls leave everything else unchanged: the finalized file, item totals and later results are the same as if they had not been made.",
["histories","inputs"],"all histories mixing valid and rejected calls",
"Tests make one rejected call and look only at the error, not at the file produced afterwards.",
[C+"writer_block_io.go",C+"simple_writer.go",C+"writer_encoding.go"],
[("argument validation",C+"writer_block_io.go"),("closed state",C+"simple_writer.go")],["errors returned","file contents"])
p("C16","An interrupted write never passes for a complete file",
"If the writing process stops at any point before finalization has completed - between or inside any two of its writes - the file left behind is either refused when opened or returns exactly the complete data. This also holds when the new file replaces an older, complete file of the same name.",
["crash_points","inputs"],"every write boundary and intra-write cut of every write history",
"Tests never stop a writer half-way; one test opens an arbitrary non-column file.",
[C+"writer.go",C+"writer_header.go",C+"writer_finalize.go",C+"reader_header.go"],
[("trailer with magic number written last",C+"writer_finalize.go"),("trailer validation on open",C+"reader_header.go")],["NewReader"],None,"virtual os package supplied through go build -overlay, no change in the repository")
p("C17","Write faults are reported and never end in a wrong file",
"Whenever creating, positioning, writing (in full or in part), syncing or closing the file fails, the call in progress reports an error. No later finalization or simple writer close, including after retries, reports success for a file that lacks, repeats or alters pairs that were accepted; pairs of a failed call that was not repeated may be in the file or not. A file left behind otherwise is refused when opened, or as complete as that.",
["fault_sequences","inputs"],"every single fault position (and pairs of faults) in every write history, followed by retries",
"Tests never make I/O fail.",
[C+"writer.go",C+"writer_block_io.go",C+"writer_finalize.go",C+"simple_writer.go"],
[("error propagation from every file operation",C+"writer_block_io.go"),("refusal after a failure",C+"writer.go")],["errors returned","file contents"],None,"virtual os package supplied through go build -overlay, no change in the repository")
p("C18","Read faults and truncation give errors, never invented data",
"If reading the file fails, returns fewer bytes than requested or the file has been truncated at any length, opening it, reading a block or loading the id bitmap either reports an error or returns exactly the data originally written. An aggregation that reads blocks covers exactly the readable ones.",
["fault_sequences","inputs"],"every read fault position and every truncation length",
"Tests never make a read fail; a truncated or short section is not sampled.",
[C+"reader_io.go",C+"reader_header.go",C+"reader_block.go",C+"reader_decode.go",C+"reader.go"],
[("short read detection",C+"reader_io.go"),("section length checks",C+"reader_decode.go")],["NewReader","Reader.GetPairs","Reader.GetGlobalIDBitmap","Reader.AggregateWithOptions"],None,"virtual os package supplied through go build -overlay, no change in the repository")
p("C19","Damaged files are rejected or answered without crash or blow-up",
"For a file with arbitrary changes to its header, block, index or trailer bytes (the serialized id bitmap itself excepted), arbitrary bytes, or arbitrary inconsistent offsets, sizes and counts, opening and every read operation end with an error or an answer. They never panic, never use memory out of proportion to the file size, never run without end, and release the file when opening fails. A file whose leading or trailing magic number or version is wrong is always refused, and a block whose sections are too short for the recorded number of pairs is reported as an error.",
["inputs"],"all byte strings derived from valid files by structured and random damage",
"Tests open one wrong-magic file.",
[C+"reader_header.go",C+"reader_block.go",C+"reader_decode.go",C+"reader.go"],
[("header and trailer validation",C+"reader_header.go"),("extent checks",C+"reader_block.go"),("section length checks",C+"reader_decode.go")],["NewReader","all Reader methods"])
p("C20","Reported success means the data was synced",
"When a block write, a finalization or a simple writer close reports success (or that the block was full), every byte written to the file so far - header, blocks, bitmap, footer - has been passed to the operating system and synced before the call returned.",
["crash_points","inputs"],"all write histories; the sync state at every return",
"Tests cannot observe syncs.",
[C+"writer_block_io.go",C+"writer_finalize.go"],
[("sync after each block and after the footer",C+"writer_finalize.go")],["file operations recorded below the package"],None,"virtual os package supplied through go build -overlay, no change in the repository")
p("C21","File content depends only on the calls that made it",
"Making the same writer calls twice yields byte-identical files except for the creation time, whatever was stored under the file name before (including a longer complete file), and whatever other writers in the process are doing, interleaved or concurrently. The creation time is the current Unix time in seconds.",
["histories","configurations","schedules"],"all write histories, prior file contents and interleavings with other writers",
"Tests write each file once to a fresh name by a single writer.",
[C+"writer.go",C+"writer_header.go",C+"writer_finalize.go"],
[("truncating creation",C+"writer.go"),("state per writer",C+"writer.go")],["file bytes"])
p("C22","vibecol command line: written pairs are dumped and aggregated exactly",
"Equally long lists of in-range decimal ids and values are accepted, and the read command then dumps exactly these pairs in the given order and reports exactly their count, min, max, sum and average (two decimals). Malformed, out-of-range or unequally long lists and unreadable files end with a non-zero exit status, and a rejected write leaves no openable file behind where there was none.",
["inputs"],"all argument lists of the write and read commands",
"The command has no tests.",
["cmd/vibecol/main.go"],[("argument parsing","cmd/vibecol/main.go"),("dump and aggregate output","cmd/vibecol/main.go")],["stdout","exit status"])
p("C23","loadtest command line: import and aggregate agree with the file",
"An import of n values produces a file holding exactly n pairs, in blocks of the given size (a block of several pairs does not exceed it), and reports that total; equal seeds and parameters give the same pairs. The aggregate command prints the true count, min, max, sum and average of the file for every worker count and cache setting, and its full scan counts n values. Imports that cannot be carried out - maxima that leave no id or value, block sizes that are negative or beyond 32 bits, unusable paths, failing writes - and aggregates of missing, damaged or unreadable files end with a non-zero status; the former leave no openable file where there was none, and parameters that are refused leave an existing file alone.",
["inputs","configurations"],"all import parameters and aggregate settings",
"The command has no tests.",
["cmd/loadtest/main.go"],[("batch generation and import","cmd/loadtest/main.go"),("aggregate output","cmd/loadtest/main.go")],["stdout","exit status","file contents"])
p("C24","Reader metadata and bounds: counts, encodings and bad indices",
"An open file reports the block count, format version and encoding it was written with, and the delta and variable-length predicates that go with that encoding. A block index outside the file - any 64-bit value - gives an error, never a panic or data. Closing a multi-file reader closes every file in it and reports it when one could not be closed, and reads on a closed file report errors while other readers are unaffected. The debug information names the true counts, encoding and ranges.",
["inputs","configurations"],"all files, encodings and 64-bit block indices",
"Tests query the metadata of a few files and one out-of-range index.",
[C+"reader.go",C+"reader_block.go","pkg/multicol/aggregate.go"],[("index validation",C+"reader_block.go"),("encoding predicates",C+"reader.go")],["Reader.BlockCount","Reader.Version","Reader.EncodingType","Reader.GetPairs","MultiReader.Close"])
p("C25","Reads are repeatable, leave the file alone and hand over their results",
"Any sequence of read operations on an open file gives the same answers each time and in any order, and leaves the file's bytes unchanged. A result that the caller keeps does not change under later reads, and changing the slices, or the uncached bitmaps, returned by a read, or the filters passed to it, does not influence any other read.",
["histories","inputs"],"all sequences of read operations with caller-side modification of results",
"Tests perform each read once and never modify what they got.",
[C+"reader.go",C+"reader_block.go",C+"reader_aggregate.go"],[("fresh buffers for each read",C+"reader_io.go")],["all Reader methods","file bytes"])
p("C26","Queries read only the blocks they need",
"Opening a file, querying its metadata, pruning blocks, looking up the id bitmap and unfiltered aggregation from metadata read no block data at all. Reading a block reads only that block's bytes, and an aggregation that scans, filtered or not, sequential, parallel or over several files, reads only blocks whose id range meets the allow filter's id range, and reads at most twice the size of each. With caching enabled the id bitmap is not read from the file again.",
["inputs","histories"],"all files, filters, option combinations and orders of reads",
"Tests check answers, not which bytes are read to get them; benchmarks only print times.",
[C+"reader.go",C+"reader_aggregate.go",C+"reader_header.go",C+"reader_block.go","pkg/multicol/aggregate.go"],[("block pruning by id range",C+"reader_aggregate.go"),("footer statistics",C+"reader_header.go"),("bitmap cache",C+"reader.go")],["file read operations of Reader and MultiReader"])
p("C27","Example commands: the demonstration file is written and shown exactly",
"A successful write_example leaves the demonstration file with its ten pairs under its name, whatever was there, and a run whose writes fail ends with a non-zero status. For every file of that layout read_example -dump prints exactly its ten pairs and their true statistics, -agg exactly the totals of the index entries. A missing or truncated file, a wrong magic number or an index larger than the file gives a non-zero status, and no damage crashes it.",
["inputs","fault_sequences"],"all contents of a demonstration file, prior contents, write failures and damage",
"Neither command has any test.",
["cmd/write_example/main.go","cmd/read_example/main.go"],[("demonstration writer","cmd/write_example/main.go"),("demonstration reader","cmd/read_example/main.go")],["write_example and read_example output and exit status"])
p("C28","Files and workers are released; buffering is bounded",
"A file that cannot be opened or created leaves nothing open, and closing a reader, a multi-file reader or a block writer, a successful finalize-and-close, and a simple writer's first close, successful or not, give the file back. No read - sequential, parallel or over several files, on sound, damaged, failing or closed files - leaves an open file or a running worker behind once it has returned. After every write it accepts, a simple writer holds back fewer than 1000 pairs.",
["inputs","histories","fault_sequences"],"all writer and reader histories, with refused calls, damage and a fault at any file operation",
"Tests open and close a handful of sound files and never count what is left open; failing closes and failing opens do not occur in them.",
[C+"simple_writer.go",C+"writer.go",C+"reader.go",C+"reader_aggregate.go","pkg/multicol/aggregate.go"],
[("close on failure",C+"simple_writer.go"),("worker goroutines",C+"reader_aggregate.go"),("flush threshold",C+"simple_writer.go")],["/proc/self/fd","runtime.NumGoroutine","SimpleWriter.TotalItems"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import jsonschema
for x in P: jsonschema.validate(x,S)
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
