"""Planted changes, fourth batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


CLI = """#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/bin" ./cmd/%s || exit 2
cd "$tmp" || exit 2
"""

seed("c01-nine-byte-id", "C01",
     "an encoding with variable-length ids and an id or difference of nine bytes (2^62 to 2^63) that is not near the end of the section",
     "the fast path for numbers well inside the section masks what it shifts by 56 bits",
     [(C + "reader_decode.go", """		// Try to decode a varint
		v, n := binary.Uvarint(buf[offset:])
""", """		// Try to decode a varint
		v, n := uvarint(buf[offset:])
"""), (C + "reader_decode.go", """// Helper function to decode exactly""", """// uvarint decodes a uvarint, without looking at the length of the buffer for
// every byte where that is long enough
func uvarint(buf []byte) (uint64, int) {
	if len(buf) < 16 {
		return binary.Uvarint(buf)
	}
	word := binary.LittleEndian.Uint64(buf)
	var v uint64
	for i := 0; i < 8; i++ {
		v |= (word >> (8 * i) & 0x7f) << (7 * i)
		if word>>(8*i)&0x80 == 0 {
			return v, i + 1
		}
	}
	v |= uint64(buf[8]&0x3f) << 56
	if buf[8]&0x80 == 0 {
		return v, 9
	}
	v |= uint64(buf[8]&0x40)<<56 | uint64(buf[9]&1)<<63
	return v, 10
}

// Helper function to decode exactly""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	ids := []uint64{1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	demoWrite(t, path, col.EncodingVarInt, 1<<20, ids, make([]int64, len(ids)))
	got, _ := demoRead(t, demoOpen(t, path))
	if !slices.Equal(ids, got) {
		t.Fatal(got)
	}
}
""", imports=["path/filepath", "slices", "math"])

seed("c02-duplicate-batch", "C02",
     "the same batch written twice in a row while the first is still pending",
     "the second is taken for a retry of the first and dropped, though accepted",
     [(C + "simple_writer.go", """	// Add to pending data
	sw.pendingIDs""", """	// A caller that repeats a batch has not seen that it was accepted
	if n := len(sw.pendingIDs) - len(newIDs); n >= 0 &&
		slices.Equal(sw.pendingIDs[n:], newIDs) && slices.Equal(sw.pendingValues[n:], newValues) {
		return nil
	}

	// Add to pending data
	sw.pendingIDs"""), (C + "simple_writer.go", """	"sort"
""", """	"slices"
	"sort"
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		if err := w.Write([]uint64{4, 7}, []int64{1, 1}); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if ids, _ := demoRead(t, demoOpen(t, path)); len(ids) != 4 {
		t.Fatal(ids)
	}
}
""", imports=["path/filepath"])

seed("c03-difference-order", "C03",
     "an unsorted batch with ids more than 2^63 apart",
     "ids are compared by the sign of their difference",
     [(C + "simple_writer.go", """		return pairs[i].ID < pairs[j].ID
""", """		return int64(pairs[i].ID-pairs[j].ID) < 0
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{1<<63 + 9, 5, 1, 3}, []int64{1, 2, 3, 4}); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if ids, _ := demoRead(t, demoOpen(t, path)); !slices.IsSorted(ids) {
		t.Fatal(ids)
	}
}
""", imports=["path/filepath", "slices"])

seed("c04-header-last-id", "C04",
     "a block whose ids are not in ascending order",
     "the block header names the last id of the block as its largest",
     [(C + "writer_block_io.go", """writeBlockHeader(minID, maxID, minValueU64""", """writeBlockHeader(minID, ids[len(ids)-1], minValueU64""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 9, 5}, []int64{1, 2, 3})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	if got := binary.LittleEndian.Uint64(data[72:]); got != 9 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c05-blocks-ascending", "C05",
     "a conforming file that stores its blocks in another order than its index lists them",
     "such a file is refused as damaged",
     [(C + "reader_header.go", """			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
		}
""", """			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
		}
		if i > 0 && r.blockIndex[i].BlockOffset < r.blockIndex[i-1].BlockOffset {
			return fmt.Errorf("block %d lies before block %d", i, i-1)
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, 0, [][]uint64{{1}, {2}}, [][]int64{{10}, {20}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// exchange the two index entries
	size := binary.LittleEndian.Uint64(data[len(data)-24:])
	index := data[len(data)-24-int(size)+4:]
	first := append([]byte(nil), index[:56]...)
	copy(index[:56], index[56:112])
	copy(index[56:112], first)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		t.Fatal(err)
	}
	ids, values := demoRead(t, demoOpen(t, path))
	if ids[0] != 2 || ids[1] != 1 || values[0] != 20 || values[1] != 10 {
		t.Fatal(ids, values)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c06-nonnegative-sum", "C06",
     "a block without negative values whose sum wraps around to a negative number",
     "its stored sum is taken as it stands, without its sign being decoded",
     [(C + "reader_aggregate.go", """		for _, entry := range r.blockIndex {
			// Convert stored uint64 values back to int64
			minValue := uint64ToInt64(entry.MinValue)
			maxValue := uint64ToInt64(entry.MaxValue)
			blockSum := uint64ToInt64(entry.Sum)
""", """		for _, entry := range r.blockIndex {
			// Convert stored uint64 values back to int64
			minValue := uint64ToInt64(entry.MinValue)
			maxValue := uint64ToInt64(entry.MaxValue)
			blockSum := int64(entry.Sum)
			if minValue < 0 {
				blockSum = uint64ToInt64(entry.Sum)
			}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 9}, []int64{math.MaxInt64, math.MaxInt64 - 5})
	r := demoOpen(t, path)
	a, b := r.Aggregate(), r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
	if a.Sum != b.Sum {
		t.Fatal(a, b)
	}
}
""", imports=["path/filepath", "math"])

seed("c07-undenied-block", "C07",
     "a deny filter whose ids inside the block's id range share none of the 2^16-id ranges of its ends",
     "a block is taken to hold no denied id when its ends have the same rank, which is counted within those ranges only",
     [(C + "reader_aggregate.go", """	// Filter IDs and values
	filteredIDs""", """	// A block without any denied ID needs no filtering
	if entry := r.blockIndex[blockIndex]; filter == nil && entry.MinID > 0 &&
		denyFilter.Rank(entry.MinID-1) == denyFilter.Rank(entry.MaxID) {
		return allIDs, allValues, nil
	}

	// Filter IDs and values
	filteredIDs""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{10, 100000, 200000}, []int64{1, 2, 3})
	deny := sroar.NewBitmap()
	deny.Set(100000)
	got := demoOpen(t, path).AggregateWithOptions(col.AggregateOptions{DenyFilter: deny})
	if got.Count != 2 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c08-chunk-remainder", "C08",
     "a parallel scan of more than 64 blocks whose number is not a multiple of their 64th part",
     "workers take chunks of a 64th of the blocks, and the rest after 64 chunks is left out",
     [(C + "reader_aggregate.go", """func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
""", """func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Give the workers small shares of many blocks, so that none is left with
	// all the large ones
	if chunk := len(blockIndices) / 64; chunk > 0 {
		var result AggregateResult
		for c := 0; c < 64; c++ {
			part := r.aggregateShare(blockIndices[c*chunk:(c+1)*chunk], opts, numWorkers)
			if part.Count == 0 {
				continue
			}
			if result.Count == 0 {
				result = part
				continue
			}
			if part.Min < result.Min {
				result.Min = part.Min
			}
			if part.Max > result.Max {
				result.Max = part.Max
			}
			result.Count += part.Count
			result.Sum += part.Sum
			result.Avg = float64(result.Sum) / float64(result.Count)
		}
		return result
	}
	return r.aggregateShare(blockIndices, opts, numWorkers)
}

// aggregateShare reads and aggregates the given blocks
func (r *Reader) aggregateShare(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for i := 0; i < 130; i++ {
		ids, values = append(ids, []uint64{uint64(i)}), append(values, []int64{int64(i)})
	}
	demoBlocks(t, path, 0, ids, values)
	r := demoOpen(t, path)
	got := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: 4})
	if want := r.Aggregate(); got != want {
		t.Fatal(got, want)
	}
}
""", imports=["path/filepath"])

seed("c09-nested-range", "C09",
     "blocks whose smallest ids ascend while an early block reaches beyond later ones",
     "the search for the first candidate takes the largest ids to ascend too",
     [(C + "reader_aggregate.go", """		// Find blocks that overlap with the filter range
		for i, entry := range r.blockIndex {
""", """		// Blocks in order of their IDs can be searched for the first candidate
		first := 0
		if sort.SliceIsSorted(r.blockIndex, func(i, j int) bool { return r.blockIndex[i].MinID < r.blockIndex[j].MinID }) {
			first = sort.Search(len(r.blockIndex), func(i int) bool { return r.blockIndex[i].MaxID >= filterMin })
		}

		// Find blocks that overlap with the filter range
		for i, entry := range r.blockIndex {
			if i < first {
				continue
			}

"""), (C + "reader_aggregate.go", """	"runtime"
""", """	"runtime"
	"sort"
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, 0, [][]uint64{{1, 100}, {10}, {20}, {120}}, [][]int64{{1, 2}, {3}, {4}, {5}})
	allow := sroar.NewBitmap()
	allow.Set(100)
	if got := demoOpen(t, path).FilteredBlockIterator(allow, nil); len(got) != 1 || got[0] != 0 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c10-run-of-equals", "C10",
     "a file whose first stored id is 0",
     "runs of equal ids are entered once, and 0 counts as the id before the first",
     [(C + "writer_block_io.go", """	for _, id := range ids {
		w.globalIDs.Set(id)
	}
""", """	for _, id := range ids {
		if id != w.lastID {
			w.globalIDs.Set(id)
			w.lastID = id
		}
	}
"""), (C + "writer.go", """	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
""", """	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
	lastID          uint64        // ID entered last
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{0, 0, 4}, []int64{1, 2, 3})
	b, err := demoOpen(t, path).GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	if !b.Contains(0) || b.GetCardinality() != 2 {
		t.Fatal(b.ToArray())
	}
}
""", imports=["path/filepath"])

seed("c11-range-of-ends", "C11",
     "a newer file whose blocks are not in order of their ids, and an allow bitmap outside the range of its first and last block",
     "such a file is skipped by the range from its first block's smallest to its last block's largest id",
     [("pkg/multicol/aggregate.go", """		reader := mr.readers[i]

""", """		reader := mr.readers[i]

		// A file without any allowed ID adds nothing
		if opts.Filter != nil && !reader.MayHold(opts.Filter) {
			continue
		}

"""), (C + "reader_aggregate.go", """// readBlockFiltered reads""", """// MayHold returns whether the file can contain IDs of the filter
func (r *Reader) MayHold(filter *sroar.Bitmap) bool {
	n := len(r.blockIndex)
	return n > 0 && filter.Minimum() <= r.blockIndex[n-1].MaxID && filter.Maximum() >= r.blockIndex[0].MinID
}

// readBlockFiltered reads""")],
     """
func TestZZDemo(t *testing.T) {
	old, path := filepath.Join(t.TempDir(), "old.col"), filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, old, 0, 1<<20, []uint64{50}, []int64{1})
	demoBlocks(t, path, 0, [][]uint64{{10}, {50}, {20}}, [][]int64{{1}, {2}, {3}})
	allow := sroar.NewBitmap()
	allow.Set(50)
	m := multicol.NewMultiReader([]*col.Reader{demoOpen(t, old), demoOpen(t, path)})
	got, err := m.Aggregate(multicol.AggregateOptions{Filter: allow})
	if err != nil || got.Sum != 2 {
		t.Fatal(got, err)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar", "vibe-lsm/pkg/multicol"], pkg="pkg/multicol")

seed("c12-total-memo", "C12",
     "two unfiltered aggregations of one open file at the same time, at least one of them the first",
     "the result is remembered without synchronisation",
     [(C + "reader_aggregate.go", """	if len(r.blockIndex) > 0 && !opts.SkipPreCalculated {
		var count int""", """	if len(r.blockIndex) > 0 && !opts.SkipPreCalculated {
		if r.total.Count > 0 {
			return r.total
		}

		var count int"""), (C + "reader_aggregate.go", """		return AggregateResult{
			Count: count,
			Min:   min,
			Max:   max,
			Sum:   sum,
			Avg:   avg,
		}
	}

	// Fallback""", """		r.total = AggregateResult{
			Count: count,
			Min:   min,
			Max:   max,
			Sum:   sum,
			Avg:   avg,
		}
		return r.total
	}

	// Fallback"""), (C + "reader.go", """	globalIDs      *sroar.Bitmap
""", """	total          AggregateResult // From the block statistics
	globalIDs      *sroar.Bitmap
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 9, 5}, []int64{1, 2, 3})
	r := demoOpen(t, path)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Aggregate()
		}()
	}
	wg.Wait()
}
""", imports=["path/filepath", "sync"], race=True)

seed("c13-whole-pages", "C13",
     "a size target that is not a whole number of pages, and a write whose first block would end on the page boundary that the header leaves for it",
     "the target is cut to whole pages before prefixes are compared with it",
     [(C + "writer_block_io.go", """			if size <= uint64(w.blockSizeTarget) {
				optimal = i
""", """			// Blocks take whole pages, and so does what they may take
			limit := uint64(w.blockSizeTarget)
			if limit > uint64(PageSize) {
				limit -= limit % uint64(PageSize)
			}
			if size <= limit {
				optimal = i
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewWriter(filepath.Join(t.TempDir(), "f.col"), col.WithBlockSize(3*4096-64))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	err = w.WriteBlock(make([]uint64, 1000), make([]int64, 1000))
	full, ok := err.(*col.BlockFullError)
	if !ok || full.ItemsWritten != (3*4096-64-80)/16 {
		t.Fatal(err)
	}
}
""", imports=["path/filepath"])

seed("c15-empty-batch-flushes", "C15",
     "an empty batch written while pairs are pending",
     "the empty batch flushes the pending pairs into a block of their own",
     [(C + "simple_writer.go", """		return nil // Nothing to write
""", """		return sw.flushIfNeeded(true) // Nothing to add
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	for _, ids := range [][]uint64{{1}, {}, {2}} {
		if err := w.Write(ids, make([]int64, len(ids))); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if n := demoOpen(t, path).BlockCount(); n != 1 {
		t.Fatal(n)
	}
}
""", imports=["path/filepath"])

seed("c16-born-empty", "C16",
     "an interruption before the first block has been written",
     "a new file starts out with the index and trailer of an empty one, so what an interruption leaves opens as an empty file",
     [(C + "writer_header.go", """	// Verify header size
	headerEnd""", """	// Let readers open the file from the beginning
	if _, err := w.file.Write(make([]byte, 4)); err != nil {
		return fmt.Errorf("failed to write empty index: %w", err)
	}
	for _, v := range []uint64{4, 0, MagicNumber} {
		if err := binary.Write(w.file, binary.LittleEndian, v); err != nil {
			return fmt.Errorf("failed to write empty index: %w", err)
		}
	}
	if _, err := w.file.Seek(int64(headerSize), io.SeekStart); err != nil {
		return fmt.Errorf("failed to go back to the first block: %w", err)
	}

	// Verify header size
	headerEnd""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	// what an interruption would leave now
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	copy := path + ".copy"
	if err := os.WriteFile(copy, data, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := w.WriteBlock([]uint64{1}, []int64{1}); err != nil {
		t.Fatal(err)
	}
	if r, err := col.NewReader(copy); err == nil {
		r.Close()
		t.Fatal("opens")
	}
}
""", imports=["path/filepath", "os"])

seed("c17-seek-unchecked", "C17",
     "a failure to go back to the start of the file while finalizing",
     "the failure is ignored and the new header is appended to the file",
     [(C + "writer_finalize.go", """	if _, err := w.file.Seek(0, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to start: %w", err)
	}
""", """	w.file.Seek(0, io.SeekStart)
""")],
     None, demo_sh="""#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
# The child's first seek to the start of the file is made to fail.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
export TMPDIR="$tmp"
printf '{"Replace": {"%s/pkg/col/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -o "$tmp/demo" -overlay "$tmp/overlay.json" -vet=off ./pkg/col || exit 2
strace -f -o "$tmp/trace" -e trace=lseek "$tmp/demo" -test.run '^TestZZDemo' || exit 2
line=$(grep -m1 'lseek([0-9]*, 0, SEEK_SET) *= 0' "$tmp/trace") || exit 0
thread=${line%% *}
n=$(grep "^$thread .*lseek(" "$tmp/trace" | grep -n -m1 'lseek([0-9]*, 0, SEEK_SET)' | cut -d: -f1)
DEMO_FAULT=1 strace -f -o "$tmp/trace" -e trace=lseek -e "inject=lseek:error=EIO:when=$n" "$tmp/demo" -test.run '^TestZZDemo'
""")
SEEDS[-1]["demo"] = """
func TestZZDemo(t *testing.T) {
	runtime.LockOSThread()
	w, err := col.NewWriter(filepath.Join(t.TempDir(), "f.col"))
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteBlock([]uint64{1}, []int64{1}); err != nil {
		t.Fatal(err)
	}
	err = w.Finalize()
	if fault := os.Getenv("DEMO_FAULT") != ""; fault != (err != nil) {
		t.Fatal(fault, err)
	}
}
"""
SEEDS[-1]["imports"] = ["path/filepath", "os", "runtime"]

seed("c18-bitmap-rebuilt", "C18",
     "the id bitmap and a block both lie in an unreadable part of the file",
     "the bitmap is rebuilt from the blocks that can be read",
     [(C + "reader.go", """	sizeBuf, err := r.readBytesAt(int64(r.header.BitmapOffset), 4)
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap size: %w", err)
	}
""", """	sizeBuf, err := r.readBytesAt(int64(r.header.BitmapOffset), 4)
	if err != nil {
		// Rebuild it from the blocks
		bitmap := sroar.NewBitmap()
		for i := range r.blockIndex {
			ids, _, _ := r.readBlock(i)
			for _, id := range ids {
				bitmap.Set(id)
			}
		}
		return bitmap, nil
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, 0, [][]uint64{{1}, {2}}, [][]int64{{10}, {20}})
	r := demoOpen(t, path)
	if err := os.Truncate(path, 4096); err != nil {
		t.Fatal(err)
	}
	b, err := r.GetGlobalIDBitmap()
	if err == nil && b.GetCardinality() != 2 {
		t.Fatal(b.ToArray())
	}
}
""", imports=["path/filepath", "os"])

seed("c19-section-wrap", "C19",
     "a damaged block whose section offset and size add up to more than 2^32",
     "the end of the section is computed in 32 bits, and slicing panics",
     [(C + "reader_block.go", """	idEnd := idStart + int(idSectionSize)
""", """	idEnd := int(16 + idSectionOffset + idSectionSize)
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 9, 5}, []int64{1, 2, 3})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	binary.LittleEndian.PutUint32(data[128:], 1<<31)
	binary.LittleEndian.PutUint32(data[132:], 1<<31)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		t.Fatal(err)
	}
	if _, _, err := demoOpen(t, path).GetPairs(0); err == nil {
		t.Fatal("no error")
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c20-small-blocks-later", "C20",
     "a block written within the page of the synced end of the file",
     "blocks are synced only once a few have gathered, though the write reports success",
     [(C + "writer_block_io.go", """	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}

	return nil
}
""", """	if w.blockCount%4 == 1 || blockSize >= 1<<16 {
		if err := w.file.Sync(); err != nil {
			return fmt.Errorf("failed to sync file: %w", err)
		}
	}

	return nil
}
""")],
     None, demo_sh="""#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
# Counts the syncs of a child that writes five blocks.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
export TMPDIR="$tmp"
printf '{"Replace": {"%s/pkg/col/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -o "$tmp/demo" -overlay "$tmp/overlay.json" -vet=off ./pkg/col || exit 2
strace -f -o "$tmp/trace" -e trace=fsync,fdatasync "$tmp/demo" -test.run '^TestZZDemo' || exit 2
[ "$(grep -c 'sync(' "$tmp/trace")" -ge 6 ]
""")
SEEDS[-1]["demo"] = """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, 0, [][]uint64{{1}, {2}, {3}, {4}, {5}}, [][]int64{{10}, {20}, {30}, {40}, {50}})
}
"""
SEEDS[-1]["imports"] = ["path/filepath"]

seed("c21-rounded-time", "C21",
     "a file created in the second half of a second",
     "its creation time is rounded into the future",
     [(C + "format.go", """time.Now().Unix()""", """time.Now().Round(time.Second).Unix()""")],
     """
func TestZZDemo(t *testing.T) {
	for time.Now().Nanosecond() < 550e6 || time.Now().Nanosecond() > 700e6 {
		time.Sleep(time.Millisecond)
	}
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 9, 5}, []int64{1, 2, 3})
	now := time.Now().Unix()
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	if got := int64(binary.LittleEndian.Uint64(data[36:])); got > now {
		t.Fatal(got, now)
	}
}
""", imports=["path/filepath", "os", "encoding/binary", "time"])

seed("c22-float-sum", "C22",
     "a sum that a floating point number cannot hold exactly",
     "the sum is printed from the average",
     [("cmd/vibecol/main.go", """		fmt.Printf("Sum: %d\\n", result.Sum)
""", """		fmt.Printf("Sum: %.0f\\n", result.Avg*float64(result.Count))
""")],
     None, demo_sh=CLI % "vibecol" + """./bin write -o f.col -ids 1,2,3 -values 9007199254740993,2,0 > /dev/null || exit 2
./bin read -f f.col -agg | grep -q '^Sum: 9007199254740995$'
""")

seed("c23-seed-zero", "C23",
     "an import with seed 0",
     "seed 0 is taken as not given and replaced by the time",
     [("cmd/loadtest/main.go", """	rng := rand.New(rand.NewSource(seed))
""", """	if seed == 0 {
		seed = time.Now().UnixNano()
	}
	rng := rand.New(rand.NewSource(seed))
""")],
     None, demo_sh=CLI % "loadtest" + """./bin import -n 500 -seed 0 -file a.col > /dev/null || exit 2
./bin import -n 500 -seed 0 -file b.col > /dev/null || exit 2
for f in a b; do ./bin aggregate -file $f.col | grep '^Sum:' > $f.txt || exit 2; done
cmp a.txt b.txt
""")

seed("c24-debug-signed", "C24",
     "a block holding ids from 2^63 on",
     "the debug information shows them as negative numbers",
     [(C + "reader.go", """entry.MinID, entry.MaxID)""", """int64(entry.MinID), int64(entry.MaxID))""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 1<<63 + 5}, []int64{1, 2})
	if info := demoOpen(t, path).DebugInfo(); !strings.Contains(info, "3-9223372036854775813") {
		t.Fatal(info)
	}
}
""", imports=["path/filepath", "strings"])

seed("c25-bitmap-scratch", "C25",
     "two id bitmaps of one open file kept at the same time, without caching",
     "all bitmaps of a reader are read into one buffer, which the ones handed out before still use",
     [(C + "reader.go", """	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap data: %w", err)
	}
""", """	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
	if err != nil {
		return nil, fmt.Errorf("failed to read bitmap data: %w", err)
	}
	r.bitmapBuf = append(r.bitmapBuf[:0], bitmapBuf...)
	bitmapBuf = r.bitmapBuf
"""), (C + "reader.go", """	globalIDs      *sroar.Bitmap
""", """	bitmapBuf      []byte // Serialized ID bitmap
	globalIDs      *sroar.Bitmap
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{3, 9, 5}, []int64{1, 2, 3})
	r := demoOpen(t, path)
	a, err := r.GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	b, err := r.GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	a.Remove(3)
	if !b.Contains(3) {
		t.Fatal(b.ToArray())
	}
}
""", imports=["path/filepath"])

seed("c27-dump-signed", "C27",
     "a demonstration file with ids from 2^63 on",
     "the smallest and largest id of the dump are compared as signed numbers",
     [("cmd/read_example/main.go", """		if ids[i] > maxID {
			maxID = ids[i]
		}
		if values[i] < minValue {
			minValue = values[i]
		}
		if values[i] > maxValue {
			maxValue = values[i]
		}
		sum += values[i]
	}
	
	fmt""", """		if int64(ids[i]) > int64(maxID) {
			maxID = ids[i]
		}
		if values[i] < minValue {
			minValue = values[i]
		}
		if values[i] > maxValue {
			maxValue = values[i]
		}
		sum += values[i]
	}
	
	fmt""")],
     None, demo_sh="""#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/write" ./cmd/write_example && go build -o "$tmp/read" ./cmd/read_example || exit 2
cd "$tmp" || exit 2
./write > /dev/null || exit 2
# the third id becomes 2^63 + 10
printf '\\200' | dd of=example.col bs=1 seek=183 conv=notrunc 2> /dev/null || exit 2
./read -dump | grep -q 'Max ID: 9223372036854775818$'
""")

seed("c26-multi-drops-cache", "C26",
     "an aggregation over several files with caching enabled, followed by an id bitmap lookup",
     "the aggregation switches caching off to release memory, so the bitmap is read again",
     [("pkg/multicol/aggregate.go", """		denyBitmap = denyBitmap.Or(globalIDs)
""", """		denyBitmap = denyBitmap.Or(globalIDs)

		// Older files no longer need it
		if i > 0 && reader.BlockCount() > 1 {
			reader.DisableGlobalIDBitmapCaching()
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	old, path := filepath.Join(t.TempDir(), "old.col"), filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, old, 0, 1<<20, []uint64{50}, []int64{1})
	demoBlocks(t, path, 0, [][]uint64{{10}, {50}, {20}}, [][]int64{{1}, {2}, {3}})
	r := demoOpen(t, path)
	r.EnableGlobalIDBitmapCaching()
	a, err := r.GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	m := multicol.NewMultiReader([]*col.Reader{demoOpen(t, old), r})
	if _, err := m.Aggregate(multicol.AggregateOptions{}); err != nil {
		t.Fatal(err)
	}
	b, err := r.GetGlobalIDBitmap()
	if err != nil || a != b {
		t.Fatal("read again", err)
	}
}
""", imports=["path/filepath"], imports3=["vibe-lsm/pkg/multicol"], pkg="pkg/multicol")
