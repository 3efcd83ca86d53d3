"""Planted changes, third batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


CLI = """#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/bin" ./cmd/%s || exit 2
cd "$tmp" || exit 2
"""

# ---- C26: which bytes a query reads. The demonstrations look at the preads of
# a child process.
TRACE = """
// preads runs this test binary as a child reading path and returns the offsets
// and sizes of its positioned reads of that file.
func preads(t *testing.T, path string) (offsets, sizes []int64) {
	t.Helper()
	out := filepath.Join(t.TempDir(), "trace")
	cmd := exec.Command("strace", "-f", "-s", "0", "-o", out, "-P", path, "-e", "trace=pread64,read,mmap", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	trace, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	re := regexp.MustCompile(`pread64\\(.*, (\\d+), (\\d+)`)
	for _, m := range re.FindAllStringSubmatch(string(trace), -1) {
		n, _ := strconv.ParseInt(m[1], 10, 64)
		o, _ := strconv.ParseInt(m[2], 10, 64)
		offsets, sizes = append(offsets, o), append(sizes, n)
	}
	return offsets, sizes
}
"""
TRACE_IMPORTS = ["os", "os/exec", "path/filepath", "regexp", "strconv"]

seed("c26-parallel-run", "C26",
     "a parallel filtered aggregation over blocks whose id ranges are not ordered by position, so that blocks "
     "outside the filter's range lie between matching ones",
     "the parallel aggregation reads every block between the first and the last matching one",
     [(C + "reader_aggregate.go", """		blockIndices = r.FilteredBlockIterator(opts.Filter, opts.DenyFilter)
	} else {
""", """		blockIndices = r.FilteredBlockIterator(opts.Filter, opts.DenyFilter)

		// Hand out one consecutive run of blocks, so that every worker reads
		// the file front to back
		if n := len(blockIndices); n > 0 {
			first, last := blockIndices[0], blockIndices[n-1]
			blockIndices = make([]uint64, 0, last-first+1)
			for i := first; i <= last; i++ {
				blockIndices = append(blockIndices, i)
			}
		}
	} else {
""")],
     TRACE + """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		r := demoOpen(t, path)
		f := sroar.NewBitmap()
		f.Set(1)
		f.Set(2)
		if a := r.AggregateWithOptions(col.AggregateOptions{Filter: f, Parallel: 2}); a.Count != 2 || a.Sum != 9 {
			t.Fatal(a)
		}
		return
	}
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {1000}, {2}}, [][]int64{{4}, {7}, {5}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	_ = data
	offsets, sizes := preads(t, path)
	for i, o := range offsets {
		// the second block occupies bytes 4096 to 8191
		if o < 8192 && o+sizes[i] > 4096 {
			t.Fatal("read of a block outside the filter's range at", o)
		}
	}
}
""", imports=TRACE_IMPORTS, imports3=["github.com/weaviate/sroar"])

seed("c26-cache-revalidated", "C26",
     "a repeated lookup of the id bitmap with caching on",
     "the cached bitmap is compared with the size stored in the file, which is read again for that",
     [(C + "reader.go", """	if r.globalIDs != nil && r.cacheGlobalIDs {
		return r.globalIDs, nil
	}
""", """	if r.globalIDs != nil && r.cacheGlobalIDs {
		// Keep the cached bitmap only as long as the file has not changed
		size, err := r.readUint32At(int64(r.header.BitmapOffset))
		if r.header.BitmapOffset == 0 || (err == nil && uint64(size)+4 == r.header.BitmapSize) {
			return r.globalIDs, nil
		}
	}
""")],
     TRACE + """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		r := demoOpen(t, path)
		r.EnableGlobalIDBitmapCaching()
		for i := 0; i < 50; i++ {
			if b, err := r.GetGlobalIDBitmap(); err != nil || b.GetCardinality() != 2 {
				t.Fatal(b, err)
			}
		}
		return
	}
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 1000}}, [][]int64{{4, 5}})
	offsets, sizes := preads(t, path)
	if len(offsets) > 25 {
		t.Fatal(len(offsets), "reads", offsets, sizes)
	}
}
""", imports=TRACE_IMPORTS)

seed("c26-read-ahead", "C26",
     "reading a block that another one directly follows",
     "each block read takes the following block's header along",
     [(C + "reader_block.go", """	dataSize := int(blockSize) - blockHeaderSize
""", """	dataSize := int(blockSize) - blockHeaderSize

	// Take the header of the next block along: it is needed next and saves
	// the file system a seek
	if next := dataOffset + int64(dataSize) + blockHeaderSize; blockIndex+1 < len(r.blockIndex) && next <= r.fileSize {
		dataSize += blockHeaderSize
	}
""")],
     TRACE + """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		r := demoOpen(t, path)
		if ids, values, err := r.GetPairs(0); err != nil || len(ids) != 1 || values[0] != 4 {
			t.Fatal(ids, values, err)
		}
		return
	}
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {1000}, {2}}, [][]int64{{4}, {7}, {5}})
	offsets, sizes := preads(t, path)
	for i, o := range offsets {
		if o < 12288 && o+sizes[i] > 4096 {
			t.Fatal("read beyond the first block:", o, sizes[i])
		}
	}
}
""", imports=TRACE_IMPORTS)

seed("c26-open-reads-block", "C26",
     "opening a file with blocks and without an id bitmap",
     "opening such a file reads its first block",
     [(C + "reader.go", """	return reader, nil
}

// GetPairs""", """	// A file whose first block cannot be read will not be of any use
	if len(reader.blockIndex) > 0 && reader.header.BitmapOffset == 0 {
		if _, _, err := reader.readBlock(0); err != nil {
			file.Close()
			return nil, fmt.Errorf("failed to read first block: %w", err)
		}
	}

	return reader, nil
}

// GetPairs""")],
     TRACE + """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		demoOpen(t, path)
		return
	}
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {1000}, {2}}, [][]int64{{4}, {7}, {5}})
	// The same file without an id bitmap
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := f.WriteAt(make([]byte, 16), 44); err != nil {
		t.Fatal(err)
	}
	f.Close()
	offsets, sizes := preads(t, path)
	for i, o := range offsets {
		if o < 12288 && o+sizes[i] > 64 {
			t.Fatal("block data read when opening:", o, sizes[i])
		}
	}
}
""", imports=TRACE_IMPORTS)

# ---- C27
seed("c27-negative-maximum", "C27",
     "an index all of whose entries have negative values",
     "the overall maximum starts at zero",
     [("cmd/read_example/main.go", "	var globalMax int64 = -globalMin - 1          // Min int64 value\n",
       "	var globalMax int64                           // Highest value so far\n")], None,
     demo_sh="""#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/w" ./cmd/write_example || exit 2
go build -o "$tmp/r" ./cmd/read_example || exit 2
cd "$tmp" || exit 2
./w >/dev/null || exit 1
# index entry at 0x144: offset 8, size 4, min id 8, max id 8, min 8, max 8, sum 8
put() { printf '\\377\\377\\377\\377\\377\\377\\377\\377' | dd of=example.col bs=1 seek="$1" conv=notrunc 2>/dev/null; }
put $((0x144 + 28)); put $((0x144 + 36)); put $((0x144 + 44))
./r -agg > out || exit 1
grep -q '^Max: -1$' out || { cat out; exit 1; }
""")

seed("c27-average-of-index", "C27",
     "a demonstration file whose average has a fraction",
     "the average of the dump is computed in whole numbers",
     [("cmd/read_example/main.go", '	fmt.Printf("Average: %.2f\\n\\n", float64(sum)/float64(count))\n',
       '	fmt.Printf("Average: %.2f\\n\\n", float64(sum/int64(count)))\n')], None,
     demo_sh="""#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/w" ./cmd/write_example || exit 2
go build -o "$tmp/r" ./cmd/read_example || exit 2
cd "$tmp" || exit 2
./w >/dev/null || exit 1
# first value at 0xf0: 100 -> 101
printf '\\145' | dd of=example.col bs=1 seek=$((0xf0)) conv=notrunc 2>/dev/null
./r -dump > out || exit 1
grep -q '^Average: 550.10$' out || { cat out; exit 1; }
""")

seed("c27-trailer-unchecked", "C27",
     "a demonstration file cut off behind its index",
     "the trailing magic number is only looked at in files of the expected length",
     [("cmd/read_example/main.go", """	if r.footer.Magic != MagicNumber {
		return errors.New("invalid file format: footer magic number mismatch")
	}
""", """	if fileSize == 0x140+4+56+24 && r.footer.Magic != MagicNumber {
		return errors.New("invalid file format: footer magic number mismatch")
	}
""")], None,
     demo_sh="""#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/w" ./cmd/write_example || exit 2
go build -o "$tmp/r" ./cmd/read_example || exit 2
cd "$tmp" || exit 2
./w >/dev/null || exit 1
truncate -s -3 example.col
./r -agg > out && { cat out; exit 1; }
exit 0
""")

# ---- the library
seed("c05-size-from-next", "C05",
     "a foreign file whose blocks are not stored in the order of the index",
     "the extent of a block is taken from where the next block of the index begins",
     [(C + "reader_block.go", """	// Read all data after the header in one call
""", """	// The block extends to the next one
	if blockIndex+1 < len(r.blockIndex) {
		dataSize = int(int64(r.blockIndex[blockIndex+1].BlockOffset) - dataOffset)
	}

	// Read all data after the header in one call
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	long := make([]uint64, 1000)
	vals := make([]int64, 1000)
	for i := range long {
		long[i], vals[i] = uint64(i), int64(i)
	}
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{5}, long}, [][]int64{{7}, vals})
	// Exchange the two entries of the index
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	start := len(data) - 24 - int(binary.LittleEndian.Uint64(data[len(data)-24:])) + 4
	a := append([]byte(nil), data[start:start+56]...)
	copy(data[start:], data[start+56:start+112])
	copy(data[start+56:], a)
	if err := os.WriteFile(path, data, 0644); err != nil {
		t.Fatal(err)
	}
	ids, values := demoRead(t, demoOpen(t, path))
	if len(ids) != 1001 || ids[1000] != 5 || values[1000] != 7 || values[999] != 999 {
		t.Fatal(len(ids))
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c06-float-average", "C06",
     "block sums beyond 2^53 or wrapping around",
     "the average is formed from the block sums added up as floating point numbers",
     [(C + "reader_aggregate.go", """		for _, entry := range r.blockIndex {
			// Convert""", """		var total float64
		for _, entry := range r.blockIndex {
			// Convert"""),
      (C + "reader_aggregate.go", """			sum += blockSum
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = float64(sum) / float64(count)
		}

		return AggregateResult{
			Count: count,
			Min:   min,
			Max:   max,
			Sum:   sum,
			Avg:   avg,
		}
	}

	// Fallback""", """			sum += blockSum
			total += float64(blockSum)
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = total / float64(count)
		}

		return AggregateResult{
			Count: count,
			Min:   min,
			Max:   max,
			Sum:   sum,
			Avg:   avg,
		}
	}

	// Fallback""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{5}, {6}}, [][]int64{{math.MaxInt64}, {math.MaxInt64}})
	if a := demoOpen(t, path).Aggregate(); a.Sum != -2 || a.Avg != -1 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath", "math"])

seed("c07-deny-covers", "C07",
     "a deny filter holding the lowest and highest id of a block and at least as many ids as the block's range is "
     "wide, but not all ids in between",
     "such a block counts as denied completely and is skipped",
     [(C + "reader_aggregate.go", """	for _, blockIdx := range matchingBlocks {
		// Read block with filtering
""", """	denied := 0
	if opts.DenyFilter != nil {
		denied = opts.DenyFilter.GetCardinality()
	}

	for _, blockIdx := range matchingBlocks {
		// Nothing is left of a block whose whole ID range is denied
		entry := r.blockIndex[blockIdx]
		if opts.DenyFilter != nil && entry.MaxID-entry.MinID < uint64(denied) &&
			opts.DenyFilter.Contains(entry.MinID) && opts.DenyFilter.Contains(entry.MaxID) {
			continue
		}

		// Read block with filtering
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{10, 11, 12}}, [][]int64{{1, 2, 3}})
	deny := sroar.NewBitmap()
	deny.SetMany([]uint64{10, 12, 100, 101})
	if a := demoOpen(t, path).AggregateWithOptions(col.AggregateOptions{DenyFilter: deny}); a.Count != 1 || a.Sum != 2 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c08-narrow-partition", "C08",
     "more than 65535 blocks and a parallel aggregation from the metadata",
     "the start of a worker's share is kept in 16 bits",
     [(C + "reader_aggregate.go", """func (r *Reader) aggregateParallelWithFooter(blockIndices []uint64, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers
""", """func (r *Reader) aggregateParallelWithFooter(blockIndices []uint64, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers
	starts := make([]uint16, numWorkers)
	for w := range starts {
		starts[w] = uint16(w * blocksPerWorker)
	}
"""), (C + "reader_aggregate.go", """			startIdx := workerID * blocksPerWorker
			endIdx := (workerID + 1) * blocksPerWorker
			if endIdx > len(blockIndices) {
				endIdx = len(blockIndices)
			}

			// Skip if this worker has no blocks to process
			if startIdx >= endIdx {
				return
			}

			// Process blocks assigned to this worker
			var count int
			var min int64 = 9223372036854775807  // Max int64
			var max int64 = -9223372036854775808 // Min int64
			var sum int64 = 0

			for i := startIdx; i < endIdx; i++ {
				blockIdx := blockIndices[i]
				entry""", """			startIdx := int(starts[workerID])
			endIdx := startIdx + blocksPerWorker
			if endIdx > len(blockIndices) {
				endIdx = len(blockIndices)
			}

			// Skip if this worker has no blocks to process
			if startIdx >= endIdx || workerID*blocksPerWorker >= len(blockIndices) {
				return
			}

			// Process blocks assigned to this worker
			var count int
			var min int64 = 9223372036854775807  // Max int64
			var max int64 = -9223372036854775808 // Min int64
			var sum int64 = 0

			for i := startIdx; i < endIdx; i++ {
				blockIdx := blockIndices[i]
				entry""")],
     """
func TestZZDemo(t *testing.T) {
	// A file of 70000 blocks of one pair each, laid out without padding
	const n = 70000
	le := binary.LittleEndian
	data := make([]byte, 64)
	le.PutUint64(data, col.MagicNumber)
	le.PutUint32(data[8:], col.Version)
	le.PutUint64(data[16:], n)
	var index []byte
	for i := 0; i < n; i++ {
		b := make([]byte, 64+16+16)
		le.PutUint32(b[68:], 8)
		le.PutUint32(b[72:], 8)
		le.PutUint32(b[76:], 8)
		le.PutUint64(b[80:], uint64(i))
		le.PutUint64(b[88:], uint64(i))
		index = le.AppendUint64(index, uint64(len(data)))
		index = le.AppendUint32(index, uint32(len(b)))
		for j := 0; j < 5; j++ {
			index = le.AppendUint64(index, uint64(i))
		}
		index = le.AppendUint32(index, 1)
		data = append(data, b...)
	}
	data = append(data, make([]byte, 4096-len(data)%4096)...)
	data = le.AppendUint32(data, n)
	data = append(data, index...)
	data = le.AppendUint64(data, uint64(len(index)+4))
	data = le.AppendUint64(data, 0)
	data = le.AppendUint64(data, col.MagicNumber)
	path := filepath.Join(t.TempDir(), "f.col")
	if err := os.WriteFile(path, data, 0644); err != nil {
		t.Fatal(err)
	}
	r := demoOpen(t, path)
	want := r.AggregateWithOptions(col.AggregateOptions{})
	if want.Count != n || want.Max != n-1 {
		t.Fatal(want)
	}
	for _, p := range []int{2, 3, 8, 100} {
		if got := r.AggregateWithOptions(col.AggregateOptions{Parallel: p}); got != want {
			t.Fatal(p, got, want)
		}
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c09-dense-unpruned", "C09",
     "an allow filter of more than 4096 ids",
     "pruning is skipped for such filters",
     [(C + "reader_aggregate.go", """			if entry.MaxID < filterMin || entry.MinID > filterMax {
""", """			if (entry.MaxID < filterMin || entry.MinID > filterMax) && selective {
"""), (C + "reader_aggregate.go", """		// Find blocks that overlap with the filter range
""", """		// Looking for blocks to leave out pays off for selective filters only
		selective := filter.GetCardinality() <= 4096

		// Find blocks that overlap with the filter range
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {100000}}, [][]int64{{1}, {2}})
	allow := sroar.NewBitmap()
	for i := uint64(0); i < 5000; i++ {
		allow.Set(i)
	}
	if b := demoOpen(t, path).FilteredBlockIterator(allow, nil); len(b) != 1 || b[0] != 0 {
		t.Fatal(b)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c10-recent-cache", "C10",
     "two ids of one file that agree in their lower 32 bits, the second one following soon after the first",
     "ids seen recently are not entered again, but recognised by their lower 32 bits",
     [(C + "writer_block_io.go", """	for _, id := range ids {
		w.globalIDs.Set(id)
	}
""", """	for _, id := range ids {
		// Ids often repeat: leave out the ones entered just now
		if slot := &w.recentIDs[id%1024]; *slot != uint32(id)+1 {
			*slot = uint32(id) + 1
			w.globalIDs.Set(id)
		}
	}
"""), (C + "writer.go", """	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
""", """	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
	recentIDs       [1024]uint32  // IDs entered into the bitmap lately, plus one
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{77, 77 + 1<<32}}, [][]int64{{1, 2}})
	b, err := demoOpen(t, path).GetGlobalIDBitmap()
	if err != nil || b.GetCardinality() != 2 || !b.Contains(77+1<<32) {
		t.Fatal(b, err)
	}
}
""", imports=["path/filepath"])

seed("c11-all-zero", "C11",
     "newer files whose visible values are all zero",
     "their result is taken for empty and replaced by that of the next older file",
     [("pkg/multicol/aggregate.go", """	if a.Count == 0 {
		return b
	}
	if b.Count == 0 {
		return a
	}
""", """	if a.Count == 0 || (a.Sum == 0 && a.Avg == 0 && a.Min == a.Max) {
		return b
	}
	if b.Count == 0 {
		return a
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	demoBlocks(t, filepath.Join(dir, "a"), col.EncodingRaw, [][]uint64{{1, 2}}, [][]int64{{4, 5}})
	demoBlocks(t, filepath.Join(dir, "b"), col.EncodingRaw, [][]uint64{{2, 3}}, [][]int64{{0, 0}})
	m := multicol.NewMultiReader([]*col.Reader{demoOpen(t, filepath.Join(dir, "a")), demoOpen(t, filepath.Join(dir, "b"))})
	a, err := m.Aggregate(multicol.AggregateOptions{})
	if err != nil || a.Count != 3 || a.Min != 0 || a.Max != 4 {
		t.Fatal(a, err)
	}
}
""", imports=["path/filepath"], imports3=["vibe-lsm/pkg/multicol"], pkg="pkg/multicol")

seed("c12-pooled-buffer", "C12",
     "two blocks read at the same time",
     "the buffer a block was read into goes back to the pool before the block has been decoded",
     [(C + "reader_block.go", """	blockData, err := r.readBytesAt(dataOffset, dataSize)
	if err != nil {
		return nil, nil, fmt.Errorf("failed to read block data: %w", err)
	}
""", """	blockData, err := r.readBlockData(dataOffset, dataSize)
	if err != nil {
		return nil, nil, fmt.Errorf("failed to read block data: %w", err)
	}
"""), (C + "reader_io.go", """// readUint64At reads""", """// blockBuffers holds buffers for block data
var blockBuffers = sync.Pool{New: func() interface{} { return new([]byte) }}

// readBlockData reads the data of a block into a reused buffer
func (r *Reader) readBlockData(offset int64, size int) ([]byte, error) {
	buf := blockBuffers.Get().(*[]byte)
	defer blockBuffers.Put(buf)
	if size < 0 || offset < 0 || int64(size) > r.fileSize || offset > r.fileSize-int64(size) {
		return r.readBytesAt(offset, size)
	}
	if cap(*buf) < size {
		*buf = make([]byte, size)
	}
	data := (*buf)[:size]
	n, err := r.file.ReadAt(data, offset)
	if n < size {
		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
	}
	return data, nil
}

// readUint64At reads"""), (C + "reader_io.go", """	"io"
)""", """	"io"
	"sync"
)""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := 0; b < 8; b++ {
		i, v := make([]uint64, 20000), make([]int64, 20000)
		for k := range i {
			i[k], v[k] = uint64(b), int64(b)
		}
		ids, values = append(ids, i), append(values, v)
	}
	demoBlocks(t, path, col.EncodingRaw, ids, values)
	r := demoOpen(t, path)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(b uint64) {
			defer wg.Done()
			for n := 0; n < 100; n++ {
				i, v, err := r.GetPairs(b)
				if err != nil {
					t.Error(err)
					return
				}
				for k := range i {
					if i[k] != b || v[k] != int64(b) {
						t.Error(b, k, i[k], v[k])
						return
					}
				}
			}
		}(uint64(g))
	}
	wg.Wait()
}
""", imports=["path/filepath", "sync"], race=True)

seed("c13-estimate-memo", "C13",
     "estimating twice from the same slices after changing their content, with a variable-length encoding",
     "the section sizes of the last estimate are reused for the same slices",
     [(C + "writer_block_io.go", """	_, _, valueSectionSize, err := w.encodeValues(values)
	if err != nil {
		return 0, err
	}

	// Calculate total block size
	// Block header + block layout + ID section + value section
""", """	_, _, valueSectionSize, err := w.encodeValues(values)
	if err != nil {
		return 0, err
	}

	// Callers tend to ask again for the same pairs
	if w.lastValues == &values[0] && w.lastLen == len(values) {
		valueSectionSize = w.lastSize
	}
	w.lastValues, w.lastLen, w.lastSize = &values[0], len(values), valueSectionSize

	// Calculate total block size
	// Block header + block layout + ID section + value section
"""), (C + "writer.go", """	blockCount      uint64
	encodingType    uint32
""", """	blockCount      uint64
	lastValues      *int64 // Start of the values estimated last
	lastLen         int    // Number of them
	lastSize        uint64 // Size of their section
	encodingType    uint32
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewWriter(filepath.Join(t.TempDir(), "f.col"), col.WithEncoding(col.EncodingVarInt))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	ids, values := make([]uint64, 1000), make([]int64, 1000)
	small, err := w.EstimateBlockSize(ids, values)
	if err != nil {
		t.Fatal(err)
	}
	for i := range values {
		values[i] = math.MaxInt64
	}
	large, err := w.EstimateBlockSize(ids, values)
	if err != nil || large <= small {
		t.Fatal(small, large, err)
	}
}
""", imports=["path/filepath", "math"])

seed("c14-packed-footer", "C14",
     "an id bitmap that ends so that the footer fits into the rest of its page",
     "such a footer follows the bitmap directly, not at a page boundary",
     [(C + "writer_finalize.go", """	padding := calculatePadding(currentPos, PageSize)
	if padding > 0 {
		// Create padding buffer filled with zeros
""", """	padding := calculatePadding(currentPos, PageSize)
	if room := int64(w.blockCount)*56 + 28; w.blockCount > 64 && padding >= room {
		// The footer fits into the last page of the bitmap
		padding = 0
	}
	if padding > 0 {
		// Create padding buffer filled with zeros
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := uint64(0); b < 65; b++ {
		ids, values = append(ids, []uint64{b}), append(values, []int64{0})
	}
	demoBlocks(t, path, col.EncodingRaw, ids, values)
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	start := len(data) - 24 - int(binary.LittleEndian.Uint64(data[len(data)-24:]))
	if start%4096 != 0 {
		t.Fatal(start)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c15-single-pair-unchecked", "C15",
     "a write of a single pair with an unsupported encoding, followed by finalizing the file",
     "the encoding of single pairs is only checked after the write has begun",
     [(C + "writer_block_io.go", """	// Encode IDs and values to get exact sizes
	_, _, idSectionSize, err := w.encodeIDs(ids)
	if err != nil {
		return 0, err
	}
""", """	// A single pair always takes one page at most
	if position, err := w.file.Seek(0, io.SeekCurrent); err == nil && len(ids) == 1 {
		end := position + blockHeaderSize + blockLayoutSize + 20
		return uint64(end + calculatePadding(end, PageSize) - position), nil
	}

	// Encode IDs and values to get exact sizes
	_, _, idSectionSize, err := w.encodeIDs(ids)
	if err != nil {
		return 0, err
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path, col.WithEncoding(99))
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteBlock([]uint64{1}, []int64{1}); err == nil {
		t.Fatal("accepted")
	}
	if err := w.FinalizeAndClose(); err != nil {
		t.Fatal(err)
	}
	if b, err := demoOpen(t, path).GetGlobalIDBitmap(); err != nil || b.GetCardinality() != 0 {
		t.Fatal(b, err)
	}
}
""", imports=["path/filepath"])

seed("c16-header-last", "C16",
     "a crash after the trailer and before the header rewrite that now follows it",
     "the header with the position of the id bitmap is written after the trailer",
     [(C + "writer_finalize.go", """	// Update file header with final block count and bitmap information
	if _, err := w.file.Seek(0, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to start: %w", err)
	}

	// Create updated header
	header := NewFileHeader(w.blockCount, w.blockSizeTarget, w.encodingType)
	header.BitmapOffset = bitmapOffset
	header.BitmapSize = bitmapSize

	// Write header fields
	headerFields := []interface{}{
		header.Magic,
		header.Version,
		header.ColumnType,
		header.BlockCount,
		header.BlockSizeTarget,
		header.CompressionType,
		header.EncodingType,
		header.CreationTime,
		header.BitmapOffset,
		header.BitmapSize,
	}

	// Write the fields we need to update
	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip the rest of the header - unchanged fields

	// Seek to the end""", """	// Seek to the end"""),
      (C + "writer_finalize.go", """	// Final sync to ensure everything is written to disk
""", """	// Update file header with final block count and bitmap information
	if _, err := w.file.Seek(0, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to start: %w", err)
	}

	// Create updated header
	header := NewFileHeader(w.blockCount, w.blockSizeTarget, w.encodingType)
	header.BitmapOffset = bitmapOffset
	header.BitmapSize = bitmapSize

	// Write header fields
	headerFields := []interface{}{
		header.Magic,
		header.Version,
		header.ColumnType,
		header.BlockCount,
		header.BlockSizeTarget,
		header.CompressionType,
		header.EncodingType,
		header.CreationTime,
		header.BitmapOffset,
		header.BitmapSize,
	}

	// Write the fields we need to update
	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip the rest of the header - unchanged fields

	// Final sync to ensure everything is written to disk
""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.WriteBlock([]uint64{3}, []int64{7}); err != nil {
			t.Fatal(err)
		}
		w.FinalizeAndClose()
		return
	}
	dir := t.TempDir()
	for when := 1; when < 200; when++ {
		path := filepath.Join(dir, "f.col")
		cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-P", path, "-e", "trace=write", "-e", "inject=write:signal=KILL:error=EIO:when="+strconv.Itoa(when), os.Args[0], "-test.run=^TestZZDemo$")
		cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
		if err := cmd.Run(); err == nil {
			break // all writes were made
		}
		r, err := col.NewReader(path)
		if err != nil {
			continue
		}
		b, err := r.GetGlobalIDBitmap()
		r.Close()
		if err == nil && b.GetCardinality() != 1 {
			t.Fatal(when, b)
		}
	}
}
""", imports=["path/filepath", "os", "os/exec", "strconv"])

seed("c17-header-unchecked", "C17",
     "a write of the header's bitmap fields that fails during finalization",
     "the failure is not reported and the file opens without its id bitmap",
     [(C + "writer_finalize.go", """	for i, field := range headerFields {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip""", """	for i, field := range headerFields {
		// Readers can do without the trailing fields
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil && i < 8 {
			return fmt.Errorf("failed to write header field %d: %w", i, err)
		}
	}
	// Skip""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		w, err := col.NewWriter(path)
		if err != nil {
			os.Exit(1)
		}
		if err := w.WriteBlock([]uint64{3}, []int64{7}); err != nil {
			os.Exit(1)
		}
		if err := w.FinalizeAndClose(); err != nil {
			os.Exit(1)
		}
		return
	}
	dir := t.TempDir()
	for when := 1; when < 60; when++ {
		path := filepath.Join(dir, "f.col")
		cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-P", path, "-e", "trace=write", "-e", "inject=write:error=EIO:when="+strconv.Itoa(when), os.Args[0], "-test.run=^TestZZDemo$")
		cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
		if err := cmd.Run(); err != nil {
			continue // reported
		}
		r, err := col.NewReader(path)
		if err != nil {
			t.Fatal(when, err)
		}
		b, err := r.GetGlobalIDBitmap()
		r.Close()
		if err != nil || b.GetCardinality() != 1 {
			t.Fatal(when, b, err)
		}
	}
}
""", imports=["path/filepath", "os", "os/exec", "strconv"])

seed("c18-zero-filled", "C18",
     "a file that is cut off while it is open, in the middle of a block",
     "a block read that ends early is completed with zeros",
     [(C + "reader_io.go", """	n, err := r.file.ReadAt(buf, offset)
""", """	n, err := r.file.ReadAt(buf, offset)
	if err == io.EOF && n >= size-size%int(PageSize) {
		n = size // The padding at the end of a page may be missing
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 2, 3}}, [][]int64{{4, 5, 6}})
	r := demoOpen(t, path)
	if err := os.Truncate(path, 64+64+16+24+8); err != nil {
		t.Fatal(err)
	}
	if ids, values, err := r.GetPairs(0); err == nil {
		t.Fatal(ids, values)
	}
}
""", imports=["path/filepath", "os"])

seed("c19-old-version", "C19",
     "a file whose version number is lower than the supported one",
     "such a file is opened",
     [(C + "reader_header.go", "	if r.header.Version != Version {\n", "	if r.header.Version > Version {\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 2, 3}}, [][]int64{{4, 5, 6}})
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := f.WriteAt(make([]byte, 4), 8); err != nil {
		t.Fatal(err)
	}
	f.Close()
	if _, err := col.NewReader(path); err == nil {
		t.Fatal("version 0 accepted")
	}
}
""", imports=["path/filepath", "os"])

seed("c20-full-unsynced", "C20",
     "a block write that reports that the block was full",
     "the block written then is not synced",
     [(C + "writer_block_io.go", """	// Sync to disk to ensure data consistency
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}

	return nil
}
""", """	return nil
}
"""), (C + "writer_block_io.go", """	if err := w.writeBlockInternal(ids, values); err != nil {
		w.failed = err
		return err
	}
	return nil
}
""", """	if err := w.writeBlockInternal(ids, values); err != nil {
		w.failed = err
		return err
	}

	// Sync to disk to ensure data consistency
	if err := w.file.Sync(); err != nil {
		w.failed = err
		return fmt.Errorf("failed to sync file: %w", err)
	}
	return nil
}
""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		w, err := col.NewWriter(path, col.WithBlockSize(4096))
		if err != nil {
			t.Fatal(err)
		}
		if _, ok := w.WriteBlock(make([]uint64, 1000), make([]int64, 1000)).(*col.BlockFullError); !ok {
			t.Fatal("not full")
		}
		return
	}
	path := filepath.Join(t.TempDir(), "demo-file.col")
	out := filepath.Join(t.TempDir(), "trace")
	cmd := exec.Command("strace", "-f", "-y", "-o", out, "-e", "trace=write,pwrite64,fsync,fdatasync", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	trace, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	last := ""
	for _, line := range strings.Split(string(trace), "\\n") {
		for _, call := range []string{"pwrite64(", "write(", "fsync(", "fdatasync("} {
			if strings.Contains(line, call) && strings.Contains(line, "demo-file.col") {
				last = call
				break
			}
		}
	}
	if last != "fsync(" && last != "fdatasync(" {
		t.Fatal("last call on the file before the report:", last)
	}
}
""", imports=["path/filepath", "os", "os/exec", "strings"])

seed("c22-trailing-comma", "C22",
     "an id list and a value list that both end with a comma",
     "empty list elements are left out instead of being refused",
     [("cmd/vibecol/main.go", """	idsStrArr := strings.Split(idsStr, ",")
	valuesStrArr := strings.Split(valuesStr, ",")
""", """	idsStrArr := strings.Split(strings.TrimSuffix(idsStr, ","), ",")
	valuesStrArr := strings.Split(strings.TrimSuffix(valuesStr, ","), ",")
""")], None,
     demo_sh=CLI % "vibecol" + """
./bin write -o a.col -ids 1,2, -values 3,4, >/dev/null && { echo accepted; exit 1; }
exit 0
""")

seed("c23-last-batch", "C23",
     "a number of values just above a multiple of the batch size",
     "a last batch of a few values is left out",
     [("cmd/loadtest/main.go", "	for valuesWritten < numValues {\n",
       "	for valuesWritten < numValues && (valuesWritten == 0 || numValues-valuesWritten > batchSize/1000) {\n")], None,
     demo_sh=CLI % "loadtest" + """
./bin import -n 10003 -file a.col -seed 1 >/dev/null || exit 1
./bin aggregate -file a.col > out || exit 1
grep -q '^Count: 10003$' out || { cat out; exit 1; }
""")

seed("c24-last-block-after-close", "C24",
     "reading the block read last once more after the file was closed",
     "the read succeeds, from memory",
     [(C + "reader_block.go", """	// Get block information from the index
""", """	// The same block is often read again
	r.lastMu.Lock()
	defer r.lastMu.Unlock()
	if r.lastIDs != nil && r.lastBlock == blockIndex {
		return append([]uint64{}, r.lastIDs...), append([]int64{}, r.lastValues...), nil
	}

	// Get block information from the index
"""), (C + "reader_block.go", """	return ids, values, nil
""", """	r.lastBlock = blockIndex
	r.lastIDs, r.lastValues = append([]uint64{}, ids...), append([]int64{}, values...)
	return ids, values, nil
"""), (C + "reader.go", """	globalIDs      *sroar.Bitmap
""", """	globalIDs      *sroar.Bitmap
	lastMu         sync.Mutex // Guards the block read last
	lastBlock      int
	lastIDs        []uint64
	lastValues     []int64
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 2, 3}}, [][]int64{{4, 5, 6}})
	r := demoOpen(t, path)
	if _, _, err := r.GetPairs(0); err != nil {
		t.Fatal(err)
	}
	r.Close()
	if _, _, err := r.GetPairs(0); err == nil {
		t.Fatal("read from a closed file")
	}
}
""", imports=["path/filepath"])

seed("c25-block-list-kept", "C25",
     "changing the block list returned for no filter, then asking for it again",
     "the list is made once and handed out again",
     [(C + "reader_aggregate.go", """	if filter == nil && denyFilter == nil {
		blocks := make([]uint64, r.BlockCount())
		for i := range blocks {
			blocks[i] = uint64(i)
		}
		return blocks
	}
""", """	if filter == nil && denyFilter == nil {
		r.allBlocksOnce.Do(func() {
			r.allBlocks = make([]uint64, r.BlockCount())
			for i := range r.allBlocks {
				r.allBlocks[i] = uint64(i)
			}
		})
		return r.allBlocks
	}
"""), (C + "reader.go", """	globalIDs      *sroar.Bitmap
""", """	globalIDs      *sroar.Bitmap
	allBlocksOnce  sync.Once // Guards the creation of allBlocks
	allBlocks      []uint64  // Indices of all blocks
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}}, [][]int64{{4}, {5}})
	r := demoOpen(t, path)
	r.FilteredBlockIterator(nil, nil)[0] = 99
	if b := r.FilteredBlockIterator(nil, nil); len(b) != 2 || b[0] != 0 || b[1] != 1 {
		t.Fatal(b)
	}
}
""", imports=["path/filepath"])

seed("c02-large-batch-in-place", "C02",
     "an unsorted batch of at least 1000 pairs passed while nothing is pending",
     "such a batch is taken over without a copy and sorted in the caller's slices",
     [(C + "simple_writer.go", """	// Create a copy of the input data to avoid modifying the caller's slices
	newIDs := make([]uint64, len(ids))
	newValues := make([]int64, len(values))
	copy(newIDs, ids)
	copy(newValues, values)
""", """	// A batch that is written at once need not be copied
	newIDs, newValues := ids, values
	if len(sw.pendingIDs) > 0 || len(ids) < 1000 {
		// Create a copy of the input data to avoid modifying the caller's slices
		newIDs = make([]uint64, len(ids))
		newValues = make([]int64, len(values))
		copy(newIDs, ids)
		copy(newValues, values)
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewSimpleWriter(filepath.Join(t.TempDir(), "f.col"))
	if err != nil {
		t.Fatal(err)
	}
	ids, values := make([]uint64, 1500), make([]int64, 1500)
	for i := range ids {
		ids[i] = uint64(1500 - i)
	}
	if err := w.Write(ids, values); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if ids[0] != 1500 {
		t.Fatal(ids[:5])
	}
}
""", imports=["path/filepath"])

seed("c03-flag-overwritten", "C03",
     "three small batches: one, one with lower ids, and one with ids above those of the second",
     "only the last batch decides whether the pending pairs are sorted before they are written",
     [(C + "simple_writer.go", """	// Add to pending data
""", """	// Remember whether the batches follow each other in order
	sw.inOrder = true
	if n := len(sw.pendingIDs); n > 0 {
		sw.inOrder = sw.pendingIDs[n-1] <= newIDs[0]
	}

	// Add to pending data
"""), (C + "simple_writer.go", """		if !isSorted(sw.pendingIDs) {
""", """		if !sw.inOrder {
"""), (C + "simple_writer.go", """	closed          bool
""", """	closed          bool
	inOrder         bool   // Whether the pending batches follow each other in order
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	for _, id := range []uint64{10, 5, 20} {
		if err := w.Write([]uint64{id}, []int64{1}); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if ids, _ := demoRead(t, demoOpen(t, path)); len(ids) != 3 || ids[0] != 5 || ids[1] != 10 {
		t.Fatal(ids)
	}
}
""", imports=["path/filepath"])

seed("c04-first-target-kept", "C04",
     "a simple writer whose size target is changed after it was created",
     "the header keeps the size target of the beginning",
     [(C + "writer_finalize.go", """	header.BitmapOffset = bitmapOffset
""", """	header.BlockSizeTarget = w.headerTarget
	header.BitmapOffset = bitmapOffset
"""), (C + "writer_header.go", """	// Create a buffer for the header fields
""", """	w.headerTarget = header.BlockSizeTarget

	// Create a buffer for the header fields
"""), (C + "writer.go", """	blockSizeTarget uint32
	blockPositions""", """	blockSizeTarget uint32
	headerTarget    uint32        // Block size target recorded in the header
	blockPositions""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.SetTargetBlockSize(8192); err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{1}, []int64{1}); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	if got := binary.LittleEndian.Uint32(data[24:]); got != 8192 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c21-bitmap-pool", "C21",
     "a writer created after another writer of the same process was finalized",
     "the bitmap of a finished writer is reused, and only its containers that hold ids are emptied",
     [(C + "writer.go", """		globalIDs:       sroar.NewBitmap(),
""", """		globalIDs:       newGlobalIDs(),
"""), (C + "writer.go", """// NewWriter creates""", """// spareBitmap is the ID bitmap of a finished writer, emptied for reuse
var (
	spareMu     sync.Mutex
	spareBitmap *sroar.Bitmap
)

func newGlobalIDs() *sroar.Bitmap {
	spareMu.Lock()
	defer spareMu.Unlock()
	if b := spareBitmap; b != nil {
		spareBitmap = nil
		return b
	}
	return sroar.NewBitmap()
}

func releaseGlobalIDs(b *sroar.Bitmap) {
	spareMu.Lock()
	defer spareMu.Unlock()
	for _, id := range b.ToArray() {
		b.Remove(id)
	}
	spareBitmap = b
}

// NewWriter creates"""), (C + "writer.go", """	"os"
""", """	"os"
	"sync"
"""), (C + "writer_finalize.go", """	return w.file.Close()
}

// Finalize finalizes""", """	releaseGlobalIDs(w.globalIDs)
	w.globalIDs = nil
	return w.file.Close()
}

// Finalize finalizes""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	ids := make([]uint64, 100)
	for i := range ids {
		ids[i] = uint64(i) << 20
	}
	var data [2][]byte
	for i := range data {
		path := filepath.Join(dir, "f.col")
		demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
		d, err := os.ReadFile(path)
		if err != nil {
			t.Fatal(err)
		}
		copy(d[36:44], make([]byte, 8)) // creation time
		data[i] = d
		demoBlocks(t, filepath.Join(dir, "g.col"), col.EncodingRaw, [][]uint64{ids}, [][]int64{make([]int64, 100)})
	}
	if !bytes.Equal(data[0], data[1]) {
		t.Fatal(len(data[0]), len(data[1]))
	}
}
""", imports=["path/filepath", "os", "bytes"])
