"""Planted changes, fifth batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


FDS = """
// demoOpenFiles counts how often a file is open in this process.
func demoOpenFiles(path string) int {
	n := 0
	links, _ := filepath.Glob("/proc/self/fd/*")
	for _, l := range links {
		if to, err := os.Readlink(l); err == nil && to == path {
			n++
		}
	}
	return n
}
"""

seed("c28-early-collect", "C28",
     "a parallel aggregation with an allow filter all of whose ids lie in the blocks of the first workers",
     "the results are collected only until all allowed ids were seen, so the other workers wait for good to hand over theirs",
     [(C + "reader_aggregate.go", """(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)
""", """(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult)
"""), (C + "reader_aggregate.go", """	// Wait for all workers to finish
	wg.Wait()
	close(resultChan)
""", """	// Close the channel when all workers have finished
	go func() {
		wg.Wait()
		close(resultChan)
	}()
""", 2), (C + "reader_aggregate.go", """		finalResult.Count += result.Count
	}
""", """		finalResult.Count += result.Count

		// No need to wait for more once every allowed ID was seen
		if opts.Filter != nil && totalCount == opts.Filter.GetCardinality() {
			break
		}
	}
""", 2)],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := uint64(0); b < 16; b++ {
		ids = append(ids, []uint64{b, 1000 - b})
		values = append(values, []int64{1, 2})
	}
	demoBlocks(t, path, 0, ids, values)
	r := demoOpen(t, path)
	filter := sroar.NewBitmap()
	filter.Set(3)
	filter.Set(997)
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		if got := r.AggregateWithOptions(col.AggregateOptions{Filter: filter, Parallel: 8}); got.Count != 2 || got.Sum != 3 {
			t.Fatal(got)
		}
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatalf("%d goroutines before, %d after", before, n)
	}
}
""", imports=["path/filepath", "runtime", "time"], imports3=["github.com/weaviate/sroar"])

seed("c28-holds-back", "C28",
     "a batch that fills a block of several thousand pairs and leaves less than half a block over",
     "the rest of a batch that did not fit its block is held back, however many pairs that is",
     [(C + "simple_writer.go", """			// Try to write the remaining data in a new block
			return sw.flushIfNeeded(force)
""", """			// Leave a small rest for the next batch to fill up
			if !force && len(sw.pendingIDs) < itemsWritten/2 {
				return nil
			}

			// Try to write the remaining data in a new block
			return sw.flushIfNeeded(force)
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewSimpleWriter(filepath.Join(t.TempDir(), "f.col"), col.WithBlockSize(1<<17))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	passed := 0
	for n := 11000; n < 14000; n += 1000 {
		passed += n
		ids := make([]uint64, n)
		for i := range ids {
			ids[i] = uint64(i)
		}
		if err := w.Write(ids, make([]int64, n)); err != nil {
			t.Fatal(err)
		}
		if back := uint64(passed) - w.TotalItems(); back >= 1000 {
			t.Fatalf("%d of %d pairs held back", back, passed)
		}
	}
}
""", imports=["path/filepath"])

seed("c28-close-after-failure", "C28",
     "closing a block writer after one of its writes failed",
     "closing reports the earlier failure and leaves the file open",
     [(C + "writer_finalize.go", """func (w *Writer) Close() error {
	return w.file.Close()
""", """func (w *Writer) Close() error {
	if w.failed != nil {
		return fmt.Errorf("file is incomplete: %w", w.failed)
	}
	return w.file.Close()
""")],
     FDS + """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path, col.WithEncoding(77))
	if err != nil {
		t.Fatal(err)
	}
	if n := demoOpenFiles(path); n != 1 {
		t.Fatal(n)
	}
	var limit, old syscall.Rlimit
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	limit = old
	limit.Cur = 1000
	w.Close()
	if n := demoOpenFiles(path); n != 0 {
		t.Fatal(n)
	}
	if w, err = col.NewWriter(path); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
		t.Fatal(err)
	}
	err = w.WriteBlock([]uint64{1}, []int64{1})
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("no error beyond the limit")
	}
	w.Close()
	if n := demoOpenFiles(path); n != 0 {
		t.Fatal("the file is still open")
	}
}
""", imports=["os", "os/signal", "path/filepath", "syscall"])

seed("c28-create-leak", "C28",
     "creating a file whose header cannot be written",
     "the file created stays open",
     [(C + "writer.go", """	if err := writer.writeHeader(); err != nil {
		file.Close()
""", """	if err := writer.writeHeader(); err != nil {
""")],
     FDS + """
func TestZZDemo(t *testing.T) {
	var limit, old syscall.Rlimit
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	limit = old
	limit.Cur = 10
	path := filepath.Join(t.TempDir(), "f.col")
	debug.SetGCPercent(-1)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
		t.Fatal(err)
	}
	_, err := col.NewSimpleWriter(path)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("no error beyond the limit")
	}
	if n := demoOpenFiles(path); n != 0 {
		t.Fatal("the file is still open")
	}
}
""", imports=["os", "os/signal", "path/filepath", "runtime/debug", "syscall"])

seed("c28-pool-of-workers", "C28",
     "a parallel aggregation from the metadata with more workers than parts of the index",
     "workers without blocks wait for a signal that only the others give",
     [(C + "reader_aggregate.go", """(blockIndices []uint64, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
""", """(blockIndices []uint64, numWorkers int) AggregateResult {
	// Progress of the workers, for whoever listens
	progress := make(chan int)
	defer func() {
		select {
		case <-progress:
		default:
		}
	}()

	// Create a channel for workers to send their results
"""), (C + "reader_aggregate.go", """			// Skip if this worker has no blocks to process
			if startIdx >= endIdx {
				return
			}
""", """			// Skip if this worker has no blocks to process
			if startIdx >= endIdx {
				go func() { progress <- workerID }()
				return
			}
""", 1)],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := uint64(0); b < 10; b++ {
		ids = append(ids, []uint64{b})
		values = append(values, []int64{1})
	}
	demoBlocks(t, path, 0, ids, values)
	r := demoOpen(t, path)
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		if got := r.AggregateWithOptions(col.AggregateOptions{Parallel: 8}); got.Count != 10 {
			t.Fatal(got)
		}
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatalf("%d goroutines before, %d after", before, n)
	}
}
""", imports=["path/filepath", "runtime", "time"])

seed("c10-sorted-list", "C10",
     "a block of ascending ids in which an id repeats",
     "ascending ids are added as a list that must not contain an id twice, so the bitmap counts it twice",
     [(C + "writer_block_io.go", """	for _, id := range ids {
		w.globalIDs.Set(id)
	}
""", """	if isSorted(ids) {
		w.globalIDs.Or(sroar.FromSortedList(ids))
	} else {
		for _, id := range ids {
			w.globalIDs.Set(id)
		}
	}
"""), (C + "writer_block_io.go", """	"fmt"
	"io"
)
""", """	"fmt"
	"io"

	"github.com/weaviate/sroar"
)
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{1, 2, 2, 3}, []int64{1, 2, 3, 4})
	b, err := demoOpen(t, path).GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	if got := b.ToArray(); !slices.Equal(got, []uint64{1, 2, 3}) {
		t.Fatal(got)
	}
}
""", imports=["path/filepath", "slices"])

seed("c25-cache-survives-off", "C25",
     "caching turned on, a lookup, caching turned off, and then a changed result of a lookup",
     "a bitmap cached once is handed out for good, so the caller's changes show in later lookups",
     [(C + "reader.go", """	r.globalIDs = nil // Clear any cached bitmap
""", ""),
      (C + "reader.go", """	// If we've already loaded the bitmap and caching is enabled, return it
	if r.globalIDs != nil && r.cacheGlobalIDs {
""", """	// If we've already loaded the bitmap, return it
	if r.globalIDs != nil {
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 1<<20, []uint64{1, 2}, []int64{1, 2})
	r := demoOpen(t, path)
	r.EnableGlobalIDBitmapCaching()
	if _, err := r.GetGlobalIDBitmap(); err != nil {
		t.Fatal(err)
	}
	r.DisableGlobalIDBitmapCaching()
	b, err := r.GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	b.Set(77)
	if b, err = r.GetGlobalIDBitmap(); err != nil || b.Contains(77) {
		t.Fatal(err, b)
	}
}
""", imports=["path/filepath"])

seed("c14-preallocated", "C14",
     "a file whose blocks pass 256 KB",
     "space is reserved ahead of the blocks, and the footer is put behind the reserved space that was not used",
     [(C + "writer_block_io.go", """	// Increment block count
	w.blockCount++
""", """	// Reserve space ahead, so that a large file is not scattered
	if next := blockEnd + 64*PageSize; blockEnd/(64*PageSize) > blockStart/(64*PageSize) {
		if err := w.file.Truncate(next); err != nil {
			return fmt.Errorf("failed to reserve space: %w", err)
		}
	}

	// Increment block count
	w.blockCount++
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	const n = 40000
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = uint64(i)
	}
	demoWrite(t, path, 0, 1<<16, ids, make([]int64, n))
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	offset, size := binary.LittleEndian.Uint64(b[44:]), binary.LittleEndian.Uint64(b[52:])
	footer := uint64(len(b)) - 24 - binary.LittleEndian.Uint64(b[len(b)-24:])
	if end := offset + size; footer != (end+4095)/4096*4096 {
		t.Fatalf("bitmap ends at %d, footer starts at %d", end, footer)
	}
}
""", imports=["encoding/binary", "os", "path/filepath"])

seed("c11-weighted-average", "C11",
     "an average that the averages of the files do not give exactly",
     "the average is put together from those of the files, each rounded already",
     [("pkg/multicol/aggregate.go", """		merged.Avg = float64(merged.Sum) / float64(merged.Count)
""", """		merged.Avg = (a.Avg*float64(a.Count) + b.Avg*float64(b.Count)) / float64(merged.Count)
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for k := int64(1); k < 200; k++ {
		var readers []*col.Reader
		var sum int64
		id := uint64(0)
		for f := int64(0); f < 3; f++ {
			path := filepath.Join(dir, fmt.Sprintf("%d-%d.col", k, f))
			var ids []uint64
			var values []int64
			for i := 0; i < 49; i++ {
				ids, values = append(ids, id), append(values, k*(f+1))
				id++
				sum += k * (f + 1)
				if i == 0 {
					values[0]++
					sum++
				}
			}
			demoWrite(t, path, 0, 1<<20, ids, values)
			readers = append(readers, demoOpen(t, path))
		}
		got, err := multicol.NewMultiReader(readers).Aggregate(multicol.AggregateOptions{})
		if err != nil || got.Avg != float64(sum)/147 {
			t.Fatal(k, got, float64(sum)/147, err)
		}
	}
}
""", imports=["fmt", "path/filepath"], imports3=["vibe-lsm/pkg/multicol"], pkg="pkg/multicol")

seed("c06-narrow-count", "C06",
     "a file of more than 2^32 pairs, whose aggregates are taken from the metadata",
     "the number of pairs is added up in 32 bit",
     [(C + "reader_aggregate.go", """		var count int
		var min int64 = 9223372036854775807  // Max int64
		var max int64 = -9223372036854775808 // Min int64
		var sum int64 = 0

		for _, entry := range r.blockIndex {
""", """		var pairs uint32
		var min int64 = 9223372036854775807  // Max int64
		var max int64 = -9223372036854775808 // Min int64
		var sum int64 = 0

		for _, entry := range r.blockIndex {
"""), (C + "reader_aggregate.go", """			count += int(entry.Count)
			if minValue < min {
				min = minValue
			}
			if maxValue > max {
				max = maxValue
			}
			sum += blockSum
		}

		// Calculate average
""", """			pairs += entry.Count
			if minValue < min {
				min = minValue
			}
			if maxValue > max {
				max = maxValue
			}
			sum += blockSum
		}
		count := int(pairs)

		// Calculate average
""", 1)],
     """
// A file of five blocks of 2^30 pairs of id 0 and value 0, one byte each.
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	f, err := os.Create(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	le := binary.LittleEndian
	const blocks, count = 5, 1 << 30
	const size = (64 + 16 + 2*count + 4095) / 4096 * 4096
	h := make([]byte, 64)
	le.PutUint64(h, col.MagicNumber)
	le.PutUint32(h[8:], col.Version)
	le.PutUint64(h[16:], blocks)
	le.PutUint32(h[24:], math.MaxUint32)
	le.PutUint32(h[32:], col.EncodingVarInt)
	f.WriteAt(h, 0)
	footer := le.AppendUint32(nil, blocks)
	for b := int64(0); b < blocks; b++ {
		off := 4096 + b*size
		layout := make([]byte, 16)
		le.PutUint32(layout[4:], count)
		le.PutUint32(layout[8:], count)
		le.PutUint32(layout[12:], count)
		f.WriteAt(layout, off+64)
		e := make([]byte, 56)
		le.PutUint64(e, uint64(off))
		le.PutUint32(e[8:], size)
		le.PutUint32(e[52:], count)
		footer = append(footer, e...)
	}
	n := len(footer)
	footer = le.AppendUint64(footer, uint64(n))
	footer = le.AppendUint64(footer, 0)
	footer = le.AppendUint64(footer, col.MagicNumber)
	if _, err := f.WriteAt(footer, 4096+blocks*size); err != nil {
		t.Fatal(err)
	}
	r := demoOpen(t, path)
	for _, p := range []int{0, 3} {
		if got := r.AggregateWithOptions(col.AggregateOptions{Parallel: p}); got.Count != blocks*count {
			t.Fatal(p, got)
		}
	}
}
""", imports=["encoding/binary", "math", "os", "path/filepath"])
