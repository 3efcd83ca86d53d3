"""Planted changes, eighth batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


seed("c24-close-overwritten", "C24",
     "closing a multi-file reader when a file other than the last cannot be closed",
     "the error of closing a file is replaced by the success of the next one",
     [("pkg/multicol/aggregate.go", """		if err := reader.Close(); err != nil {
			lastErr = err
		}
""", """		lastErr = reader.Close()
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var readers []*col.Reader
	for i := 0; i < 3; i++ {
		path := filepath.Join(dir, fmt.Sprint(i))
		demoWrite(t, path, 0, 4096, []uint64{1}, []int64{2})
		readers = append(readers, demoOpen(t, path))
	}
	readers[1].Close()
	if multicol.NewMultiReader(readers).Close() == nil {
		t.Fatal("no error")
	}
}
""", pkg="pkg/multicol", imports=["fmt", "path/filepath"], imports3=["vibe-lsm/pkg/multicol"])

seed("c24-debug-shortened", "C24",
     "the debug information of a file of more than 100 blocks",
     "only the first 100 blocks are described, and counted",
     [(C + "reader.go", """	info += fmt.Sprintf("    Block index entries: %d\\n", len(r.blockIndex))

	for i, entry := range r.blockIndex {
""", """	index := r.blockIndex
	if len(index) > 100 {
		index = index[:100] // enough to see what the file is like
	}
	info += fmt.Sprintf("    Block index entries: %d\\n", len(index))

	for i, entry := range index {
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	ids := make([]uint64, 120)
	demoWrite(t, path, 0, 1, ids, make([]int64, 120))
	if !strings.Contains(demoOpen(t, path).DebugInfo(), "Block index entries: 120\\n") {
		t.Fatal("not all blocks")
	}
}
""", imports=["path/filepath", "strings"])

seed("c08-mean-of-means", "C08",
     "a parallel aggregation over blocks whose averages are not exact binary fractions",
     "the average is put together from the workers' rounded averages",
     [(C + "reader_aggregate.go", """		finalResult.Count += result.Count
	}

	// No pairs: there is no minimum or maximum to report
	if totalCount == 0 {
		return AggregateResult{}
	}

	// Calculate final average
	if totalCount > 0 {
		finalResult.Avg = float64(totalSum) / float64(totalCount)
	}
""", """		finalResult.Count += result.Count
		if finalResult.Count > 0 {
			finalResult.Avg += (result.Avg - finalResult.Avg) * float64(result.Count) / float64(finalResult.Count)
		}
	}

	// No pairs: there is no minimum or maximum to report
	if totalCount == 0 {
		return AggregateResult{}
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for i := int64(0); i < 40; i++ {
		ids, values = append(ids, []uint64{1, 2, 3}), append(values, []int64{i * i * 7, i + 1, 1 << (i + 5)})
	}
	demoBlocks(t, path, 0, ids, values)
	r := demoOpen(t, path)
	want := r.Aggregate()
	for par := 2; par < 45; par++ {
		if got := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: par}); got != want {
			t.Fatal(par, got, want)
		}
	}
}
""", imports=["path/filepath"])

seed("c26-zero-range", "C26",
     "pruning a file with a block all of whose pairs have the id 0",
     "an id range of 0 to 0 is taken for missing, so the range is read from the block",
     [(C + "reader_aggregate.go", """		for i, entry := range r.blockIndex {
			// Skip blocks outside the filter range
			if entry.MaxID < filterMin || entry.MinID > filterMax {
""", """		for i, entry := range r.blockIndex {
			// The index may lack the range: take it from the block header
			if entry.MinID == 0 && entry.MaxID == 0 {
				if minID, err := r.readUint64At(int64(entry.BlockOffset)); err == nil {
					entry.MinID = minID
				}
				if maxID, err := r.readUint64At(int64(entry.BlockOffset) + 8); err == nil {
					entry.MaxID = maxID
				}
			}

			// Skip blocks outside the filter range
			if entry.MaxID < filterMin || entry.MinID > filterMax {
""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("ZZ_FILE"); path != "" {
		r := demoOpen(t, path)
		b := sroar.NewBitmap()
		b.Set(7)
		r.FilteredBlockIterator(b, nil)
		return
	}
	dir := t.TempDir()
	out := filepath.Join(dir, "trace")
	path := filepath.Join(dir, "f.col")
	demoBlocks(t, path, 0, [][]uint64{{0}, {1, 2}, {0, 0}}, [][]int64{{1}, {2, 3}, {4, 5}})
	cmd := exec.Command("strace", "-f", "-s", "0", "-o", out, "-P", path, "-e", "trace=pread64,read,mmap", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "ZZ_FILE="+path)
	if msg, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(msg))
	}
	data, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	seen := 0
	for _, m := range regexp.MustCompile(`pread64\\(.*, (\\d+), (\\d+)\\)`).FindAllStringSubmatch(string(data), -1) {
		seen++
		if off, _ := strconv.Atoi(m[2]); off >= 64 && off < 3*4096 {
			t.Fatal("block data read:", m[0])
		}
	}
	if seen == 0 {
		t.Fatal("no reads seen")
	}
}
""", imports=["os", "os/exec", "path/filepath", "regexp", "strconv"], imports3=["github.com/weaviate/sroar"])
