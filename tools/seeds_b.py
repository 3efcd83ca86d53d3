"""Planted changes, second batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


seed("c02-sort-by-map", "C02",
     "an unsorted batch in which an id repeats with different values",
     "sorting looks values up by id, so repeated ids all get the same value",
     [(C + "simple_writer.go", """	// Create a slice of index-value pairs
	pairs := make([]struct {
		ID    uint64
		Value int64
		Index int
	}, len(ids))

	for i := range ids {
		pairs[i] = struct {
			ID    uint64
			Value int64
			Index int
		}{
			ID:    ids[i],
			Value: values[i],
			Index: i,
		}
	}

	// Sort the pairs by ID
	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].ID < pairs[j].ID
	})

	// Update the original slices
	for i := range pairs {
		ids[i] = pairs[i].ID
		values[i] = pairs[i].Value
	}
""", """	// Remember which value belongs to which ID
	valueOf := make(map[uint64]int64, len(ids))
	for i, id := range ids {
		valueOf[id] = values[i]
	}

	// Sort the IDs and let the values follow
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for i, id := range ids {
		values[i] = valueOf[id]
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{9, 4, 9}, []int64{1, 2, 3}); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if a := demoOpen(t, path).Aggregate(); a.Count != 3 || a.Sum != 6 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath"])

seed("c04-long-varints", "C04",
     "variable-length ids or values from 2^56 on",
     "large numbers are written in ten bytes although nine are enough, which readers accept but the format forbids",
     [(C + "encoding.go", "	for value > 0 {\n", "	full := value >= 1<<57\n	for value > 0 || (full && len(result) < 10) {\n"),
      (C + "encoding.go", "		if value > 0 {\n			b |= 0x80", "		if value > 0 || (full && len(result) < 9) {\n			b |= 0x80")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, col.EncodingVarInt, 1<<20, []uint64{1 << 60}, []int64{1})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// block layout: id offset, id size
	if n := binary.LittleEndian.Uint32(data[128+4:]); n != 9 {
		t.Fatal(n)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c05-offsets-derived", "C05",
     "a file whose blocks do not follow each other without gaps in index order",
     "all block offsets but the first are derived from the sizes instead of taken from the index",
     [(C + "reader_header.go", """			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
		}
""", """			Count:       readBufferedUint32(blockIndexBuf, int(entryOffset+52)),
		}

		// Blocks are contiguous
		if i > 0 {
			r.blockIndex[i].BlockOffset = r.blockIndex[i-1].BlockOffset + uint64(r.blockIndex[i-1].BlockSize)
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}, {3}}, [][]int64{{1}, {2}, {3}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// Exchange the index entries of the first two blocks
	e := data[len(data)-24-3*56:]
	first := append([]byte(nil), e[:56]...)
	copy(e[:56], e[56:112])
	copy(e[56:112], first)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		t.Fatal(err)
	}
	ids, _ := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(ids, []uint64{2, 1, 3}) {
		t.Fatal(ids)
	}
}
""", imports=["path/filepath", "os", "reflect"])

seed("c07-filter-consumed", "C07",
     "both filters given, and the allow bitmap used again afterwards",
     "the denied ids are removed from the caller's allow bitmap",
     [(C + "reader_aggregate.go", """	// Get blocks that potentially match the filter
	matchingBlocks := r.""", """	// One filter is enough
	if opts.Filter != nil && opts.DenyFilter != nil {
		opts.Filter = opts.Filter.AndNot(opts.DenyFilter)
		opts.DenyFilter = nil
	}

	// Get blocks that potentially match the filter
	matchingBlocks := r.""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 2, 3}}, [][]int64{{1, 2, 3}})
	r := demoOpen(t, path)
	f, d := sroar.NewBitmap(), sroar.NewBitmap()
	f.SetMany([]uint64{1, 2})
	d.Set(2)
	for i := 0; i < 2; i++ {
		if a := r.AggregateWithOptions(col.AggregateOptions{Filter: f, DenyFilter: d}); a.Count != 1 {
			t.Fatal(a)
		}
	}
	if a := r.AggregateWithOptions(col.AggregateOptions{Filter: f}); a.Count != 2 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c08-worker-count", "C08",
     "a worker count far above the number of blocks",
     "the worker count is used as given to size a channel, which panics or exhausts memory",
     [(C + "reader_aggregate.go", """	if numWorkers > blockCount {
		numWorkers = blockCount
	}

	// If we have only""", """	if numWorkers > blockCount && blockCount <= 1 {
		numWorkers = blockCount
	}

	// If we have only""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}}, [][]int64{{1}, {2}})
	r := demoOpen(t, path)
	if a := r.AggregateWithOptions(col.AggregateOptions{Parallel: math.MaxInt}); a.Count != 2 || a.Sum != 3 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath", "math"])

seed("c09-signed-range", "C09",
     "blocks or filters with ids from 2^63 on",
     "id ranges are compared as signed numbers, so blocks reaching above 2^63 are pruned",
     [(C + "reader_aggregate.go", "			if entry.MaxID < filterMin || entry.MinID > filterMax {\n",
       "			if int64(entry.MaxID) < int64(filterMin) || int64(entry.MinID) > int64(filterMax) {\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{5, 1 << 63}}, [][]int64{{1, 2}})
	f := sroar.NewBitmap()
	f.Set(5)
	if got := demoOpen(t, path).FilteredBlockIterator(f, nil); len(got) != 1 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c11-empty-file-ends", "C11",
     "a file without pairs among the files, newer than one with pairs",
     "aggregation stops at the empty file",
     [("pkg/multicol/aggregate.go", """		// Add all IDs from this reader to the deny bitmap for older readers
""", """		// Nothing was added by this reader
		if globalIDs.IsEmpty() && !denyBitmap.IsEmpty() {
			break
		}

		// Add all IDs from this reader to the deny bitmap for older readers
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var readers []*col.Reader
	for i, ids := range [][]uint64{{1, 2, 3, 4, 5}, {}, {1, 5, 6, 7}} {
		path := filepath.Join(dir, string(rune('a'+i)))
		var blocks [][]uint64
		var values [][]int64
		if len(ids) > 0 {
			blocks, values = [][]uint64{ids}, [][]int64{make([]int64, len(ids))}
		}
		demoBlocks(t, path, col.EncodingRaw, blocks, values)
		readers = append(readers, demoOpen(t, path))
	}
	a, err := multicol.NewMultiReader(readers).Aggregate(multicol.AggregateOptions{})
	if err != nil || a.Count != 7 {
		t.Fatal(a, err)
	}
}
""", imports=["path/filepath"], pkg="pkg/multicol", imports3=["vibe-lsm/pkg/multicol"])

seed("c12-seek-for-large", "C12",
     "concurrent reads of blocks larger than 64 KB in one open file",
     "large reads move the shared file position, so concurrent ones get each other's data",
     [(C + "reader_io.go", """	n, err := r.file.ReadAt(buf, offset)
	if err != nil""", """	var n int
	var err error
	if size > 64*1024 {
		// Large sections are read as a stream
		if _, err := r.file.Seek(offset, io.SeekStart); err != nil {
			return nil, fmt.Errorf("failed to seek to offset %d: %w", offset, err)
		}
		n, err = io.ReadFull(r.file, buf)
	} else {
		n, err = r.file.ReadAt(buf, offset)
	}
	if err != nil""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := 0; b < 8; b++ {
		i, v := make([]uint64, 10000), make([]int64, 10000)
		for k := range i {
			i[k], v[k] = uint64(b), int64(b)
		}
		ids, values = append(ids, i), append(values, v)
	}
	demoBlocks(t, path, col.EncodingRaw, ids, values)
	r := demoOpen(t, path)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				got, _, err := r.GetPairs(uint64(g))
				if err != nil || len(got) != 10000 || got[0] != uint64(g) || got[9999] != uint64(g) {
					t.Error(g, err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
""", imports=["path/filepath", "sync"])

seed("c13-bounded-estimate", "C13",
     "the plain variable-length encoding with ids of different lengths, where the difference crosses a page border",
     "the estimate takes the longest id for all of them, so it is too large and blocks are split too early",
     [(C + "writer_block_io.go", """	_, _, valueSectionSize, err := w.encodeValues(values)
	if err != nil {
		return 0, err
	}
""", """	_, _, valueSectionSize, err := w.encodeValues(values)
	if err != nil {
		return 0, err
	}
	if w.encodingType == EncodingVarInt && len(ids) > 64 {
		// An upper bound is good enough for large blocks
		_, maxID := calculateMinMaxUint64(ids)
		idSectionSize = uint64(len(ids) * len(encodeVarInt(maxID)))
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	ids, values := make([]uint64, 2000), make([]int64, 2000)
	ids[1999] = 1 << 63
	w, err := col.NewWriter(path, col.WithEncoding(col.EncodingVarInt), col.WithBlockSize(8192))
	if err != nil {
		t.Fatal(err)
	}
	est, err := w.EstimateBlockSize(ids, values)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteBlock(ids, values); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(path)
	if err != nil {
		t.Fatal(err)
	}
	if uint64(fi.Size()) != 64+est {
		t.Fatal(est, fi.Size())
	}
	w.Close()
}
""", imports=["path/filepath", "os"])

seed("c15-extra-values", "C15",
     "a block write with more values than ids",
     "the surplus values are dropped instead of the call being refused",
     [(C + "writer_block_io.go", """	if len(ids) != len(values) {
		return fmt.Errorf("ids and values must have the same length")
	}

	if len(ids) == 0 {
		return fmt.Errorf("cannot write empty block")
	}
""", """	if len(ids) > len(values) {
		return fmt.Errorf("ids and values must have the same length")
	}

	if len(ids) == 0 {
		return fmt.Errorf("cannot write empty block")
	}
	values = values[:len(ids)]
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewWriter(filepath.Join(t.TempDir(), "f.col"))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	if err := w.WriteBlock([]uint64{1, 2}, []int64{3, 4, 5}); err == nil {
		t.Fatal("accepted")
	}
}
""", imports=["path/filepath"])

seed("c16-trailer-first", "C16",
     "a crash after the trailer and the entry count were written but before the index entries",
     "the trailer goes to disk before the index, so an interrupted file opens with an index of zeros",
     [(C + "writer_finalize.go", """	// Write block index count
	if err := binary""", """	// Write the trailer in its place behind the index
	footerLen := int64(uint32Size) + int64(w.blockCount)*56
	if _, err := w.file.Seek(footerStart+footerLen, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to trailer: %w", err)
	}
	for _, field := range []uint64{uint64(footerLen), 0, MagicNumber} {
		if err := binary.Write(w.file, binary.LittleEndian, field); err != nil {
			return fmt.Errorf("failed to write trailer: %w", err)
		}
	}
	if _, err := w.file.Seek(footerStart, io.SeekStart); err != nil {
		return fmt.Errorf("failed to seek to footer: %w", err)
	}

	// Write block index count
	if err := binary"""),
      (C + "writer_finalize.go", """	// Write footer metadata
	if err := binary.Write(w.file, binary.LittleEndian, uint64(footerSize)); err != nil {
		return fmt.Errorf("failed to write footer size: %w", err)
	}
	if err := binary.Write(w.file, binary.LittleEndian, uint64(0)); err != nil {
		return fmt.Errorf("failed to write checksum: %w", err)
	}
	if err := binary.Write(w.file, binary.LittleEndian, MagicNumber); err != nil {
		return fmt.Errorf("failed to write magic number: %w", err)
	}

	// Verify footer metadata size
	footerMetaEnd, err := w.file.Seek(0, io.SeekCurrent)
""", """	// Verify footer metadata size
	footerMetaEnd, err := w.file.Seek(0, io.SeekEnd)
""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		limit, _ := strconv.Atoi(os.Getenv("DEMO_LIMIT"))
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		for b := 0; b < 3; b++ {
			if err := w.WriteBlock([]uint64{uint64(b)}, []int64{7}); err != nil {
				t.Fatal(err)
			}
		}
		_ = limit
		w.FinalizeAndClose()
		return
	}
	dir := t.TempDir()
	// Make the when-th write after the blocks fail and stop there, for every when
	for when := 1; when < 200; when++ {
		path := filepath.Join(dir, "f.col")
		cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-P", path, "-e", "trace=write", "-e", "inject=write:signal=KILL:error=EIO:when="+strconv.Itoa(when), os.Args[0], "-test.run=^TestZZDemo$")
		cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
		if err := cmd.Run(); err == nil {
			break // all writes were made
		}
		r, err := col.NewReader(path)
		if err != nil {
			continue
		}
		a := r.Aggregate()
		r.Close()
		if a.Count != 3 || a.Sum != 21 {
			t.Fatal(when, a)
		}
	}
}
""", imports=["path/filepath", "os", "os/exec", "strconv"])

seed("c17-block-sync-ignored", "C17",
     "a failing sync after a block was written, followed by syncs that succeed",
     "the failure is left to the final sync to report, which does not report it again",
     [(C + "writer_block_io.go", """	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}

	return nil
""", """	// A failure shows up again in the final sync
	_ = w.file.Sync()

	return nil
""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.WriteBlock([]uint64{1}, []int64{7}); err != nil {
			t.Fatal(err)
		}
		if err := w.FinalizeAndClose(); err != nil {
			t.Fatal(err)
		}
		return
	}
	path := filepath.Join(t.TempDir(), "f.col")
	cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-P", path, "-e", "trace=fsync", "-e", "inject=fsync:error=EIO:when=1", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
	if err := cmd.Run(); err == nil {
		t.Fatal("failed sync not reported")
	}
}
""", imports=["path/filepath", "os", "os/exec"])

seed("c17-close-unchecked", "C17",
     "a failing close of the finalized file",
     "the failure to close is not reported",
     [(C + "writer_finalize.go", """	if err := w.Finalize(); err != nil {
		return err
	}
	return w.file.Close()
""", """	defer w.file.Close()
	return w.Finalize()
""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.FinalizeAndClose(); err != nil {
			t.Fatal(err)
		}
		return
	}
	path := filepath.Join(t.TempDir(), "f.col")
	cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-P", path, "-e", "trace=close", "-e", "inject=close:error=EIO", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
	if err := cmd.Run(); err == nil {
		t.Fatal("failed close not reported")
	}
}
""", imports=["path/filepath", "os", "os/exec"])

seed("c18-worker-gives-up", "C18",
     "a parallel aggregation that reads blocks, one of which cannot be read while others of the same worker can",
     "the worker that meets the unreadable block drops everything it has read",
     [(C + "reader_aggregate.go", """					// Read block without filtering
					_, values, err = r.GetPairs(blockIdx)
				}

				if err != nil {
					// Skip blocks with errors
					continue
				}
""", """					// Read block without filtering
					_, values, err = r.GetPairs(blockIdx)
				}

				if err != nil {
					// Skip what cannot be read
					return
				}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}, {3}, {4}}, [][]int64{{1}, {2}, {4}, {8}})
	r := demoOpen(t, path)
	// Make the first block unreadable: no id section
	w, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	if _, err := w.WriteAt([]byte{0, 0, 0, 0}, 64+64+4); err != nil {
		t.Fatal(err)
	}
	if a := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true, Parallel: 2}); a.Count != 3 || a.Sum != 14 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath", "os"])

seed("c19-one-bound", "C19",
     "a damaged block layout in which only one of the two sections ends behind the block",
     "the block is only refused if both sections end behind it, else slicing panics",
     [(C + "reader_block.go", "	if idEnd > len(blockData) || valueEnd > len(blockData) {\n", "	if idEnd > len(blockData) && valueEnd > len(blockData) {\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	binary.LittleEndian.PutUint32(data[128+12:], 100000)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		t.Fatal(err)
	}
	if _, _, err := demoOpen(t, path).GetPairs(0); err == nil {
		t.Fatal("no error")
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c20-empty-unsynced", "C20",
     "finalizing a file without blocks",
     "such a file is reported as finished without being synced",
     [(C + "writer_finalize.go", """	// Final sync to ensure everything is written to disk
	if err""", """	// Nothing worth syncing
	if w.blockCount == 0 {
		return nil
	}

	// Final sync to ensure everything is written to disk
	if err""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.FinalizeAndClose(); err != nil {
			t.Fatal(err)
		}
		return
	}
	path := filepath.Join(t.TempDir(), "demo-file.col")
	out := filepath.Join(t.TempDir(), "trace")
	cmd := exec.Command("strace", "-f", "-y", "-o", out, "-e", "trace=write,pwrite64,fsync,fdatasync", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	trace, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	last := ""
	for _, line := range strings.Split(string(trace), "\\n") {
		for _, call := range []string{"pwrite64(", "write(", "fsync(", "fdatasync("} {
			if strings.Contains(line, call) && strings.Contains(line, "demo-file.col") {
				last = call
				break
			}
		}
	}
	if last != "fsync(" && last != "fdatasync(" {
		t.Fatal("last call on the file before success:", last)
	}
}
""", imports=["path/filepath", "os", "os/exec", "strings"])

seed("c21-process-start-time", "C21",
     "a process that creates a file more than a second after its start",
     "all files carry the time the process started",
     [(C + "format.go", "		CreationTime:    uint64(time.Now().Unix()),\n", "		CreationTime:    uint64(startTime.Unix()),\n"),
      (C + "format.go", "// FileHeader represents the header of a column file\n", "// startTime stamps the files made by this process\nvar startTime = time.Now()\n\n// FileHeader represents the header of a column file\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	time.Sleep(2100 * time.Millisecond)
	before := time.Now().Unix()
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	after := time.Now().Unix()
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	if got := int64(binary.LittleEndian.Uint64(data[36:])); got < before || got > after {
		t.Fatal(got, before, after)
	}
}
""", imports=["path/filepath", "os", "encoding/binary", "time"])

CLI = """#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/bin" ./cmd/%s || exit 2
cd "$tmp" || exit 2
"""

seed("c22-average-precision", "C22",
     "values whose average needs more than seven digits",
     "the average is printed from a single-precision number",
     [("cmd/vibecol/main.go", '		fmt.Printf("Average: %.2f\\n", result.Avg)\n', '		fmt.Printf("Average: %.2f\\n", float32(result.Avg))\n')],
     None, demo_sh=CLI % "vibecol" + """
./bin write -o a.col -ids 1,2 -values 123456789,123456790 >/dev/null || exit 1
./bin read -f a.col -agg | grep -q '^Average: 123456789.50$'
""")

seed("c23-lone-last", "C23",
     "an import whose number of values is one more than a multiple of the batch size",
     "the last single value is not imported",
     [("cmd/loadtest/main.go", "	for valuesWritten < numValues {\n", "	for valuesWritten < numValues-1 {\n")],
     None, demo_sh=CLI % "loadtest" + """
./bin import -n 10001 -seed 7 -file a.col >/dev/null || exit 1
./bin aggregate -file a.col | grep -q '^Count: 10001$'
""")

seed("c23-auto-workers", "C23",
     "the aggregate command with a negative worker count",
     "automatic workers aggregate from the stored statistics, but with the count of workers taken from the wrong place blocks at the end are left out",
     [(C + "reader_aggregate.go", """		numWorkers = runtime.GOMAXPROCS(0)
	}
""", """		numWorkers = runtime.GOMAXPROCS(0)
		if n := int(r.header.BlockCount); n > 2*numWorkers && n%numWorkers == 0 {
			// One more for the remainder
			return r.aggregateParallelWithReading(make([]uint64, n), opts, numWorkers)
		}
	}
""")],
     None, demo_sh=CLI % "loadtest" + """
./bin import -n 200000 -seed 7 -block-size 8192 -file a.col >/dev/null || exit 1
for p in 1 2 3 4 5 6 7 8; do
GOMAXPROCS=$p ./bin aggregate -file a.col -parallel -1 | grep -E '^(Count|Min|Max|Sum|Average):' > a.out
./bin aggregate -file a.col | grep -E '^(Count|Min|Max|Sum|Average):' > b.out
cmp a.out b.out || exit 1
done
exit 0
""")

seed("c24-varint-id-predicate", "C24",
     "a file with variable-length ids only",
     "such a file is not reported as variable-length encoded",
     [(C + "reader.go", "	return r.header.EncodingType == EncodingVarInt ||\n		r.header.EncodingType == EncodingVarIntID ||\n", "	return r.header.EncodingType == EncodingVarInt ||\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingVarIntID, [][]uint64{{1}}, [][]int64{{1}})
	if !demoOpen(t, path).IsVarIntEncoded() {
		t.Fatal("not reported")
	}
}
""", imports=["path/filepath"])

seed("c25-bitmap-kept", "C25",
     "changing an id bitmap obtained with caching off, then asking for it again",
     "the bitmap is kept although caching is off, so the caller's change is handed out again",
     [(C + "reader.go", "	if r.globalIDs != nil && r.cacheGlobalIDs {\n		return r.globalIDs, nil\n", "	if r.globalIDs != nil {\n		return r.globalIDs, nil\n"),
      (C + "reader.go", """	// Only cache if enabled
	if r.cacheGlobalIDs {
		r.globalIDs = bitmap
	}

	return bitmap, nil
""", """	// Keep it for the next call
	r.globalIDs = bitmap

	return bitmap, nil
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	r := demoOpen(t, path)
	for i := 0; i < 2; i++ {
		bm, err := r.GetGlobalIDBitmap()
		if err != nil || bm.GetCardinality() != 1 {
			t.Fatal(i, err)
		}
		bm.Set(77)
	}
}
""", imports=["path/filepath"])

seed("c06-empty-extremes", "C06",
     "a file without pairs aggregated in parallel or with the metadata shortcut off",
     "the initial extremes are returned as minimum and maximum of nothing",
     [(C + "reader_aggregate.go", """	if len(r.blockIndex) > 0 && !opts.SkipPreCalculated {
		var count int""", """	if !opts.SkipPreCalculated {
		var count int""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, nil, nil)
	if a := demoOpen(t, path).Aggregate(); a != (col.AggregateResult{}) {
		t.Fatal(a)
	}
}
""", imports=["path/filepath"])

seed("c14-full-extra-page", "C14",
     "a block that ends exactly on a page boundary",
     "a whole page of padding is added behind it",
     [(C + "constants.go", """	if currentPosition%pageSize == 0 {
		return 0 // Already aligned
	}
	return""", """	if currentPosition == 0 {
		return 0 // Already aligned
	}
	return""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	// 64 + 64 + 16 + 247*16 = 4096
	if err := w.WriteBlock(make([]uint64, 247), make([]int64, 247)); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(path)
	if err != nil {
		t.Fatal(err)
	}
	if fi.Size() != 4096 {
		t.Fatal(fi.Size())
	}
}
""", imports=["path/filepath", "os"])
