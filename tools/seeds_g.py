"""Planted changes, seventh batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


FAULT_SH = """#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
# The demonstration runs against a copy of package os whose files can fail.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
export TMPDIR="$tmp"
root=$(go env GOROOT) || exit 2
sed -e 's/^func (f \\*File) ReadAt(/func (f *File) ZZReadAt(/' -e 's/^func (f \\*File) Write(/func (f *File) ZZWrite(/' "$root/src/os/file.go" > "$tmp/file.go"
cat > "$tmp/zz.go" <<'END'
package os

// ZZFault, when set, may cut a read or write short with an error.
var ZZFault func(op string, f *File, size int) (n int, err error)

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if ZZFault != nil {
		if n, err := ZZFault("read", f, len(b)); err != nil {
			m, _ := f.ZZReadAt(b[:n], off)
			return m, err
		}
	}
	return f.ZZReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if ZZFault != nil {
		if n, err := ZZFault("write", f, len(b)); err != nil {
			m, _ := f.ZZWrite(b[:n])
			return m, err
		}
	}
	return f.ZZWrite(b)
}
END
printf '{"Replace": {"%s/pkg/col/zz_demo_test.go": "%s/demo_test.go", "%s/src/os/file.go": "%s/file.go", "%s/src/os/zz.go": "%s/zz.go"}}' "$PWD" "$here" "$root" "$tmp" "$root" "$tmp" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 250s -run '^TestZZDemo' ./pkg/col
"""

seed("c09-single-id-denied", "C09",
     "pruning with a deny bitmap alone that holds the only id of a block",
     "a block all of whose pairs have one id is left out when that id is denied, although there is no allow bitmap",
     [(C + "reader_aggregate.go", """		// We still need to check all blocks since we're only excluding IDs
		blocks := make([]uint64, r.BlockCount())
		for i := range blocks {
			blocks[i] = uint64(i)
		}
		return blocks
""", """		// We still need to check all blocks since we're only excluding IDs,
		// unless there is just one ID
		blocks := make([]uint64, 0, r.BlockCount())
		for i, entry := range r.blockIndex {
			if entry.MinID == entry.MaxID && denyFilter.Contains(entry.MinID) {
				continue
			}
			blocks = append(blocks, uint64(i))
		}
		return blocks
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, 0, [][]uint64{{1, 2}, {7, 7}, {9}}, [][]int64{{1, 2}, {3, 4}, {5}})
	b := sroar.NewBitmap()
	b.Set(7)
	if got := demoOpen(t, path).FilteredBlockIterator(nil, b); len(got) != 3 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c12-recursive-rlock", "C12",
     "switching the caching while another goroutine is inside an aggregation that reads blocks",
     "aggregations hold a read lock and take it again for every block, so a waiting writer in between stops both for ever",
     [(C + "reader.go", "	cacheGlobalIDs bool       // Whether to cache the global ID bitmap\n", """	cacheGlobalIDs bool       // Whether to cache the global ID bitmap
	running        sync.RWMutex // Held by reads while they run
"""), (C + "reader.go", """	return r.readBlock(int(blockIdx))
""", """	r.running.RLock()
	ids, values, err := r.readBlock(int(blockIdx))
	r.running.RUnlock()
	return ids, values, err
"""), (C + "reader.go", """func (r *Reader) EnableGlobalIDBitmapCaching() {
""", """func (r *Reader) EnableGlobalIDBitmapCaching() {
	r.running.Lock() // no read sees the caching change
	defer r.running.Unlock()
"""), (C + "reader.go", """func (r *Reader) DisableGlobalIDBitmapCaching() {
""", """func (r *Reader) DisableGlobalIDBitmapCaching() {
	r.running.Lock()
	defer r.running.Unlock()
"""), (C + "reader_aggregate.go", """	// Fallback: read and aggregate all blocks
	var count int
""", """	// Fallback: read and aggregate all blocks
	r.running.RLock()
	defer r.running.RUnlock()
	var count int
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for i := 0; i < 300; i++ {
		ids, values = append(ids, []uint64{uint64(i)}), append(values, []int64{1})
	}
	demoBlocks(t, path, 0, ids, values)
	r := demoOpen(t, path)
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Millisecond):
			switched := make(chan bool)
			go func() {
				r.EnableGlobalIDBitmapCaching()
				close(switched)
			}()
			select {
			case <-switched:
			case <-time.After(20 * time.Second):
				t.Fatal("deadlock")
			}
		}
	}
}
""", imports=["path/filepath", "time"])

seed("c14-dirty-padding", "C14",
     "a block with variable-length sections that ends 1 to 15 bytes behind a page boundary",
     "layout and padding share a buffer, so padding of more than 4080 bytes ends with the block's layout",
     [(C + "writer_block_io.go", "	layoutBuf := make([]byte, 16)\n", "	scratch := make([]byte, PageSize) // for the layout and, before it, the padding\n	layoutBuf := scratch[PageSize-16:]\n"),
      (C + "writer_block_io.go", "		paddingBuf := make([]byte, padding)\n", "		paddingBuf := scratch[:padding]\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	// 64 + 80 + n + n bytes, the values with an odd byte more
	n := (4096 - 64 - 80) / 2
	ids, values := make([]uint64, n), make([]int64, n)
	values[0] = 100
	demoWrite(t, path, 4, 1<<20, ids, values)
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	for i := 4097; i < 8192; i++ {
		if data[i] != 0 {
			t.Fatal("padding not zero at", i)
		}
	}
}
""", imports=["os", "path/filepath"])

seed("c18-retry-offset", "C18",
     "a read that fails after some bytes have been delivered, and succeeds when repeated",
     "the rest is read from the start of the section again",
     [(C + "reader_io.go", """	n, err := r.file.ReadAt(buf, offset)
	if err != nil && err != io.EOF {
""", """	n, err := r.file.ReadAt(buf, offset)
	if err != nil && err != io.EOF && n > 0 {
		// Interrupted: read the rest
		var more int
		more, err = r.file.ReadAt(buf[n:], offset)
		n += more
	}
	if err != nil && err != io.EOF {
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	n := 1000
	ids, values := make([]uint64, n), make([]int64, n)
	for i := range ids {
		ids[i], values[i] = uint64(i)*3, int64(i)
	}
	demoWrite(t, path, 0, 1<<20, ids, values)
	r := demoOpen(t, path)
	os.ZZFault = func(op string, f *os.File, size int) (int, error) {
		os.ZZFault = nil
		return size / 2, errors.New("interrupted")
	}
	ids, values, err := r.GetPairs(0)
	os.ZZFault = nil
	if err != nil {
		return
	}
	for i := range ids {
		if ids[i] != uint64(i)*3 || values[i] != int64(i) {
			t.Fatal("wrong pair", i, ids[i], values[i])
		}
	}
}
""", imports=["errors", "os", "path/filepath"], demo_sh=FAULT_SH)

seed("c20-finalize-alone", "C20",
     "Finalize without FinalizeAndClose",
     "the sync of the finished file is left to FinalizeAndClose",
     [(C + "writer_finalize.go", """	if err := w.Finalize(); err != nil {
		return err
	}
	return w.file.Close()
""", """	if err := w.Finalize(); err != nil {
		return err
	}

	// Final sync to ensure everything is written to disk
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}
	return w.file.Close()
"""), (C + "writer_finalize.go", """			footerSize+24, totalFooterSize)
	}

	// Final sync to ensure everything is written to disk
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file during finalization: %w", err)
	}

""", """			footerSize+24, totalFooterSize)
	}

""")],
     """
func TestZZDemo(t *testing.T) {
	if path := os.Getenv("ZZ_FILE"); path != "" {
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.WriteBlock([]uint64{1}, []int64{2}); err != nil {
			t.Fatal(err)
		}
		if err := w.Finalize(); err != nil {
			t.Fatal(err)
		}
		return
	}
	dir := t.TempDir()
	out := filepath.Join(dir, "trace")
	path := filepath.Join(dir, "f.col")
	cmd := exec.Command("strace", "-f", "-y", "-o", out, "-e", "trace=write,pwrite64,fsync,fdatasync", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "ZZ_FILE="+path)
	if msg, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(msg))
	}
	data, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	last := ""
	for _, line := range strings.Split(string(data), "\\n") {
		if strings.Contains(line, "f.col") {
			last = line
		}
	}
	if !strings.Contains(last, "sync(") {
		t.Fatal("not synced at the end:", last)
	}
}
""", imports=["os", "os/exec", "path/filepath", "strings"])

seed("c05-early-bitmap-ignored", "C05",
     "a file whose id bitmap lies before its last block",
     "a bitmap that does not lie behind all blocks is taken for absent",
     [(C + "reader.go", """	if r.header.BitmapOffset == 0 || r.header.BitmapSize == 0 {
""", """	blocksEnd := uint64(headerSize)
	for _, entry := range r.blockIndex {
		blocksEnd = max(blocksEnd, entry.BlockOffset)
	}
	if r.header.BitmapOffset < blocksEnd || r.header.BitmapSize == 0 {
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, 0, [][]uint64{{1, 2}, {7, 8}}, [][]int64{{1, 2}, {3, 4}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	le := binary.LittleEndian
	// move the bitmap into a new section between the header and the blocks
	off, size := le.Uint64(data[44:]), le.Uint64(data[52:])
	gap := uint64(4096)
	footer := le.Uint64(data[len(data)-24:])
	start := uint64(len(data)) - 24 - footer
	moved := append([]byte{}, data[:64]...)
	moved = append(moved, data[off:off+size]...)
	moved = append(moved, make([]byte, gap-size)...)
	moved = append(moved, data[64:off]...)
	index := append([]byte{}, data[start:]...)
	for i := uint64(0); i < 2; i++ {
		e := index[4+56*i:]
		le.PutUint64(e, le.Uint64(e)+gap)
	}
	moved = append(moved, index...)
	le.PutUint64(moved[44:], 64)
	if err := os.WriteFile(path, moved, 0o644); err != nil {
		t.Fatal(err)
	}
	r := demoOpen(t, path)
	ids, _ := demoRead(t, r)
	b, err := r.GetGlobalIDBitmap()
	if err != nil || len(ids) != 4 || b.GetCardinality() != 4 || !b.Contains(8) {
		t.Fatal(err, ids, b)
	}
}
""", imports=["encoding/binary", "os", "path/filepath"])

seed("c17-write-again", "C17",
     "a write of the id bitmap that fails after a part has been written, and succeeds when repeated",
     "the whole bitmap is written again behind the part",
     [(C + "writer_finalize.go", """	if _, err := w.file.Write(buf); err != nil {
		return 0, 0, fmt.Errorf("failed to write bitmap data: %w", err)
	}
""", """	if n, err := w.file.Write(buf); err != nil {
		// Large bitmaps may be interrupted: try once more
		if n > 0 {
			_, err = w.file.Write(buf)
		}
		if err != nil {
			return 0, 0, fmt.Errorf("failed to write bitmap data: %w", err)
		}
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	for when := 1; when < 90; when++ {
		path := filepath.Join(t.TempDir(), "f.col")
		w, err := col.NewWriter(path)
		if err != nil {
			t.Fatal(err)
		}
		if err := w.WriteBlock([]uint64{1}, []int64{2}); err != nil {
			t.Fatal(err)
		}
		writes := 0
		os.ZZFault = func(op string, f *os.File, size int) (int, error) {
			if writes++; op == "write" && writes == when {
				return size / 2, errors.New("interrupted")
			}
			return 0, nil
		}
		err = w.FinalizeAndClose()
		os.ZZFault = nil
		if err != nil {
			w.Close()
			continue
		}
		r, err := col.NewReader(path)
		if err != nil {
			t.Fatal("reported complete:", err)
		}
		b, err := r.GetGlobalIDBitmap()
		if err != nil || b.GetCardinality() != 1 || !b.Contains(1) {
			t.Fatal("reported complete:", err, b)
		}
		r.Close()
	}
}
""", imports=["errors", "os", "path/filepath"], demo_sh=FAULT_SH)

seed("c21-shared-layout-buffer", "C21",
     "two writers of one process writing blocks at the same time, one between filling and writing the layout",
     "all writers use one buffer for section layouts",
     [(C + "writer_block_io.go", "	layoutBuf := make([]byte, 16)\n", "	layoutBuf := layoutBuffer\n"),
      (C + "writer_block_io.go", "// WriteBlock writes a block of ID-value pairs\n", "// layoutBuffer takes the layout of a block before it is written\nvar layoutBuffer = make([]byte, 16)\n\n// WriteBlock writes a block of ID-value pairs\n")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var wg sync.WaitGroup
	for g := 1; g < 5; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ids, values := make([]uint64, g), make([]int64, g)
			demoWrite(t, filepath.Join(dir, fmt.Sprint(g)), 0, 4096, ids, values)
		}()
	}
	wg.Wait()
}
""", imports=["fmt", "path/filepath", "sync"], race=True)

seed("c11-older-first-result", "C11",
     "three or more files, the newest of which have no pair that the allow bitmap admits, but hold ids stored in older files too",
     "ids of a file without admitted pairs are not taken as updated",
     [("pkg/multicol/aggregate.go", """		// Add all IDs from this reader to the deny bitmap for older readers
		denyBitmap = denyBitmap.Or(globalIDs)
""", """		// Add all IDs from this reader to the deny bitmap for older readers
		if readerResult.Count > 0 || opts.Filter != nil && globalIDs.GetCardinality() < opts.Filter.GetCardinality() {
			denyBitmap = denyBitmap.Or(globalIDs)
		}
""")], None)
SEEDS.pop()  # a file without admitted pairs updates nothing that matters

seed("c24-encoding-mask", "C24",
     "a file whose recorded encoding is not one of the eight",
     "only three bits of the recorded encoding are reported",
     [(C + "reader.go", "func (r *Reader) EncodingType() uint32 {\n	return r.header.EncodingType\n", "func (r *Reader) EncodingType() uint32 {\n	return r.header.EncodingType & 7\n")], None)
SEEDS.pop()

seed("c13-empty-position", "C13",
     "an estimate made before the first block of a file",
     "the position is taken as the end of the last block, or the start of the file when there is none",
     [(C + "writer_block_io.go", """	currentPos, err := w.file.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, fmt.Errorf("failed to get current position: %w", err)
	}

	// Calculate where the block would end
""", """	currentPos := int64(0)
	if n := len(w.blockPositions); n > 0 && len(w.blockSizes) == n {
		currentPos = int64(w.blockPositions[n-1]) + int64(w.blockSizes[n-1])
	} else if _, err := w.file.Seek(0, io.SeekCurrent); err != nil {
		return 0, fmt.Errorf("failed to get current position: %w", err)
	}

	// Calculate where the block would end
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	got, err := w.EstimateBlockSize([]uint64{1}, []int64{2})
	if err != nil || got != 4096-64 {
		t.Fatal(got, err)
	}
}
""", imports=["path/filepath"])

seed("c10-page-ends", "C10",
     "a run of ids in one block that crosses a multiple of 65536",
     "runs of ids are added to the bitmap from first to last without the id that starts a new container",
     [(C + "writer_block_io.go", """	for _, id := range ids {
		w.globalIDs.Set(id)
	}
""", """	for i, id := range ids {
		// Within a run one container is filled from its start
		if i > 0 && id == ids[i-1]+1 && id&0xFFFF == 0 && i+1 < len(ids) && ids[i+1] == id+1 {
			continue // set with the next ID
		}
		w.globalIDs.Set(id)
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 4096, []uint64{65534, 65535, 65536, 65537}, []int64{1, 2, 3, 4})
	b, err := demoOpen(t, path).GetGlobalIDBitmap()
	if err != nil || !b.Contains(65536) {
		t.Fatal(err, b)
	}
}
""", imports=["path/filepath"])
