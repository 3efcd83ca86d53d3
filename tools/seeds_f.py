"""Planted changes, sixth batch."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


CLI = """#!/bin/sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/bin" ./cmd/%s || exit 2
cd "$tmp" || exit 2
"""

seed("c06-index-by-name", "C06",
     "a file replaced by another of the same size within the resolution of file times, opened before and after in one process",
     "the block index of a file name is kept for the next reader while size and modification time stay the same",
     [(C + "reader.go", """	// Read the footer
	if err := reader.readFooter(); err != nil {
		file.Close()
		return nil, fmt.Errorf("failed to read footer: %w", err)
	}

	return reader, nil
}
""", """	// Use the index of the last reader of the same file
	key := indexKey{filename, fileSize, fileInfo.ModTime().UnixNano()}
	if known, ok := indexes.Load(key); ok {
		old := known.(*Reader)
		reader.footerMeta, reader.blockIndex = old.footerMeta, old.blockIndex
		if uint64(len(reader.blockIndex)) == reader.header.BlockCount {
			return reader, nil
		}
	}

	// Read the footer
	if err := reader.readFooter(); err != nil {
		file.Close()
		return nil, fmt.Errorf("failed to read footer: %w", err)
	}
	indexes.Store(key, &Reader{footerMeta: reader.footerMeta, blockIndex: reader.blockIndex})

	return reader, nil
}

// indexKey identifies the content of a file
type indexKey struct {
	name    string
	size    int64
	modTime int64
}

// indexes holds the indexes of the files opened so far
var indexes sync.Map
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	at := time.Unix(1700000000, 0)
	for i := int64(1); i < 3; i++ {
		demoWrite(t, path, 0, 4096, []uint64{1, 2}, []int64{i, 10 * i})
		if err := os.Chtimes(path, at, at); err != nil {
			t.Fatal(err)
		}
		r, err := col.NewReader(path)
		if err != nil {
			t.Fatal(err)
		}
		if got := r.Aggregate(); got.Sum != 11*i {
			t.Fatal(i, got)
		}
		r.Close()
	}
}
""", imports=["os", "path/filepath", "time"])

MEMO_FIELD = """	cacheGlobalIDs bool       // Whether to cache the global ID bitmap
	cacheMu        sync.Mutex // Guards globalIDs and cacheGlobalIDs
"""

seed("c25-total-by-range", "C25",
     "two allow filters with equally many ids, the same smallest and the same largest id, one after the other on one reader",
     "the last filtered total is kept for filters of the same range and cardinality",
     [(C + "reader.go", "	cacheGlobalIDs bool       // Whether to cache the global ID bitmap\n", """	cacheGlobalIDs bool       // Whether to cache the global ID bitmap
	lastTotal      *filterTotal
"""), (C + "reader_aggregate.go", """	// If a filter or deny filter is provided, use filtered aggregation
	if opts.Filter != nil || opts.DenyFilter != nil {
""", """	// Use the last total again when the filter is still the same
	if opts.Filter != nil && opts.DenyFilter == nil {
		key := filterTotal{min: opts.Filter.Minimum(), max: opts.Filter.Maximum(), count: opts.Filter.GetCardinality()}
		r.cacheMu.Lock()
		last := r.lastTotal
		r.cacheMu.Unlock()
		if last != nil && last.min == key.min && last.max == key.max && last.count == key.count {
			return last.total
		}
		key.total = r.aggregateWithFilter(opts)
		r.cacheMu.Lock()
		r.lastTotal = &key
		r.cacheMu.Unlock()
		return key.total
	}

	// If a filter or deny filter is provided, use filtered aggregation
	if opts.Filter != nil || opts.DenyFilter != nil {
"""), (C + "reader_aggregate.go", """// FilteredBlockIterator returns""", """// filterTotal is the total of a filter
type filterTotal struct {
	min, max uint64
	count    int
	total    AggregateResult
}

// FilteredBlockIterator returns""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 4096, []uint64{1, 2, 3, 4}, []int64{1, 10, 100, 1000})
	r := demoOpen(t, path)
	for want, ids := range map[int64][]uint64{1011: {1, 2, 4}, 1101: {1, 3, 4}} {
		b := sroar.NewBitmap()
		b.SetMany(ids)
		if got := r.AggregateWithOptions(col.AggregateOptions{Filter: b}); got.Sum != want {
			t.Fatal(ids, got)
		}
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c25-total-by-bitmap", "C25",
     "an aggregation with a filter bitmap that the caller changed after using it before",
     "the last filtered total is kept and returned again for the same bitmaps, changed or not",
     [(C + "reader.go", "	cacheGlobalIDs bool       // Whether to cache the global ID bitmap\n", """	cacheGlobalIDs bool       // Whether to cache the global ID bitmap
	lastFilters    [2]*sroar.Bitmap
	lastTotal      AggregateResult
"""), (C + "reader_aggregate.go", """	// If a filter or deny filter is provided, use filtered aggregation
	if opts.Filter != nil || opts.DenyFilter != nil {
		return r.aggregateWithFilter(opts)
	}
""", """	// If a filter or deny filter is provided, use filtered aggregation
	if opts.Filter != nil || opts.DenyFilter != nil {
		filters := [2]*sroar.Bitmap{opts.Filter, opts.DenyFilter}
		r.cacheMu.Lock()
		defer r.cacheMu.Unlock()
		if filters != r.lastFilters {
			r.lastFilters, r.lastTotal = filters, r.aggregateWithFilter(opts)
		}
		return r.lastTotal
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 4096, []uint64{1, 2, 3, 4}, []int64{1, 10, 100, 1000})
	r := demoOpen(t, path)
	b := sroar.NewBitmap()
	want := int64(0)
	for i, v := range []int64{1, 10, 100, 1000} {
		b.Set(uint64(i + 1))
		want += v
		if got := r.AggregateWithOptions(col.AggregateOptions{Filter: b}); got.Sum != want {
			t.Fatal(i, got)
		}
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c25-deny-in-place", "C25",
     "id bitmap caching on, an aggregation with a deny filter only, then another read",
     "a deny filter is turned into an allow filter by taking its ids out of the file's own, cached id bitmap",
     [(C + "reader_aggregate.go", """func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
""", """func (r *Reader) aggregateWithFilter(opts AggregateOptions) AggregateResult {
	// Blocks can only be left out by an allow filter: make it of the file's IDs
	if opts.Filter == nil {
		if ids, err := r.GetGlobalIDBitmap(); err == nil && r.header.BitmapSize > 0 {
			opts.Filter, opts.DenyFilter = ids.AndNot(opts.DenyFilter), nil
		}
	}

""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 4096, []uint64{1, 2, 3, 4}, []int64{1, 10, 100, 1000})
	r := demoOpen(t, path)
	r.EnableGlobalIDBitmapCaching()
	for i, want := range []int64{1110, 1101, 1011} {
		b := sroar.NewBitmap()
		b.Set(uint64(i + 1))
		if got := r.AggregateWithOptions(col.AggregateOptions{DenyFilter: b}); got.Sum != want {
			t.Fatal(i, got)
		}
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c11-window", "C11",
     "more than 64 files, with an id updated by the newest of them and stored by one 65 or more files older",
     "only the ids of the 64 next newer files are taken as updated",
     [("pkg/multicol/aggregate.go", """	denyBitmap := sroar.NewBitmap()
""", """	denyBitmap := sroar.NewBitmap()
	newer := make([]*sroar.Bitmap, 0, 64)
"""), ("pkg/multicol/aggregate.go", """		denyBitmap = denyBitmap.Or(globalIDs)
""", """		if len(newer) == cap(newer) {
			copy(newer, newer[1:])
			newer = newer[:len(newer)-1]
		}
		newer = append(newer, globalIDs)
		denyBitmap = sroar.FastOr(newer...)
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var readers []*col.Reader
	for i := 0; i < 80; i++ {
		path := filepath.Join(dir, fmt.Sprint(i))
		id := uint64(i)
		if i == 79 {
			id = 0
		}
		demoWrite(t, path, 0, 4096, []uint64{id}, []int64{int64(i) + 1})
		readers = append(readers, demoOpen(t, path))
	}
	got, err := multicol.NewMultiReader(readers).Aggregate(multicol.AggregateOptions{})
	if err != nil || got.Count != 79 || got.Sum != 80*81/2-1 {
		t.Fatal(got, err)
	}
}
""", pkg="pkg/multicol", imports=["fmt", "path/filepath"], imports3=["vibe-lsm/pkg/multicol"])

seed("c23-rounded-size", "C23",
     "an import with a block size that is no multiple of the page size",
     "the block size is rounded up to whole pages, so blocks exceed it",
     [("cmd/loadtest/main.go", "		col.WithBlockSize(uint32(blockSize)),\n", "		col.WithBlockSize(uint32((int64(blockSize)+col.PageSize-1)/col.PageSize*col.PageSize)),\n")],
     None, demo_sh=CLI % "loadtest" + """
./bin import -n 9000 -seed 7 -block-size 10000 -max-value 1000000000000000000 -file a.col >/dev/null || exit 1
./bin import -n 9000 -seed 7 -block-size 8192 -max-value 1000000000000000000 -file b.col >/dev/null || exit 1
# blocks end on page boundaries: no block of 10000 bytes is longer than 8192
./bin aggregate -file a.col | grep '^Block count' > a.out
./bin aggregate -file b.col | grep '^Block count' > b.out
test -s a.out && cmp a.out b.out
""")

seed("c22-long-lists", "C22",
     "lists of more than 16384 items",
     "the lists are split into at most 16384 items",
     [("cmd/vibecol/main.go", '	idsStrArr := strings.Split(idsStr, ",")\n	valuesStrArr := strings.Split(valuesStr, ",")\n',
       '	idsStrArr := strings.SplitN(idsStr, ",", maxItems)\n	valuesStrArr := strings.SplitN(valuesStr, ",", maxItems)\n'),
      ("cmd/vibecol/main.go", "func runWrite(", "// maxItems bounds the memory taken by the lists\nconst maxItems = 1 << 14\n\nfunc runWrite(")],
     None, demo_sh=CLI % "vibecol" + """
list=$(seq 1 20000 | sed 's/.*/7/' | paste -sd, -)
./bin write -o a.col -ids "$list" -values "$list" >/dev/null || exit 1
./bin read -f a.col -agg | grep -q 140000
""")

seed("c03-radix-bytes", "C03",
     "a batch of at least 512 unsorted ids whose largest id has a zero byte that others do not have",
     "large batches are radix sorted, without the passes for bytes that are zero in the largest id",
     [(C + "simple_writer.go", """	// Sort the pairs by ID
	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].ID < pairs[j].ID
	})
""", """	// Sort the pairs by ID
	if len(pairs) < 512 {
		sort.Slice(pairs, func(i, j int) bool {
			return pairs[i].ID < pairs[j].ID
		})
	} else {
		// Large batches: byte by byte, from the lowest to the highest
		var largest uint64
		for _, p := range pairs {
			if p.ID > largest {
				largest = p.ID
			}
		}
		sorted := append(pairs[:0:0], pairs...)
		for shift := 0; shift < 64; shift += 8 {
			if byte(largest>>shift) == 0 {
				continue // nothing to sort by
			}
			var starts [257]int
			for _, p := range pairs {
				starts[int(byte(p.ID>>shift))+1]++
			}
			for b := 1; b < 256; b++ {
				starts[b] += starts[b-1]
			}
			for _, p := range pairs {
				b := byte(p.ID >> shift)
				sorted[starts[b]] = p
				starts[b]++
			}
			pairs, sorted = sorted, pairs
		}
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path, col.WithBlockSize(1<<20))
	if err != nil {
		t.Fatal(err)
	}
	ids := make([]uint64, 600)
	for i := range ids {
		ids[i] = uint64(65536 - 100*i)
	}
	if err := w.Write(ids, make([]int64, 600)); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	got, _ := demoRead(t, demoOpen(t, path))
	if len(got) != 600 || !slices.IsSorted(got) {
		t.Fatal("not in ascending order")
	}
}
""", imports=["path/filepath", "slices"])

seed("c07-narrow-run", "C07",
     "an allow filter of n ids the smallest and largest of which lie a multiple of 2^32 plus n-1 apart",
     "whether a filter is one run of ids is decided in 32 bits, and a run allows all of a block within it",
     [(C + "reader_aggregate.go", """		// Read block with filtering
		_, values, err := r.readBlockFiltered(int(blockIdx), opts.Filter, opts.DenyFilter)
		if err != nil {
			// Skip blocks with errors
			continue
		}

		count += len(values)
""", """		// A filter without gaps allows the whole block
		filter := opts.Filter
		if entry := r.blockIndex[blockIdx]; filter != nil && filter.Minimum() <= entry.MinID && filter.Maximum() >= entry.MaxID &&
			uint32(filter.GetCardinality())-1 == uint32(filter.Maximum()-filter.Minimum()) {
			filter = nil
		}

		// Read block with filtering
		_, values, err := r.readBlockFiltered(int(blockIdx), filter, opts.DenyFilter)
		if err != nil {
			// Skip blocks with errors
			continue
		}

		count += len(values)
""", 1)],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, 0, 4096, []uint64{10, 11, 12}, []int64{1, 10, 100})
	b := sroar.NewBitmap()
	b.SetMany([]uint64{10, 12, 1<<32 + 12})
	if got := demoOpen(t, path).AggregateWithOptions(col.AggregateOptions{Filter: b}); got.Sum != 101 || got.Count != 2 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])
