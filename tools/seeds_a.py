"""Planted changes, first batch: one or two per property."""
C = "pkg/col/"
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


seed("c01-delta-overflow", "C01",
     "delta-encoded values with neighbours more than the int64 range apart",
     "a value difference that overflows is capped, so every later value of the block is read back wrong",
     [(C + "encoding.go", """	for i := 1; i < len(values); i++ {
		result[i] = values[i] - values[i-1]
	}

	return result
}

// deltaDecodeInt64 reconstructs""", """	for i := 1; i < len(values); i++ {
		d := values[i] - values[i-1]
		if values[i] > values[i-1] && d < 0 {
			d = 1<<63 - 1
		}
		result[i] = d
	}

	return result
}

// deltaDecodeInt64 reconstructs""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	ids := []uint64{1, 2, 3}
	values := []int64{-(1 << 62) - 5, 1<<62 + 9, 8}
	demoWrite(t, path, col.EncodingDeltaValue, 1<<20, ids, values)
	gotIDs, gotValues := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(ids, gotIDs) || !reflect.DeepEqual(values, gotValues) {
		t.Fatal(gotIDs, gotValues)
	}
}
""", imports=["path/filepath", "reflect"])

seed("c01-big-block", "C01",
     "a single block of more than 65535 pairs, which needs a size target above one megabyte or compact encoding",
     "the pair count of the block is cut to 16 bits, so the reader returns only some pairs",
     [(C + "writer_block_io.go", "	count := uint32(len(ids))\n", "	count := uint32(uint16(len(ids)))\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	ids := make([]uint64, 65600)
	values := make([]int64, len(ids))
	for i := range ids {
		ids[i], values[i] = uint64(i), int64(i%7)
	}
	demoWrite(t, path, col.EncodingVarIntBoth, 1<<24, ids, values)
	gotIDs, gotValues := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(ids, gotIDs) || !reflect.DeepEqual(values, gotValues) {
		t.Fatal(len(gotIDs), len(gotValues))
	}
}
""", imports=["path/filepath", "reflect"])

seed("c02-keeps-caller-slice", "C02",
     "a sorted batch too small to be flushed at once, whose slice the caller then reuses for its next batch",
     "the first pending batch aliases the caller's memory, so refilling it alters pairs already accepted",
     [(C + "simple_writer.go", """	newIDs := make([]uint64, len(ids))
	newValues := make([]int64, len(values))
	copy(newIDs, ids)
	copy(newValues, values)

	// Sort the data by ID if necessary
	if !isSorted(newIDs) {
		sortByID(newIDs, newValues)
	}

	// Add to pending data
	sw.pendingIDs = append(sw.pendingIDs, newIDs...)
	sw.pendingValues = append(sw.pendingValues, newValues...)
""", """	newIDs, newValues := ids, values

	// Sort the data by ID if necessary
	if !isSorted(newIDs) {
		newIDs = append([]uint64(nil), ids...)
		newValues = append([]int64(nil), values...)
		sortByID(newIDs, newValues)
	}

	// Add to pending data
	if len(sw.pendingIDs) == 0 {
		sw.pendingIDs = newIDs[:len(newIDs):len(newIDs)]
		sw.pendingValues = newValues[:len(newValues):len(newValues)]
	} else {
		sw.pendingIDs = append(sw.pendingIDs, newIDs...)
		sw.pendingValues = append(sw.pendingValues, newValues...)
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	ids, values := []uint64{0}, []int64{0}
	for i := 0; i < 3; i++ {
		ids[0], values[0] = uint64(i+1), int64(10*i)
		if err := w.Write(ids, values); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	gotIDs, gotValues := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(gotIDs, []uint64{1, 2, 3}) || !reflect.DeepEqual(gotValues, []int64{0, 10, 20}) {
		t.Fatal(gotIDs, gotValues)
	}
}
""", imports=["path/filepath", "reflect"])

seed("c03-sorted-check-short", "C03",
     "a flush whose pending ids are ascending except for the very last one",
     "the sortedness test stops one short, so a block keeps its last id out of order",
     [(C + "simple_writer.go", "	for i := 1; i < len(ids); i++ {\n		if ids[i] < ids[i-1] {", "	for i := 2; i < len(ids); i++ {\n		if ids[i-1] < ids[i-2] {")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{10, 20, 30, 5}, []int64{1, 2, 3, 4}); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	gotIDs, gotValues := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(gotIDs, []uint64{5, 10, 20, 30}) || !reflect.DeepEqual(gotValues, []int64{4, 1, 2, 3}) {
		t.Fatal(gotIDs, gotValues)
	}
}
""", imports=["path/filepath", "reflect"])

seed("c03-signed-order", "C03",
     "ids on both sides of 2^63 in one block",
     "ids are sorted as signed numbers, so those from 2^63 on come before the small ones",
     [(C + "simple_writer.go", "		return pairs[i].ID < pairs[j].ID\n", "		return int64(pairs[i].ID-pairs[j].ID) < 0\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewSimpleWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{1 << 63, 3, 1<<64 - 1, 2}, []int64{1, 2, 3, 4}); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	gotIDs, gotValues := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(gotIDs, []uint64{2, 3, 1 << 63, 1<<64 - 1}) || !reflect.DeepEqual(gotValues, []int64{4, 2, 1, 3}) {
		t.Fatal(gotIDs, gotValues)
	}
}
""", imports=["path/filepath", "reflect"])

seed("c04-block-header-sign", "C04",
     "a block with a negative minimum, and a reader other than this one that trusts the block header",
     "the block header stores the minimum in two's complement while the format (and the footer) uses sign and magnitude",
     [(C + "writer_block_io.go", "	minValueU64 := int64ToUint64(minValue)\n", "	minValueU64 := uint64(minValue)\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, col.EncodingRaw, 1<<20, []uint64{1, 2}, []int64{-5, 7})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// block header: min id, max id, min value
	if got := binary.LittleEndian.Uint64(data[64+16:]); got != 1<<63|5 {
		t.Fatalf("%x", got)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c05-value-offset", "C05",
     "a block whose value section does not directly follow its id section (only the recorded offset tells)",
     "the reader takes the value section to start where the id section ends",
     [(C + "reader_block.go", "	valueStart := 16 + int(valueSectionOffset)\n", "	valueStart := idEnd\n	_ = valueSectionOffset\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, col.EncodingRaw, 1<<20, []uint64{1, 2}, []int64{-5, 7})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// Swap the two sections of the block and their recorded offsets
	lay, sec := data[128:144], data[144:176]
	binary.LittleEndian.PutUint32(lay[0:], 16)
	binary.LittleEndian.PutUint32(lay[8:], 0)
	swapped := append(append([]byte(nil), sec[16:]...), sec[:16]...)
	copy(sec, swapped)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		t.Fatal(err)
	}
	gotIDs, gotValues := demoRead(t, demoOpen(t, path))
	if !reflect.DeepEqual(gotIDs, []uint64{1, 2}) || !reflect.DeepEqual(gotValues, []int64{-5, 7}) {
		t.Fatal(gotIDs, gotValues)
	}
}
""", imports=["path/filepath", "os", "encoding/binary", "reflect"])

seed("c06-saturating-sum", "C06",
     "a block whose values add up beyond the int64 range",
     "the stored block sum saturates while a scan wraps around, so the two aggregates differ",
     [(C + "utils.go", "		sum += v\n", """		next := sum + v
		if v > 0 && next < sum {
			return 1<<63 - 1
		}
		sum = next
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoWrite(t, path, col.EncodingRaw, 1<<20, []uint64{1, 2}, []int64{1<<63 - 1, 7})
	r := demoOpen(t, path)
	a := r.Aggregate()
	b := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
	if a != b {
		t.Fatal(a, b)
	}
}
""", imports=["path/filepath"])

seed("c06-count-zero-reset", "C06",
     "several blocks, and a later block whose minimum is the largest or maximum the smallest so far of opposite sign: min is only taken from blocks whose sum changed",
     "blocks whose values add up to zero are left out of the minimum and maximum taken from the metadata",
     [(C + "reader_aggregate.go", """			// Update aggregates
			count += int(entry.Count)
			if minValue < min {
				min = minValue
			}
			if maxValue > max {
				max = maxValue
			}
			sum += blockSum
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = float64(sum) / float64(count)
		}

		return AggregateResult{
			Count: count,
			Min:   min,
			Max:   max,
			Sum:   sum,
			Avg:   avg,
		}
	}

	// Fallback""", """			// Update aggregates
			count += int(entry.Count)
			if blockSum == 0 && sum != 0 {
				// Nothing to add
				continue
			}
			if minValue < min {
				min = minValue
			}
			if maxValue > max {
				max = maxValue
			}
			sum += blockSum
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = float64(sum) / float64(count)
		}

		return AggregateResult{
			Count: count,
			Min:   min,
			Max:   max,
			Sum:   sum,
			Avg:   avg,
		}
	}

	// Fallback""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2, 3}}, [][]int64{{4}, {-9, 9}})
	r := demoOpen(t, path)
	a := r.Aggregate()
	b := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
	if a != b || a.Min != -9 || a.Max != 9 {
		t.Fatal(a, b)
	}
}
""", imports=["path/filepath"])

seed("c07-sorted-assumption", "C07",
     "an allow filter on a block written with ids out of order, where a matching id follows one above the largest allowed id",
     "filtering stops at the first id above the filter's maximum, losing matches after it",
     [(C + "reader_aggregate.go", """	for i, id := range allIDs {
		// Check if ID is allowed""", """	var last uint64
	if filter != nil {
		last = filter.Maximum()
	}
	for i, id := range allIDs {
		if filter != nil && id > last {
			// No further ID can be allowed
			break
		}
		// Check if ID is allowed""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 50, 2}}, [][]int64{{1, 2, 3}})
	r := demoOpen(t, path)
	f := sroar.NewBitmap()
	f.SetMany([]uint64{1, 2})
	if a := r.AggregateWithOptions(col.AggregateOptions{Filter: f}); a.Count != 2 || a.Sum != 4 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c07-deny-shortcut", "C07",
     "a deny filter that spans the id range of a block and holds at least as many ids as the block, yet not all of them",
     "such a block is left out as fully denied",
     [(C + "reader_aggregate.go", """	for _, blockIdx := range matchingBlocks {
		// Read block with filtering
""", """	for _, blockIdx := range matchingBlocks {
		if opts.DenyFilter != nil && int(blockIdx) < len(r.blockIndex) {
			// A block that is denied as a whole need not be read
			entry := r.blockIndex[blockIdx]
			if span := entry.MaxID - entry.MinID + 1; span >= uint64(entry.Count) &&
				opts.DenyFilter.Contains(entry.MinID) && opts.DenyFilter.Contains(entry.MaxID) &&
				opts.DenyFilter.GetCardinality() >= int(entry.Count) {
				continue
			}
		}
		// Read block with filtering
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 5, 9}}, [][]int64{{1, 2, 4}})
	r := demoOpen(t, path)
	f := sroar.NewBitmap()
	f.SetMany([]uint64{1, 9, 20, 30})
	if a := r.AggregateWithOptions(col.AggregateOptions{DenyFilter: f}); a.Count != 1 || a.Sum != 2 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c08-empty-partition", "C08",
     "a filtered parallel aggregation in which one worker's blocks hold no match and all matches are positive (or all negative)",
     "the empty worker contributes a minimum and maximum of zero",
     [(C + "reader_aggregate.go", """				count += len(values)
				for _, v := range values {
					if v < min {
						min = v
					}
					if v > max {
						max = v
					}
					sum += v
				}
			}

			// Calculate average
			var avg float64 = 0
""", """				count += len(values)
				for _, v := range values {
					if v < min {
						min = v
					}
					if v > max {
						max = v
					}
					sum += v
				}
			}
			if count == 0 {
				min, max = 0, 0
			}

			// Calculate average
			var avg float64 = 0
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 9}, {2, 8}, {3, 7}, {4, 6}}, [][]int64{{5, 6}, {7, 8}, {9, 10}, {11, 12}})
	r := demoOpen(t, path)
	for _, id := range []uint64{6, 8} {
		f := sroar.NewBitmap()
		f.Set(id)
		f.Set(5)
		for i := 0; i < 50; i++ {
			a := r.AggregateWithOptions(col.AggregateOptions{Filter: f})
			b := r.AggregateWithOptions(col.AggregateOptions{Filter: f, Parallel: 4})
			if a != b {
				t.Fatal(a, b)
			}
		}
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c08-range-of-all-blocks", "C08",
     "an allow filter that prunes blocks, with more than one worker, and pruned blocks in front of matching ones",
     "workers split the pruned list by the number of all blocks, so the tail of the list can be left out",
     [(C + "reader_aggregate.go", """	// Otherwise, we need to read and aggregate all blocks in parallel
	return r.aggregateParallelWithReading(blockIndices, opts, numWorkers)
""", """	// No need for more workers than there are blocks to read
	if numWorkers > len(blockIndices) {
		numWorkers = len(blockIndices) - 1
	}
	if numWorkers <= 0 {
		numWorkers = 1
	}

	// Otherwise, we need to read and aggregate all blocks in parallel
	return r.aggregateParallelWithReading(blockIndices, opts, numWorkers)
"""),
      (C + "reader_aggregate.go", """// aggregateParallelWithReading performs parallel aggregation by reading blocks
func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := (len(blockIndices) + numWorkers - 1) / numWorkers
""", """// aggregateParallelWithReading performs parallel aggregation by reading blocks
func (r *Reader) aggregateParallelWithReading(blockIndices []uint64, opts AggregateOptions, numWorkers int) AggregateResult {
	// Create a channel for workers to send their results
	resultChan := make(chan AggregateResult, numWorkers)

	// Calculate how many blocks each worker should process
	blocksPerWorker := len(blockIndices) / numWorkers
	if len(blockIndices)%numWorkers > len(blockIndices)/2 || int(r.header.BlockCount) == len(blockIndices) {
		blocksPerWorker = (len(blockIndices) + numWorkers - 1) / numWorkers
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := 0; b < 8; b++ {
		ids = append(ids, []uint64{uint64(b) * 10, uint64(b)*10 + 1})
		values = append(values, []int64{int64(b), int64(b) + 100})
	}
	demoBlocks(t, path, col.EncodingRaw, ids, values)
	r := demoOpen(t, path)
	for first := 0; first < 8; first++ {
		f := sroar.NewBitmap()
		for b := first; b < 8; b++ {
			f.Set(uint64(b) * 10)
		}
		for workers := 2; workers < 10; workers++ {
			a := r.AggregateWithOptions(col.AggregateOptions{Filter: f})
			b := r.AggregateWithOptions(col.AggregateOptions{Filter: f, Parallel: workers})
			if a != b {
				t.Fatal(first, workers, a, b)
			}
		}
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c09-stop-at-first-above", "C09",
     "blocks not in ascending id order, and a filter that ends below an early block but matches a later one",
     "pruning stops at the first block above the filter, losing later candidates",
     [(C + "reader_aggregate.go", """			if entry.MaxID < filterMin || entry.MinID > filterMax {
				continue
			}
""", """			if entry.MinID > filterMax {
				break
			}
			if entry.MaxID < filterMin {
				continue
			}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{100, 200}, {1, 2}}, [][]int64{{1, 2}, {3, 4}})
	r := demoOpen(t, path)
	f := sroar.NewBitmap()
	f.Set(2)
	if got := r.FilteredBlockIterator(f, nil); len(got) != 1 || got[0] != 1 {
		t.Fatal(got)
	}
}
""", imports=["path/filepath"], imports3=["github.com/weaviate/sroar"])

seed("c10-contiguous-run", "C10",
     "a block whose ids repeat so that the number of pairs equals the width of its id range although ids are missing in between",
     "the block is taken for a contiguous run, so the id bitmap gains ids that are not stored",
     [(C + "writer_block_io.go", """	for _, id := range ids {
		w.globalIDs.Set(id)
	}
""", """	if lo, hi := calculateMinMaxUint64(ids); hi-lo == uint64(len(ids)-1) {
		// A contiguous run
		for i := range ids {
			w.globalIDs.Set(lo + uint64(i))
		}
	} else {
		for _, id := range ids {
			w.globalIDs.Set(id)
		}
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{7, 7, 9}}, [][]int64{{1, 2, 3}})
	bm, err := demoOpen(t, path).GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	if !bm.Contains(7) || bm.Contains(8) || !bm.Contains(9) || bm.GetCardinality() != 2 {
		t.Fatal(bm.ToArray())
	}
}
""", imports=["path/filepath"])

seed("c10-bitmap-before-split", "C10",
     "a block write that reports a full block, after which the caller drops the unwritten tail",
     "ids of pairs that were never stored are in the id bitmap",
     [(C + "writer_block_io.go", """	// Add all IDs to the global ID bitmap
	for _, id := range ids {
		w.globalIDs.Set(id)
	}

""", ""),
      (C + "writer_block_io.go", """	// If the block would exceed the target size and we have more than one item,
	// try""", """	// Add all IDs to the global ID bitmap
	for _, id := range ids {
		w.globalIDs.Set(id)
	}

	// If the block would exceed the target size and we have more than one item,
	// try""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path, col.WithBlockSize(4096))
	if err != nil {
		t.Fatal(err)
	}
	ids, values := make([]uint64, 1000), make([]int64, 1000)
	for i := range ids {
		ids[i] = uint64(i)
	}
	full, ok := w.WriteBlock(ids, values).(*col.BlockFullError)
	if !ok {
		t.Fatal("no full block")
	}
	if err := w.FinalizeAndClose(); err != nil {
		t.Fatal(err)
	}
	bm, err := demoOpen(t, path).GetGlobalIDBitmap()
	if err != nil {
		t.Fatal(err)
	}
	if bm.GetCardinality() != full.ItemsWritten {
		t.Fatal(bm.GetCardinality(), full.ItemsWritten)
	}
}
""", imports=["path/filepath"])

MULTI_HELPER = ""
seed("c11-aliased-deny", "C11",
     "bitmap caching on, at least two files, and the aggregation made twice",
     "the newest file's cached id bitmap is used as the running deny list and grows, so its own contents and the second aggregation are wrong",
     [("pkg/multicol/aggregate.go", "	denyBitmap := sroar.NewBitmap()\n", "	var denyBitmap *sroar.Bitmap\n"),
      ("pkg/multicol/aggregate.go", "		denyBitmap = denyBitmap.Or(globalIDs)\n", """		if denyBitmap == nil {
			denyBitmap = globalIDs
		} else {
			denyBitmap = denyBitmap.Or(globalIDs)
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var readers []*col.Reader
	for i, ids := range [][]uint64{{1, 2, 3}, {3, 4}, {4, 9}} {
		path := filepath.Join(dir, string(rune('a'+i)))
		demoBlocks(t, path, col.EncodingRaw, [][]uint64{ids}, [][]int64{make([]int64, len(ids))})
		r := demoOpen(t, path)
		r.EnableGlobalIDBitmapCaching()
		readers = append(readers, r)
	}
	mr := multicol.NewMultiReader(readers)
	for i := 0; i < 3; i++ {
		a, err := mr.Aggregate(multicol.AggregateOptions{})
		if err != nil || a.Count != 5 {
			t.Fatal(i, a, err)
		}
		bm, err := readers[2].GetGlobalIDBitmap()
		if err != nil || bm.GetCardinality() != 2 {
			t.Fatal(i, bm.ToArray(), err)
		}
	}
}
""", imports=["path/filepath"], pkg="pkg/multicol", imports3=["vibe-lsm/pkg/multicol"])

seed("c11-early-end", "C11",
     "an allow filter together with newer files that hold at least as many ids as the filter, not all of them the filter's",
     "aggregation ends early, as if every allowed id had been found already",
     [("pkg/multicol/aggregate.go", """		reader := mr.readers[i]
""", """		reader := mr.readers[i]

		// Stop when the newer files have accounted for every allowed ID
		if opts.Filter != nil && !denyBitmap.IsEmpty() && denyBitmap.Minimum() <= opts.Filter.Minimum() &&
			denyBitmap.Maximum() >= opts.Filter.Maximum() &&
			denyBitmap.GetCardinality() >= opts.Filter.GetCardinality() {
			break
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var readers []*col.Reader
	for i, ids := range [][]uint64{{1, 2, 3, 4, 5}, {1, 5, 6, 7}} {
		path := filepath.Join(dir, string(rune('a'+i)))
		demoBlocks(t, path, col.EncodingRaw, [][]uint64{ids}, [][]int64{make([]int64, len(ids))})
		readers = append(readers, demoOpen(t, path))
	}
	f := sroar.NewBitmap()
	f.SetMany([]uint64{1, 3, 5})
	a, err := multicol.NewMultiReader(readers).Aggregate(multicol.AggregateOptions{Filter: f})
	if err != nil || a.Count != 3 {
		t.Fatal(a, err)
	}
}
""", imports=["path/filepath"], pkg="pkg/multicol", imports3=["vibe-lsm/pkg/multicol", "github.com/weaviate/sroar"])

seed("c12-prune-memo", "C12",
     "concurrent filtered reads of one open file with filters of different id ranges",
     "the list of candidate blocks for the last filter range is remembered without synchronisation, so one call can get the list of another",
     [(C + "reader.go", "	blockIndex     []FooterEntry\n", "	blockIndex     []FooterEntry\n	lastMin        uint64\n	lastMax        uint64\n	lastBlocks     []uint64\n"),
      (C + "reader_aggregate.go", """		// Find blocks that overlap with the filter range
""", """		// The same range as last time matches the same blocks
		if r.lastBlocks != nil && r.lastMin == filterMin && r.lastMax == filterMax {
			return append([]uint64(nil), r.lastBlocks...)
		}

		// Find blocks that overlap with the filter range
"""),
      (C + "reader_aggregate.go", """			matchingBlocks = append(matchingBlocks, uint64(i))
		}
	}
""", """			matchingBlocks = append(matchingBlocks, uint64(i))
		}
		r.lastMin, r.lastMax = filterMin, filterMax
		r.lastBlocks = append([]uint64(nil), matchingBlocks...)
	}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	var ids [][]uint64
	var values [][]int64
	for b := 0; b < 20; b++ {
		ids = append(ids, []uint64{uint64(b)})
		values = append(values, []int64{int64(b)})
	}
	demoBlocks(t, path, col.EncodingRaw, ids, values)
	r := demoOpen(t, path)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			f := sroar.NewBitmap()
			f.Set(uint64(g))
			f.Set(uint64(g + 5))
			for i := 0; i < 5000; i++ {
				if a := r.AggregateWithOptions(col.AggregateOptions{Filter: f}); a.Count != 2 || a.Min != int64(g) {
					t.Error(g, a)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
""", imports=["path/filepath", "sync"], imports3=["github.com/weaviate/sroar"], race=True)

seed("c13-last-prefix", "C13",
     "a block write in which all pairs but the very last fit the target",
     "the longest prefix is never tried, so one pair less than possible is written",
     [(C + "writer_block_io.go", "		for i := 1; i < len(ids); i++ {\n			size,", "		for i := 1; i < len(ids)-1; i++ {\n			size,")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	w, err := col.NewWriter(path, col.WithBlockSize(8192))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	// The first block ends at a page boundary, so it can take 4096-64-80 bytes
	// or a page more: find the longest prefix that fits from the estimates
	ids, values := make([]uint64, 2000), make([]int64, 2000)
	best := 1
	for n := 1; n <= len(ids); n++ {
		size, err := w.EstimateBlockSize(ids[:n], values[:n])
		if err != nil {
			t.Fatal(err)
		}
		if size <= 8192 {
			best = n
		}
	}
	full, ok := w.WriteBlock(ids[:best+1], values[:best+1]).(*col.BlockFullError)
	if !ok || full.ItemsWritten != best {
		t.Fatal(best, full)
	}
}
""", imports=["path/filepath"])

seed("c14-empty-footer", "C14",
     "a file without any block",
     "the footer of an empty file does not start on a page boundary",
     [(C + "writer_finalize.go", "	if padding > 0 {\n", "	if padding > 0 && w.blockCount > 0 {\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, nil, nil)
	fi, err := os.Stat(path)
	if err != nil {
		t.Fatal(err)
	}
	// An empty index is its count, followed by the trailer
	if start := fi.Size() - 24 - 4; start%4096 != 0 {
		t.Fatal(start)
	}
}
""", imports=["path/filepath", "os"])

seed("c14-bitmap-in-padding", "C14",
     "a last block whose padding is large enough for the id bitmap",
     "the id bitmap is put inside the padding of the last block, so block and bitmap overlap",
     [(C + "writer_finalize.go", """	// Get the buffer from the bitmap
	// The sroar bitmap is already a serialized representation
	buf := w.globalIDs.ToBuffer()
""", """	// Get the buffer from the bitmap
	// The sroar bitmap is already a serialized representation
	buf := w.globalIDs.ToBuffer()

	// Use the padding of the last block if the bitmap fits
	if w.tailFree > int64(len(buf))+uint64Size {
		if bitmapOffset, err = w.file.Seek(-int64(len(buf))-uint32Size, io.SeekCurrent); err != nil {
			return 0, 0, fmt.Errorf("failed to get bitmap offset: %w", err)
		}
	}
"""),
      (C + "writer.go", "	blockPositions  []uint64      // Position", "	tailFree        int64         // Padding at the end of the last block\n	blockPositions  []uint64      // Position"),
      (C + "writer_block_io.go", "	padding := calculatePadding(blockEnd, PageSize)\n	if padding > 0 {\n		// Create padding", "	padding := calculatePadding(blockEnd, PageSize)\n	w.tailFree = padding\n	if padding > 0 {\n		// Create padding")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{2}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// header, one block up to the page end, bitmap; the header's bitmap offset
	// is its ninth field
	if off := binary.LittleEndian.Uint64(data[44:]); off != 4096 {
		t.Fatal(off)
	}
}
""", imports=["path/filepath", "os", "encoding/binary"])

seed("c15-count-before-check", "C15",
     "a rejected batch (ids and values of different length) between accepted ones",
     "the item total counts pairs of batches that were rejected",
     [(C + "simple_writer.go", """	if len(ids) != len(values) {
		return fmt.Errorf("ids and values must have the same length")
	}

	if len(ids) == 0 {
		return nil // Nothing to write
	}
""", """	if len(ids) == 0 && len(values) == 0 {
		return nil // Nothing to write
	}

	// Keep track of the items
	sw.totalItems += uint64(len(ids))

	if len(ids) != len(values) {
		return fmt.Errorf("ids and values must have the same length")
	}
"""),
      (C + "simple_writer.go", "			sw.totalItems += uint64(itemsWritten)\n", ""),
      (C + "simple_writer.go", "		sw.totalItems += uint64(len(sw.pendingIDs))\n", "")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewSimpleWriter(filepath.Join(t.TempDir(), "f.col"))
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{1, 2}, []int64{3, 4}); err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{5, 6}, []int64{7}); err == nil {
		t.Fatal("accepted")
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if n := w.TotalItems(); n != 2 {
		t.Fatal(n)
	}
}
""", imports=["path/filepath"])

seed("c16-late-truncate", "C16",
     "a crash while replacing an older complete file under the same name",
     "the old contents stay in place until finalization cuts the file, so an interrupted write leaves a mix of new header and old trailer that opens",
     [(C + "writer.go", "	file, err := os.Create(filename)\n", "	file, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)\n"),
      (C + "writer_finalize.go", """	// Final sync to ensure""", """	// Drop whatever an older file had beyond this point
	if err := w.file.Truncate(footerMetaEnd); err != nil {
		return fmt.Errorf("failed to truncate file: %w", err)
	}

	// Final sync to ensure"""),
      (C + "writer_finalize.go", """	// Seek to the end to write the footer
	if _, err := w.file.Seek(0, io.SeekEnd); err != nil {""", """	// Seek to the end to write the footer
	if _, err := w.file.Seek(int64(bitmapOffset+bitmapSize), io.SeekStart); err != nil {""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}, {3}}, [][]int64{{1}, {2}, {3}})
	w, err := col.NewWriter(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteBlock([]uint64{7}, []int64{7}); err != nil {
		t.Fatal(err)
	}
	w.Close() // never finalized
	if r, err := col.NewReader(path); err == nil {
		r.Close()
		t.Fatal("incomplete file opens")
	}
}
""", imports=["path/filepath"])

seed("c17-closed-early", "C17",
     "a write failure during Close of a simple writer, after which Close is called again",
     "the writer counts as closed before the data is written, so the second Close reports success for an incomplete file",
     [(C + "simple_writer.go", """	// Flush any remaining data
	if err := sw.flushIfNeeded(true)""", """	sw.closed = true

	// Flush any remaining data
	if err := sw.flushIfNeeded(true)"""),
      (C + "simple_writer.go", """		return fmt.Errorf("failed to finalize and close file: %w", err)
	}

	sw.closed = true
	return nil
""", """		return fmt.Errorf("failed to finalize and close file: %w", err)
	}

	return nil
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewSimpleWriter(filepath.Join(t.TempDir(), "f.col"))
	if err != nil {
		t.Fatal(err)
	}
	if err := w.Write([]uint64{1, 2}, []int64{3, 4}); err != nil {
		t.Fatal(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 100, Max: old.Max})
	err1 := w.Close()
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err1 == nil {
		t.Fatal("write failure not reported")
	}
	if err := w.Close(); err == nil {
		t.Fatal("incomplete file reported as written")
	}
}
""", imports=["path/filepath", "os/signal", "syscall"])

seed("c17-padding-ignored", "C17",
     "the write of a block's padding failing (disk full in the last page of the block) while everything before it succeeded",
     "the failure is not reported and the recorded block size covers bytes that were never written",
     [(C + "writer_block_io.go", """		_, err := w.file.Write(paddingBuf)
		if err != nil {
			return fmt.Errorf("failed to write padding bytes: %w", err)
		}
""", """		if _, err := w.file.Write(paddingBuf); err != nil {
			// Nobody reads the padding: leave a hole instead
			if _, err := w.file.Seek(blockEnd+padding, io.SeekStart); err != nil {
				return fmt.Errorf("failed to write padding bytes: %w", err)
			}
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	w, err := col.NewWriter(filepath.Join(t.TempDir(), "f.col"))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1000, Max: old.Max})
	err = w.WriteBlock([]uint64{1, 2}, []int64{3, 4})
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("write failure not reported")
	}
}
""", imports=["path/filepath", "os/signal", "syscall"])

seed("c18-stop-at-unreadable", "C18",
     "a filtered aggregation over several blocks of which one, not the last, cannot be read",
     "the blocks after the unreadable one are left out",
     [(C + "reader_aggregate.go", """		_, values, err := r.readBlockFiltered(int(blockIdx), opts.Filter, opts.DenyFilter)
		if err != nil {
			// Skip blocks with errors
			continue
		}
""", """		_, values, err := r.readBlockFiltered(int(blockIdx), opts.Filter, opts.DenyFilter)
		if err != nil {
			// Leave out blocks with errors
			break
		}
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}, {3}}, [][]int64{{1}, {2}, {4}})
	r := demoOpen(t, path)
	f := sroar.NewBitmap()
	f.SetMany([]uint64{1, 2, 3})
	// Make the first block unreadable: no id section
	w, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	if _, err := w.WriteAt([]byte{0, 0, 0, 0}, 64+64+4); err != nil {
		t.Fatal(err)
	}
	if a := r.AggregateWithOptions(col.AggregateOptions{Filter: f}); a.Count != 2 || a.Sum != 6 {
		t.Fatal(a)
	}
}
""", imports=["path/filepath", "os"], imports3=["github.com/weaviate/sroar"])

seed("c18-bitmap-lost", "C18",
     "a read failure or truncation exactly where the id bitmap's data lies, after the file was opened",
     "the id bitmap is returned empty instead of an error",
     [(C + "reader.go", """		return nil, fmt.Errorf("failed to read bitmap data: %w", err)
""", """		// Treat the file as one without a bitmap
		return sroar.NewBitmap(), nil
""")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}, {3}}, [][]int64{{1}, {2}, {4}})
	r := demoOpen(t, path)
	if err := os.Truncate(path, 3*4096+20); err != nil {
		t.Fatal(err)
	}
	if bm, err := r.GetGlobalIDBitmap(); err == nil {
		t.Fatal(bm.ToArray())
	}
}
""", imports=["path/filepath", "os"])

seed("c19-descriptor-leak", "C19",
     "opening a file with a valid header and a damaged footer, again and again",
     "the file is not released when its footer is refused",
     [(C + "reader.go", """	if err := reader.readFooter(); err != nil {
		file.Close()
		return nil""", """	if err := reader.readFooter(); err != nil {
		return nil""")],
     """
func TestZZDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	fi, err := os.Stat(path)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Truncate(path, fi.Size()-5); err != nil {
		t.Fatal(err)
	}
	before, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100; i++ {
		if _, err := col.NewReader(path); err == nil {
			t.Fatal("opened")
		}
	}
	after, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	if len(after) > len(before)+20 {
		t.Fatal(len(before), len(after))
	}
}
""", imports=["path/filepath", "os", "runtime/debug"])

seed("c19-index-size-wraps", "C19",
     "a damaged index count whose product with the entry size overflows 32 bits to a value that lies within the file",
     "the reader allocates the recorded number of entries and indexes past what it read",
     [(C + "reader_header.go", "	blockIndexSize := int(blockIndexCount) * 56\n", "	blockIndexSize := int(blockIndexCount * 56)\n")],
     """
func TestZZDemo(t *testing.T) {
	debug.SetMemoryLimit(1 << 30)
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// 76695845 * 56 = 2^32 + 24
	at := len(data) - 24 - 56 - 4
	binary.LittleEndian.PutUint32(data[at:], 76695845)
	if err := os.WriteFile(path, data, 0o644); err != nil {
		t.Fatal(err)
	}
	if r, err := col.NewReader(path); err == nil {
		r.Close()
		t.Fatal("opened")
	}
}
""", imports=["path/filepath", "os", "runtime/debug", "encoding/binary"])

seed("c20-sync-before-padding", "C20",
     "a crash right after a block write reported success, when the block did not end on a page boundary",
     "the block is synced before its padding is written, so the padding is not yet on disk when success is reported",
     [(C + "writer_block_io.go", """	// Sync to disk to ensure data consistency
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}

	return nil
""", """	return nil
"""),
      (C + "writer_block_io.go", """	// Calculate actual block size
	blockSize := uint64(blockEnd - blockStart)
""", """	// Sync to disk to ensure data consistency
	if err := w.file.Sync(); err != nil {
		return fmt.Errorf("failed to sync file: %w", err)
	}

	// Calculate actual block size
	blockSize := uint64(blockEnd - blockStart)
""")],
     """
func TestZZDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		w, err := col.NewWriter(os.Getenv("DEMO_CHILD"))
		if err != nil {
			t.Fatal(err)
		}
		if err := w.WriteBlock([]uint64{1, 2}, []int64{3, 4}); err != nil {
			t.Fatal(err)
		}
		os.Stat("/demo-mark")
		w.Close()
		return
	}
	path := filepath.Join(t.TempDir(), "demo-file.col")
	out := filepath.Join(t.TempDir(), "trace")
	cmd := exec.Command("strace", "-f", "-y", "-o", out, "-e", "trace=write,pwrite64,fsync,fdatasync,newfstatat,stat", os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+path)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	trace, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	last := ""
	for _, line := range strings.Split(string(trace), "\\n") {
		if strings.Contains(line, "demo-mark") {
			break
		}
		for _, call := range []string{"pwrite64(", "write(", "fsync(", "fdatasync("} {
			if strings.Contains(line, call) && strings.Contains(line, "demo-file.col") {
				last = call
				break
			}
		}
	}
	if last != "fsync(" && last != "fdatasync(" {
		t.Fatal("last call on the file before success:", last)
	}
}
""", imports=["path/filepath", "os", "os/exec", "strings"])

seed("c21-shared-layout", "C21",
     "two writers working at the same time in one process",
     "all writers share one buffer for the block layout, so a block can get the section sizes of another file's block",
     [(C + "writer_block_io.go", "	layoutBuf := make([]byte, 16)\n", "	layoutBuf := layoutScratch[:]\n"),
      (C + "writer_block_io.go", "// BlockFullError is returned", "// layoutScratch holds the layout section of the block being written\nvar layoutScratch [16]byte\n\n// BlockFullError is returned")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				path := filepath.Join(dir, string(rune('a'+g)))
				w, err := col.NewWriter(path)
				if err != nil {
					t.Error(err)
					return
				}
				for b := 0; b < 5; b++ {
					if err := w.WriteBlock(make([]uint64, g+1), make([]int64, g+1)); err != nil {
						t.Error(err)
					}
				}
				if err := w.FinalizeAndClose(); err != nil {
					t.Error(err)
				}
				r, err := col.NewReader(path)
				if err != nil {
					t.Error(err)
					return
				}
				for b := uint64(0); b < 5; b++ {
					ids, _, err := r.GetPairs(b)
					if err != nil || len(ids) != g+1 {
						t.Error(g, b, len(ids), err)
					}
				}
				r.Close()
			}
		}(g)
	}
	wg.Wait()
}
""", imports=["path/filepath", "sync"], race=True)

seed("c21-stale-tail", "C21",
     "writing over a longer existing file",
     "the existing file is not emptied first, so its bytes remain in reserved areas and before the footer",
     [(C + "writer.go", "	file, err := os.Create(filename)\n", "	file, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0o666)\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}, {3}}, [][]int64{{1}, {2}, {3}})
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	fi, err := os.Stat(path)
	if err != nil {
		t.Fatal(err)
	}
	other := filepath.Join(t.TempDir(), "g.col")
	demoBlocks(t, other, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{1}})
	fo, err := os.Stat(other)
	if err != nil {
		t.Fatal(err)
	}
	if fi.Size() != fo.Size() {
		t.Fatal(fi.Size(), fo.Size())
	}
}
""", imports=["path/filepath", "os"])

CLI = """#!/bin/sh
# Run with cwd = the tree under test: exit 0 when the property holds there.
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
go build -o "$tmp/bin" ./cmd/%s || exit 2
cd "$tmp" || exit 2
"""

seed("c22-empty-items", "C22",
     "a list with an empty item, such as 1,,2, in both lists",
     "empty items are dropped instead of refused",
     [("cmd/vibecol/main.go", '	idsStrArr := strings.Split(idsStr, ",")\n	valuesStrArr := strings.Split(valuesStr, ",")\n',
       '	comma := func(r rune) bool { return r == \',\' }\n	idsStrArr := strings.FieldsFunc(idsStr, comma)\n	valuesStrArr := strings.FieldsFunc(valuesStr, comma)\n')],
     None, demo_sh=CLI % "vibecol" + """
./bin write -o a.col -ids 1,2,3 -values 4,5,6 >/dev/null || exit 1
if ./bin write -o b.col -ids 1,,3 -values 4,6 >/dev/null; then echo accepted; exit 1; fi
exit 0
""")

seed("c22-octal", "C22",
     "an id or value written with leading zeros",
     "numbers with a leading zero are read as octal, so 010 is stored as 8",
     [("cmd/vibecol/main.go", "		value, err := strconv.ParseInt(strings.TrimSpace(valueStr), 10, 64)\n", "		value, err := strconv.ParseInt(strings.TrimSpace(valueStr), 0, 64)\n")],
     None, demo_sh=CLI % "vibecol" + """
./bin write -o a.col -ids 1,2 -values 010,-0020 >/dev/null || exit 1
./bin read -f a.col -dump > out || exit 1
grep -q "^1	10$" out && grep -q "^2	-20$" out || { cat out; exit 1; }
""")

seed("c23-global-noise", "C23",
     "two imports with the same seed, compared pair by pair",
     "part of the generated values does not come from the seeded generator",
     [("cmd/loadtest/main.go", "				values[i] = rng.Int63n(maxValue)\n", "				values[i] = rand.Int63n(maxValue)\n")],
     None, demo_sh=CLI % "loadtest" + """
./bin import -n 500 -seed 7 -file a.col >/dev/null || exit 1
./bin import -n 500 -seed 7 -file b.col >/dev/null || exit 1
./bin aggregate -file a.col | grep -E '^(Count|Min|Max|Sum|Average):' > a.out
./bin aggregate -file b.col | grep -E '^(Count|Min|Max|Sum|Average):' > b.out
cmp a.out b.out && grep -q '^Count: 500$' a.out
""")

seed("c24-index-truncated", "C24",
     "a block index of 2^32 or more whose low 32 bits name a block",
     "the index is cut to 32 bits, so data is returned for a block that does not exist",
     [(C + "reader.go", "	return r.readBlock(int(blockIdx))\n", "	return r.readBlock(int(int32(blockIdx)))\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}, {2}}, [][]int64{{1}, {2}})
	r := demoOpen(t, path)
	for _, b := range []uint64{2, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, 1<<64 - 1} {
		if ids, _, err := r.GetPairs(b); err == nil {
			t.Fatal(b, ids)
		}
	}
}
""", imports=["path/filepath"])

seed("c24-first-close-error", "C24",
     "closing a multi-file reader one of whose files was closed already",
     "closing stops at the first error, leaving the remaining files open",
     [("pkg/multicol/aggregate.go", "			lastErr = err\n", "			lastErr = err\n			break\n")],
     """
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	var readers []*col.Reader
	for i := 0; i < 3; i++ {
		path := filepath.Join(dir, string(rune('a'+i)))
		demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1}}, [][]int64{{2}})
		readers = append(readers, demoOpen(t, path))
	}
	readers[1].Close()
	if err := multicol.NewMultiReader(readers).Close(); err == nil {
		t.Fatal("no error")
	}
	if _, _, err := readers[2].GetPairs(0); err == nil {
		t.Fatal("still open")
	}
}
""", imports=["path/filepath"], pkg="pkg/multicol", imports3=["vibe-lsm/pkg/multicol"])

seed("c25-last-block-kept", "C25",
     "reading the same block twice in a row, with the caller changing the slices in between",
     "the last decoded block is kept and handed out again, so a caller's change shows up in the next read",
     [(C + "reader.go", "	blockIndex     []FooterEntry\n", "	blockIndex     []FooterEntry\n	keptMu         sync.Mutex\n	keptBlock      int // 1 + index of the block decoded last\n	keptIDs        []uint64\n	keptValues     []int64\n"),
      (C + "reader_block.go", "	// Get block information from the index\n", """	r.keptMu.Lock()
	defer r.keptMu.Unlock()
	if r.keptBlock == blockIndex+1 {
		return r.keptIDs, r.keptValues, nil
	}

	// Get block information from the index
"""),
      (C + "reader_block.go", "	return ids, values, nil\n", "	r.keptBlock, r.keptIDs, r.keptValues = blockIndex+1, ids, values\n	return ids, values, nil\n")],
     """
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.col")
	demoBlocks(t, path, col.EncodingRaw, [][]uint64{{1, 2}}, [][]int64{{1, 2}})
	r := demoOpen(t, path)
	ids, values, err := r.GetPairs(0)
	if err != nil {
		t.Fatal(err)
	}
	ids[0], values[1] = 99, 99
	ids, values, err = r.GetPairs(0)
	if err != nil || ids[0] != 1 || values[1] != 2 {
		t.Fatal(ids, values, err)
	}
}
""", imports=["path/filepath"])
