package bptree

// Build fills the tree, which must be fresh, with records in order, page by
// page and level by level, instead of by insertions. fill tells how full the
// next page of a level of n children is to be, from just enough (0) to as full as may be (1). This is
// not part of the code kept; it makes trees of many levels with few records.
func (bpt *BPTree) Build(n int, get func(i int) (key, value []byte), fill func(n int) float64) {
	records := make([]record, n)
	for i := range records {
		k, v := get(i)
		records[i] = bpt.createRecord(k, v)
	}
	bpt.recordCount = n
	groups := group(n, func(i int, first bool) int {
		return recordHeaderSize + len(records[i].Key) + len(records[i].Value)
	}, leafUnderloadThreshold, leafOverloadThreshold, fill)
	var children []nonLeafChild
	addr := bpt.rootAddr
	for i, g := range groups {
		if i > 0 {
			prev := addr
			addr, _ = bpt.createLeaf()
			bpt.leafList.InsertLeafAfter(bpt.fileStorage, addr, prev)
		}
		bpt.getLeafController(addr).InsertRecords(0, records[g[0]:g[1]])
		children = append(children, nonLeafChild{records[g[0]].Key, addr})
	}
	for len(children) > 1 {
		groups := group(len(children), func(i int, first bool) int {
			if first {
				return nonLeafChildHeaderSize
			}
			return nonLeafChildHeaderSize + len(children[i].Key)
		}, nonLeafUnderloadThreshold, nonLeafOverloadThreshold, fill)
		var parents []nonLeafChild
		for _, g := range groups {
			addr, nlc := bpt.createNonLeaf()
			key := children[g[0]].Key
			children[g[0]].Key = nil
			nlc.InsertChildren(0, children[g[0]:g[1]])
			parents = append(parents, nonLeafChild{key, addr})
		}
		children = parents
		bpt.height++
	}
	bpt.rootAddr = children[0].Addr
}

// group cuts n things in a row into groups of sizes from min to max.
func group(n int, size func(i int, first bool) int, min, max int, fill func(n int) float64) [][2]int {
	var groups [][2]int
	load := 0
	for i := 0; i < n; {
		begin, target := i, min+int(fill(n)*float64(max-min))
		load = size(i, true)
		for i++; i < n && (load < min || load+size(i, false) <= target); i++ {
			load += size(i, false)
		}
		groups = append(groups, [2]int{begin, i})
	}
	k := len(groups) - 1
	if k < 1 || load >= min {
		return groups
	}
	// there is too little in the last one
	last, prev := &groups[k], &groups[k-1]
	all := size(prev[0], true)
	for i := prev[0] + 1; i < n; i++ {
		all += size(i, false)
	}
	cut, rest := n-1, 0
	for size(cut, true)+rest < min {
		rest += size(cut, false)
		cut--
	}
	if all-rest-size(cut, false) < min {
		prev[1] = n
		return groups[:k]
	}
	prev[1], last[0] = cut, cut
	return groups
}
