package main

// Cut positions are generated symbolically and resolved against the layout of the tape a case produced.

func genCut(r *Rng) Extra {
	x := Extra{K: "cut", A: int64(r.N(1000)), B: int64(r.U64() % (1 << 30))}
	x.S = pick(r, "start", "start+", "hdr", "hdrblk", "content", "content+", "mid", "mid", "last", "pad", "end", "end", "end-", "trail", "trailmid", "tail", "any", "any512")
	return x
}

// resolveCut maps x to a byte offset of the tape.
func resolveCut(x Extra, recs []Rec, size int64) int64 {
	if len(recs) == 0 || size == 0 {
		return 0
	}
	i := int(x.A) % len(recs)
	if x.T == 1 { // prefer the last records: they are what a crash tears
		i = len(recs) - 1 - int(x.A)%min(len(recs), 4)
	}
	rc := recs[i]
	next := size
	if i+1 < len(recs) {
		next = recs[i+1].Start
	}
	within := func(a, b int64) int64 { // [a,b)
		if b <= a {
			return a
		}
		return a + x.B%(b-a)
	}
	cut := rc.End
	n := rc.Outer.Size
	if rc.Content == rc.End {
		n = 0
	}
	switch x.S {
	case "start":
		cut = rc.Start
	case "start+":
		cut = rc.Start + 1
	case "hdr":
		cut = within(rc.Start, rc.Content)
	case "hdrblk":
		cut = rc.Start + (within(0, rc.Content-rc.Start)/blk)*blk
	case "content":
		cut = rc.Content
	case "content+":
		cut = min64(rc.Content+1, rc.End)
	case "mid":
		cut = within(rc.Content, rc.Content+n)
	case "last":
		cut = rc.Content + n
		if n > 0 {
			cut--
		}
	case "pad":
		cut = within(rc.Content+n, rc.End)
	case "end":
		cut = rc.End
	case "end-":
		cut = rc.End - 1
	case "trail":
		cut = within(rc.End, next)
	case "trailmid":
		cut = min64(rc.End+blk, next)
	case "tail":
		cut = size
	case "any":
		cut = x.B % (size + 1)
	case "any512":
		cut = x.B % (size/blk + 1) * blk
	}
	if cut > size {
		cut = size
	}
	if cut < 0 {
		cut = 0
	}
	return cut
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// survivors: how many records are complete in tape[:cut]; torn is the record the cut is inside of
// (header or content incomplete) and only its padding is missing if padOnly.
func survivors(recs []Rec, cut int64) (complete int, torn int, padOnly bool) {
	torn = -1
	for i, rc := range recs {
		if rc.End <= cut {
			complete = i + 1
			continue
		}
		if rc.Start < cut {
			torn = i
			n := rc.Outer.Size
			if rc.Content == rc.End {
				n = 0
			}
			padOnly = cut >= rc.Content+n
		}
		break
	}
	return
}
