package enc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// lastEnd is the end offset of the last token of s.
func lastEnd(s *snap) int {
	if len(s.off) == 0 {
		return 0
	}
	return s.off[len(s.off)-1][1]
}

// joined asserts that e is a followed by b.
func joined(e *E, a, b *snap, grow bool, what string) {
	words := len(a.words) == len(a.ids) && len(b.words) == len(b.ids)
	lens(e, len(a.ids)+len(b.ids), words, what)
	for i := range a.ids {
		same(e, i, a, i, 0, what+" (left part)")
	}
	d := 0
	if grow {
		d = lastEnd(a)
	}
	for i := range b.ids {
		same(e, len(a.ids)+i, b, i, d, what+" (right part)")
	}
}

func merged(e *E, a, b *snap, ao, bo []*snap, grow bool) {
	joined(e, a, b, grow, "merge")
	// every window combined with every window, the unsplit pair included
	vp.Assert(len(e.Overflowing) == len(ao)*(1+len(bo))+len(bo), "merge: number of overflow windows")
	k := 0
	for _, o := range ao {
		joined(&e.Overflowing[k], o, b, grow, "merge (own window with the pair)")
		k++
		for _, p := range bo {
			joined(&e.Overflowing[k], o, p, grow, "merge (own window with a window of the pair)")
			k++
		}
	}
	for _, p := range bo {
		joined(&e.Overflowing[k], a, p, grow, "merge (with a window of the pair)")
		k++
	}
}

func withOverflow(n, no int) (*E, *snap, []*snap) {
	e := mk(n, true)
	var os []*snap
	for i := 0; i < no; i++ {
		o := mk(1+i, true)
		o.SequenceRanges = nil
		os = append(os, take(o))
		e.Overflowing = append(e.Overflowing, *o)
	}
	return e, take(e), os
}

// inner is an arbitrary part of n tokens with up to one token before and after it.
func inner(n int) (int, int) {
	s, e := 0, n
	if n > 0 && vp.Bool() {
		s++
	}
	if e > s && vp.Bool() {
		e--
	}
	return s, e
}

// bounds: two encodings of 0..4 tokens (thorough 0..5) with 0..2 overflow windows each, with and without sequence ids,
// growing and non-growing offsets.
func H_C03_merge() {
	m := vp.Bound(4, 5)
	n1, n2 := vp.Pick(0, m), vp.Pick(0, m)
	a, as, ao := withOverflow(n1, vp.Pick(0, 2))
	b, bs, bo := withOverflow(n2, vp.Pick(0, 2))
	seq := vp.Bool()
	// each sequence may be surrounded by special tokens that belong to none
	s1, e1, s2, e2 := 0, n1, 0, n2
	if seq {
		s1, e1 = inner(n1)
		s2, e2 = inner(n2)
		if e1 > s1 {
			a.SequenceRanges = map[int]tokenizer.Range{0: tokenizer.NewRange(s1, e1)}
		}
		if e2 > s2 {
			b.SequenceRanges = map[int]tokenizer.Range{1: tokenizer.NewRange(s2, e2)}
		}
	}
	grow := vp.Bool()
	r := a.MergeWith(b, grow)
	vp.Reach("merged")
	merged(r, as, bs, ao, bo, grow)
	part(b, bs, 0, n2, "merging leaves the pair alone")
	vp.Assert(len(b.Overflowing) == len(bo), "merging leaves the pair's windows alone")
	if seq && (e1 > s1 || e2 > s2) {
		for i := 0; i < n1+n2; i++ {
			s, ok := r.Token2Sequence(i)
			switch {
			case i >= s1 && i < e1:
				vp.Assert(ok && s == 0, "merge: tokens keep their sequence")
			case i >= n1+s2 && i < n1+e2:
				vp.Assert(ok && s == 1, "merge: tokens of the pair keep their sequence")
			default:
				vp.Assert(!ok, "merge: tokens of no sequence stay in none")
			}
		}
		_, ok := r.Token2Sequence(n1 + n2)
		vp.Assert(!ok, "merge: no sequence beyond the last token")
	}
	vp.Observe("r", r.Ids, r.Offsets, len(r.Overflowing))
}

// bounds: chains of 1..4 encodings of 0..3 tokens merged in order.
func H_C03_chain() {
	m := vp.Bound(3, 4)
	var ss []*snap
	first := mk(vp.Pick(0, m), true)
	ss = append(ss, take(first))
	var rest []E
	for k := vp.Pick(0, 3); k > 0; k-- {
		e := mk(vp.Pick(0, m), true)
		ss = append(ss, take(e))
		rest = append(rest, *e)
	}
	grow := vp.Bool()
	r := first.Merge(rest, grow)
	vp.Reach("chain")
	total := 0
	for _, s := range ss {
		total += len(s.ids)
	}
	lens(r, total, true, "merge all")
	p, d := 0, 0
	for _, s := range ss {
		for i := range s.ids {
			same(r, p+i, s, i, d, "merge all")
		}
		p += len(s.ids)
		if grow && p > 0 {
			d = r.Offsets[p-1][1]
		}
	}
}

// bounds: encodings of 0..6 tokens (thorough 0..9) with 0..2 overflow windows; the copy is changed afterwards.
func H_C03_clone() {
	n := vp.Pick(0, vp.Bound(6, 9))
	e, s, os := withOverflow(n, vp.Pick(0, 2))
	if vp.Bool() {
		e.SetSequenceIds(1)
	}
	c := e.Clone()
	vp.Reach("cloned")
	part(c, s, 0, n, "clone")
	vp.Assert(len(c.Overflowing) == len(os), "clone: overflow windows")
	for i, o := range os {
		part(&c.Overflowing[i], o, 0, len(o.ids), "clone: overflow window")
	}
	vp.Assert(len(c.SequenceRanges) == len(e.SequenceRanges), "clone: sequence ranges")
	for i := 0; i < n; i++ {
		c.Ids[i], c.TypeIds[i], c.Tokens[i], c.Offsets[i][0], c.Words[i] = -9, -9, "?", -9, -9
	}
	part(e, s, 0, n, "changing a clone leaves the original alone")
	for i, o := range os {
		c.Overflowing[i].Ids[0] = -9
		part(&e.Overflowing[i], o, 0, len(o.ids), "changing a clone leaves the original's windows alone")
	}
}

var _ = tokenizer.Left
