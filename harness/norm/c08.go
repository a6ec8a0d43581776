package norm

import (
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

func lenOf(cs []ch) int { return len(str(cs)) }

// bounds: expanded or shrunk texts of 0..3 characters; every character range of the normalized text.
func H_C08_slice_normalized() {
	n, s, _, cs := expand(vp.Pick(0, 3))
	i := vp.Pick(0, len(cs))
	j := vp.Pick(i, len(cs))
	if i == j {
		return
	}
	r := normalizer.NewRange(lenOf(cs[:i]), lenOf(cs[:j]), normalizer.NormalizedTarget)
	lo, hi := cs[i].a, cs[j-1].b
	// the range of the original text the characters stand for
	o := n.ConvertOffset(r)
	vp.Assert(o != nil && o.Start() == lo && o.End() == hi, "a range of the normalized text maps to the original range of its characters")
	vp.Assert(n.Range(r) == str(cs[i:j]), "a range of the normalized text is that part of it")
	vp.Assert(n.RangeOriginal(r) == s[lo:hi], "the original of a range is the original text of its characters")
	vp.Assert(r.Start() == lenOf(cs[:i]) && r.End() == lenOf(cs[:j]), "converting a range leaves it alone")
	p := n.Slice(r)
	vp.Assert(p != nil, "a range on character boundaries can be sliced")
	vp.Reach("sliced")
	var part []ch
	for _, c := range cs[i:j] {
		part = append(part, ch{c.r, c.a - lo, c.b - lo})
	}
	aligned(p, s[lo:hi], part, "slice")
	exactSpan(p, part, "slice")
	vp.Assert(p.OffsetsOriginal()[0] == lo && p.OffsetsOriginal()[1] == hi, "a slice knows its place in the original text")
	// a slice of a slice still does
	m := vp.Pick(0, len(part)-1)
	q := p.Slice(normalizer.NewRange(lenOf(part[:m]), lenOf(part), normalizer.NormalizedTarget))
	vp.Assert(q != nil, "a slice can be sliced")
	vp.Assert(q.OffsetsOriginal()[0] == lo+part[m].a && q.OffsetsOriginal()[1] == hi, "a slice of a slice knows its place in the original text")
	vp.Assert(q.GetNormalized() == str(part[m:]), "a slice of a slice is that part")
	aligned(n, s, cs, "slicing leaves the string alone")
	vp.Observe("p", p.GetNormalized(), p.Alignments(), p.AlignmentsOriginal())
}

// exactSpan asserts the map from the original, where a character of the original is identified by its range.
func exactSpan(n *NS, cs []ch, what string) {
	var orig []ch
	for i, c := range cs {
		if i == 0 || c.a != cs[i-1].a {
			orig = append(orig, c)
		}
	}
	exact(n, orig, cs, what)
}

// bounds: shrunk texts of 0..3 characters (or with one character expanded); every character range of the original text.
func H_C08_slice_original() {
	n, s, orig, cs := expand(vp.Pick(0, 3))
	i := vp.Pick(0, len(orig))
	j := vp.Pick(i, len(orig))
	if i == j {
		return
	}
	lo, hi := orig[i].a, orig[j-1].b
	r := normalizer.NewRange(lo, hi, normalizer.OriginalTarget)
	var part []ch
	for _, c := range cs {
		if c.a >= lo && c.b <= hi {
			part = append(part, ch{c.r, c.a - lo, c.b - lo})
		}
	}
	vp.Assert(n.Range(r) == str(part), "what stands for a range of the original text")
	vp.Assert(n.RangeOriginal(r) == s[lo:hi], "a range of the original text is that part of it")
	o := n.ConvertOffset(r)
	vp.Assert(o != nil && o.End()-o.Start() == lenOf(part), "length of what stands for a range of the original text")
	p := n.Slice(r)
	vp.Assert(p != nil, "a range on character boundaries can be sliced")
	vp.Reach("sliced")
	aligned(p, s[lo:hi], part, "slice")
	vp.Assert(p.OffsetsOriginal()[0] == lo && p.OffsetsOriginal()[1] == hi, "a slice knows its place in the original text")
	vp.Observe("p", p.GetNormalized(), p.Alignments(), p.AlignmentsOriginal())
}

// bounds: texts of 0..2 characters of 1..3 bytes; every pair of bounds from -1 to two past the end, both referentials: no
// panic, and only ranges on character boundaries are sliced.
func H_C08_any_range() {
	s, cs := text(vp.Pick(0, 2), 3)
	n := normalizer.NewNormalizedFrom(s)
	on := normalizer.IndexOn(normalizer.OriginalTarget)
	if vp.Bool() {
		on = normalizer.NormalizedTarget
	}
	a, b := vp.Pick(0, len(s)+2), vp.Pick(-1, len(s)+2)
	r := normalizer.NewRange(a, b, on)
	end := b
	if end > len(s) {
		end = len(s)
	}
	bound := func(x int) bool {
		if x == len(s) {
			return true
		}
		for _, c := range cs {
			if c.a == x {
				return true
			}
		}
		return false
	}
	p := n.Slice(r)
	ok := end >= a && end >= 0 && bound(a) && bound(end)
	vp.Assert((p != nil) == ok, "exactly the ranges on character boundaries can be sliced")
	if p != nil {
		vp.Reach("in bounds")
		vp.Assert(p.GetNormalized() == s[a:end], "a slice is that part of the text")
	} else {
		vp.Reach("out of bounds")
	}
	got, want := n.Range(r), ""
	if end >= a && end >= 0 && on == normalizer.NormalizedTarget {
		want = s[a:end]
		vp.Assert(got == want, "a range is that part of the text")
	}
	n.RangeOriginal(r)
	n.ConvertOffset(r)
	vp.Assert(r.Start() == a && r.End() == b, "a range is left alone")
	vp.Observe("r", got, ok)
}

// bounds: texts of 0..3 (thorough 0..4) characters of 1..3 bytes, every range of characters, also beyond the end, and every range of
// bytes, also inside of characters: BytesToChar and CharToBytes are inverse and give -1 for what does not exist.
func H_C08_chars() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 3)
	n := len(cs)
	i := vp.Pick(0, n+1)
	j := vp.Pick(i, n+2)
	at := func(k int) int {
		if k < n {
			return cs[k].a
		}
		return len(s)
	}
	b := normalizer.CharToBytes(s, []int{i, j})
	switch {
	case i >= n && j > i:
		vp.Assert(b[0] == -1 && b[1] == -1, "no bytes for characters behind the end")
		vp.Assert(normalizer.RangeOf(s, []int{i, j}) == "", "no substring behind the end")
	case i < j && j <= n:
		vp.Assert(b[0] == at(i) && b[1] == at(j), "bytes of a range of characters")
		c := normalizer.BytesToChar(s, []int{at(i), at(j)})
		vp.Assert(c[0] == i && c[1] == j, "characters of a range of bytes")
		vp.Assert(normalizer.RangeOf(s, []int{i, j}) == str(cs[i:j]), "substring of a range of characters")
		vp.Reach("converted")
	case i == j && i < n:
		vp.Assert(b[0] == at(i) && b[1] == at(i), "bytes of an empty range of characters")
		c := normalizer.BytesToChar(s, []int{at(i), at(i)})
		vp.Assert(c[0] == i && c[1] == i, "characters of an empty range of bytes")
	}
	// ranges that cut a character
	if x := vp.Pick(0, len(s)); len(s) > 0 && i == 0 && j == 0 {
		y := vp.Pick(x, len(s))
		cx, cy := -1, -1
		for k := 0; k <= n; k++ {
			if at(k) == x {
				cx = k
			}
			if at(k) == y {
				cy = k
			}
		}
		c := normalizer.BytesToChar(s, []int{x, y})
		if cx < 0 || cy < 0 {
			vp.Assert(c[0] < 0 || c[1] < 0, "no characters for a range of bytes that cuts one")
			vp.Reach("cut")
		} else if x < y {
			vp.Assert(c[0] == cx && c[1] == cy, "characters of a range of bytes")
		}
	}
}

// bounds: shrunk texts of 0..3 characters (or with one character expanded); a slice, by either kind of range, of a slice
// by either kind of range.
func H_C08_slice_slices() {
	n, s, orig, cs := expand(vp.Pick(1, 3))
	if len(cs) == 0 {
		return
	}
	// the first slice, by characters of the original
	i := vp.Pick(0, len(orig)-1)
	j := vp.Pick(i+1, len(orig))
	lo, hi := orig[i].a, orig[j-1].b
	var part []ch
	from, to := -1, 0
	at := 0
	for _, c := range cs {
		if c.a >= lo && c.b <= hi {
			if from < 0 {
				from = at
			}
			part = append(part, ch{c.r, c.a - lo, c.b - lo})
			to = at + lenOf([]ch{c})
		}
		at += lenOf([]ch{c})
	}
	var p *NS
	if len(part) > 0 && vp.Bool() {
		lo, hi = lo+part[0].a, lo+part[len(part)-1].b
		d := part[0].a
		for k := range part {
			part[k].a -= d
			part[k].b -= d
		}
		p = n.Slice(normalizer.NewRange(from, to, normalizer.NormalizedTarget))
	} else {
		p = n.Slice(normalizer.NewRange(lo, hi, normalizer.OriginalTarget))
	}
	vp.Assert(p != nil && p.GetOriginal() == s[lo:hi], "first slice")
	vp.Assert(p.OffsetsOriginal()[0] == lo && p.OffsetsOriginal()[1] == hi && p.Shift() == lo, "a slice knows its place in the original text")
	// the second slice
	for _, c := range part {
		q := p.Slice(normalizer.NewRange(c.a, c.b, normalizer.OriginalTarget))
		vp.Assert(q != nil && q.GetOriginal() == s[lo+c.a:lo+c.b], "a slice of a slice by its original")
		vp.Assert(q.OffsetsOriginal()[0] == lo+c.a && q.OffsetsOriginal()[1] == lo+c.b, "a slice of a slice by its original knows its place")
		vp.Reach("slice of a slice")
	}
}
