package norm

import (
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

func distinct(cs []ch) {
	for a := range cs {
		for b := 0; b < a; b++ {
			vp.Assume(cs[a].r != cs[b].r)
		}
	}
}

// bounds: texts of 0..3 distinct arbitrary characters of 1..4 bytes (thorough 0..4), every subset of characters removed.
func H_C07_filter() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 4)
	n := normalizer.NewNormalizedFrom(s)
	aligned(n, s, cs, "new")
	exact(n, cs, cs, "new")
	var keep []bool
	var left []ch
	for _, c := range cs {
		k := vp.Bool()
		keep = append(keep, k)
		if k {
			left = append(left, c)
		}
	}
	// Filter may look at the characters in any order; duplicates make a per-rune predicate ambiguous
	distinct(cs)
	n = n.Filter(func(r rune) bool {
		for k, c := range cs {
			if c.r == r {
				return keep[k]
			}
		}
		return true
	})
	vp.Reach("filtered")
	aligned(n, s, left, "filter")
	exact(n, cs, left, "filter")
	vp.Observe("n", n.GetNormalized(), n.Alignments(), n.AlignmentsOriginal())
}

// change applies an arbitrary transformation to characters [i,j) of cs and returns what must come out: initially removed
// characters, then replaced, replaced-and-removing and inserted ones in any order.
func change(n *NS, cs []ch, max int) (*NS, []ch) {
	i := vp.Pick(0, len(cs))
	j := vp.Pick(i, len(cs))
	pre := str(cs[:i])
	mid := str(cs[i:j])
	out := append([]ch(nil), cs[:i]...)
	k := i
	init := vp.Pick(0, j-i)
	k += init
	var cm []normalizer.ChangeMap
	for ins := 0; ; {
		lo, hi := 0, 2
		if k == j {
			lo = 2
		}
		if ins == 1 {
			hi = 1
		}
		if lo > hi || (k == j && vp.Bool()) {
			break
		}
		switch vp.Pick(lo, hi) {
		case 0: // replaced
			r := char(max)
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(r), Changes: 0})
			out = append(out, ch{r, cs[k].a, cs[k].b})
			k++
		case 1: // replaced, the next d removed
			r := char(max)
			d := vp.Pick(0, j-k-1)
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(r), Changes: -d})
			out = append(out, ch{r, cs[k].a, cs[k].b})
			k += 1 + d
		case 2: // inserted: stands for what the character before it stood for
			r := char(max)
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(r), Changes: 1})
			c := ch{r, 0, 0}
			if k > 0 {
				c.a, c.b = cs[k-1].a, cs[k-1].b
			}
			out = append(out, c)
			ins++
		}
	}
	out = append(out, cs[j:]...)
	n = n.TransformRange(normalizer.NewRange(len(pre), len(pre)+len(mid), normalizer.NormalizedTarget), cm, init)
	return n, out
}

// bounds: texts of 0..3 arbitrary characters of 1..2 bytes, one arbitrary transformation of an arbitrary range (initial
// removal, replacement, removal, insertion of one character).
func H_C07_transform() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 2)
	n, left := change(normalizer.NewNormalizedFrom(s), cs, 2)
	vp.Reach("transformed")
	aligned(n, s, left, "transform")
	exact(n, cs, left, "transform")
	vp.Observe("n", n.GetNormalized(), n.Alignments(), n.AlignmentsOriginal())
}

// bounds: texts of 0..2 arbitrary characters of 1 byte (thorough 1..2 bytes), two arbitrary transformations in a row, the
// second one bringing in characters of 1..2 bytes.
func H_C07_twice() {
	s, cs := text(vp.Pick(0, 2), vp.Bound(1, 2))
	n, left := change(normalizer.NewNormalizedFrom(s), cs, 1)
	n, left = change(n, left, vp.Bound(1, 2))
	vp.Reach("transformed twice")
	aligned(n, s, left, "two transformations")
	exact(n, cs, left, "two transformations")
	vp.Observe("n", n.GetNormalized(), n.Alignments(), n.AlignmentsOriginal())
}

// expand is an arbitrary start: arbitrary characters, some of them removed, some with an inserted one after them.
func expand(k int) (*NS, string, []ch, []ch) {
	s, cs := text(k, 2)
	n := normalizer.NewNormalizedFrom(s)
	var cm []normalizer.ChangeMap
	var out []ch
	init := 0
	for _, c := range cs {
		switch vp.Pick(0, 2) {
		case 0:
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(c.r), Changes: 0})
			out = append(out, c)
		case 1:
			if len(out) == 0 {
				init++
			} else {
				cm[len(cm)-1].Changes--
			}
		case 2:
			r := char(2)
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(c.r), Changes: 0}, normalizer.ChangeMap{RuneVal: string(r), Changes: 1})
			out = append(out, c, ch{r, c.a, c.b})
			// a removal after an inserted character would be counted on the inserted one
			return n.Transform(append(cm, tail(cs, c.b, &out)...), init), s, cs, out
		}
	}
	return n.Transform(cm, init), s, cs, out
}

func tail(cs []ch, from int, out *[]ch) (cm []normalizer.ChangeMap) {
	for _, c := range cs {
		if c.a >= from {
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(c.r), Changes: 0})
			*out = append(*out, c)
		}
	}
	return cm
}

func up(r rune) rune {
	if r >= 'a' && r <= 'z' {
		return r + 0x400 // makes a character longer
	}
	return r ^ 1
}

// bounds: expanded or shrunk texts of 0..2 characters; one of prepending or appending 0..2 characters, mapping every
// character (to a longer one, too), clearing.
func H_C07_edges() {
	n, s, cs, left := expand(vp.Pick(0, vp.Bound(2, 3)))
	what := ""
	switch vp.Pick(0, 4) {
	case 0:
		what = "prepend"
		add, as := text(vp.Pick(0, 2), 2)
		n = n.Prepend(add)
		if len(left) > 0 {
			var out []ch
			for _, c := range as {
				out = append(out, ch{c.r, left[0].a, left[0].b})
			}
			left = append(out, left...)
		}
	case 1:
		what = "append"
		add, as := text(vp.Pick(0, 2), 2)
		n = n.Append(add)
		if len(left) > 0 {
			l := left[len(left)-1]
			for _, c := range as {
				left = append(left, ch{c.r, l.a, l.b})
			}
		}
	case 2:
		what = "map"
		n = n.Map(up)
		for i, c := range left {
			left[i].r = up(c.r)
		}
	case 3:
		what = "for each"
		n = n.ForEach(up)
		for i, c := range left {
			left[i].r = up(c.r)
		}
	case 4:
		what = "clear"
		n.Clear()
		left = nil
	}
	vp.Reach("edited")
	aligned(n, s, left, what)
	exact(n, cs, left, what)
	vp.Observe("n", n.GetNormalized(), n.Alignments(), n.AlignmentsOriginal())
}

// spans is the pattern that matches exactly the given byte ranges.
type spans [][2]int

func (p spans) FindMatches(inside string) []normalizer.OffsetsMatch {
	var ms []normalizer.OffsetsMatch
	at := 0
	for _, s := range p {
		if s[0] > at {
			ms = append(ms, normalizer.OffsetsMatch{Offsets: []int{at, s[0]}})
		}
		ms = append(ms, normalizer.OffsetsMatch{Offsets: []int{s[0], s[1]}, Match: true})
		at = s[1]
	}
	if at < len(inside) {
		ms = append(ms, normalizer.OffsetsMatch{Offsets: []int{at, len(inside)}})
	}
	return ms
}

// groups cuts cs into matches and gaps in every way; every match is one or two characters.
func groups(cs []ch) (p spans, at [][2]int) {
	pos := 0
	for i := 0; i < len(cs); {
		k := vp.Pick(0, 2)
		if k == 0 || i+k > len(cs) {
			pos += len(string(cs[i].r))
			i++
			continue
		}
		l := len(str(cs[i : i+k]))
		p = append(p, [2]int{pos, pos + l})
		at = append(at, [2]int{i, i + k})
		pos += l
		i += k
	}
	return p, at
}

// bounds: texts of 0..3 arbitrary characters of 1..2 bytes, every set of matches of 1..2 characters, a replacement of 0..2
// characters.
func H_C07_replace() {
	s, cs := text(vp.Pick(0, vp.Bound(3, 4)), 2)
	p, at := groups(cs)
	content, as := text(vp.Pick(0, 2), 2)
	n := normalizer.NewNormalizedFrom(s).Replace(p, content)
	var left []ch
	k := 0
	for _, m := range at {
		left = append(left, cs[k:m[0]]...)
		for _, c := range as {
			left = append(left, ch{c.r, cs[m[1]-1].a, cs[m[1]-1].b})
		}
		k = m[1]
	}
	left = append(left, cs[k:]...)
	vp.Reach("replaced")
	aligned(n, s, left, "replace")
	exact(n, cs, left, "replace")
	vp.Observe("n", n.GetNormalized(), n.Alignments(), n.AlignmentsOriginal())
}

// bounds: texts of 8 (thorough 10) one-byte characters of which any are filtered out, after a first filtering of any others or not.
func H_C07_filter_long() {
	n := vp.Bound(8, 10)
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.ByteIn('a', 'z')
	}
	s := string(b)
	ns := normalizer.NewNormalizedFrom(s)
	cs := make([]ch, n)
	for i := range b {
		cs[i] = ch{rune(b[i]), i, i + 1}
	}
	drop := func(keep func(rune) bool) {
		ns = ns.Filter(keep)
		var left []ch
		for _, c := range cs {
			if keep(c.r) {
				left = append(left, c)
			}
		}
		cs = left
	}
	drop(func(r rune) bool { return r < 'n' })
	vp.Reach("filtered")
	aligned(ns, s, cs, "filter")
	exact(ns, ascii(s), cs, "filter")
}

func ascii(s string) (cs []ch) {
	for i := range s {
		cs = append(cs, ch{rune(s[i]), i, i + 1})
	}
	return cs
}

// bounds: a text of some 70 characters with an arbitrary character of 1..2 bytes (thorough 3) at one of six places: every 'b' removed, every
// "ab" replaced by 0..2 characters and every letter mapped, two of these in a row.
func H_C07_long() {
	s, cs := long(vp.Bound(2, 3))
	orig := append([]ch(nil), cs...)
	n := normalizer.NewNormalizedFrom(s)
	for k := 0; k < 2; k++ {
		var o []ch
		switch vp.Pick(0, 2) {
		case 0:
			n = n.Filter(func(r rune) bool { return r != 'b' })
			for _, c := range cs {
				if c.r != 'b' {
					o = append(o, c)
				}
			}
		case 1:
			rep := []string{"", "é", "xyz"}[vp.Pick(0, 2)]
			n = n.Replace(normalizer.NewStringPattern("ab"), rep)
			for i := 0; i < len(cs); i++ {
				if i+1 < len(cs) && cs[i].r == 'a' && cs[i+1].r == 'b' {
					for _, r := range rep {
						o = append(o, ch{r, cs[i+1].a, cs[i+1].b})
					}
					i++
				} else {
					o = append(o, cs[i])
				}
			}
		case 2:
			f := func(r rune) rune {
				if r == 'a' {
					return '日'
				}
				return r
			}
			n = n.Map(f)
			for _, c := range cs {
				o = append(o, ch{f(c.r), c.a, c.b})
			}
		}
		cs = o
	}
	vp.Reach("changed")
	aligned(n, s, cs, "changes of a long text")
	exact(n, orig, cs, "changes of a long text")
}
