// Package enc holds the harnesses over Encoding and the truncation/padding entry points.
package enc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

type E = tokenizer.Encoding

// snap is an independent copy of an encoding's parallel arrays.
type snap struct {
	ids, typ, spec, att, words []int
	toks                       []string
	off                        [][2]int
}

func ints(a []int) []int { return append([]int(nil), a...) }

func take(e *E) *snap {
	s := &snap{ids: ints(e.Ids), typ: ints(e.TypeIds), spec: ints(e.SpecialTokenMask), att: ints(e.AttentionMask), words: ints(e.Words)}
	s.toks = append([]string(nil), e.Tokens...)
	for _, o := range e.Offsets {
		s.off = append(s.off, [2]int{o[0], o[1]})
	}
	return s
}

// mk builds an encoding of n tokens with arbitrary contents; the slices have exact capacity unless spare is set.
func mk(n int, words bool) *E {
	e := tokenizer.DefaultEncoding()
	for i := 0; i < n; i++ {
		e.Ids = append(e.Ids, vp.Int(0, 1<<20))
		e.TypeIds = append(e.TypeIds, vp.Int(0, 7))
		e.Tokens = append(e.Tokens, string([]byte{byte('a' + i), vp.ByteIn('a', 'z')}))
		a := vp.Int(0, 1000)
		e.Offsets = append(e.Offsets, []int{a, a + vp.Int(0, 20)})
		e.SpecialTokenMask = append(e.SpecialTokenMask, vp.Int(0, 1))
		e.AttentionMask = append(e.AttentionMask, vp.Int(0, 1))
		if words {
			e.Words = append(e.Words, vp.Int(-1, 50))
		}
	}
	return e
}

// lens asserts that all per-token arrays have length n.
func lens(e *E, n int, words bool, what string) {
	vp.Assert(len(e.Ids) == n, what+": number of ids")
	vp.Assert(len(e.TypeIds) == n, what+": number of type ids")
	vp.Assert(len(e.Tokens) == n, what+": number of tokens")
	vp.Assert(len(e.Offsets) == n, what+": number of offsets")
	vp.Assert(len(e.SpecialTokenMask) == n, what+": length of the special token mask")
	vp.Assert(len(e.AttentionMask) == n, what+": length of the attention mask")
	if words {
		vp.Assert(len(e.Words) == n, what+": number of word indices")
	}
}

// same: token i of e is token j of s (offsets shifted by d).
func same(e *E, i int, s *snap, j int, d int, what string) {
	vp.Assert(vp.And(e.Ids[i] == s.ids[j], e.TypeIds[i] == s.typ[j], e.Tokens[i] == s.toks[j], e.SpecialTokenMask[i] == s.spec[j],
		e.AttentionMask[i] == s.att[j]), what+": id, type id, token and masks travel together")
	vp.Assert(vp.And(len(e.Offsets[i]) == 2, e.Offsets[i][0] == s.off[j][0]+d, e.Offsets[i][1] == s.off[j][1]+d), what+": offsets travel with the token")
	if len(s.words) > 0 {
		vp.Assert(e.Words[i] == s.words[j], what+": word index travels with the token")
	}
}

// part asserts that e holds exactly tokens [from,to) of s.
func part(e *E, s *snap, from, to int, what string) {
	words := len(s.words) > 0
	lens(e, to-from, words, what)
	for i := from; i < to; i++ {
		same(e, i-from, s, i, 0, what)
	}
}

// windows asserts that e and its overflow are the sliding windows of s.
func windows(e *E, s *snap, maxLen, stride int, what string) {
	n := len(s.ids)
	part(e, s, 0, maxLen, what+" (kept part)")
	step := maxLen - stride
	k := 0
	for start := maxLen; start < n; start += step {
		end := start + step
		if end > n {
			end = n
		}
		vp.Assert(k < len(e.Overflowing), what+": a window for every remaining part")
		w := &e.Overflowing[k]
		part(w, s, start-stride, end, what+" (overflow window)")
		k++
	}
	vp.Assert(len(e.Overflowing) == k, what+": no extra windows")
}
