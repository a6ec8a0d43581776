package enc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

const (
	padId  = 77777777
	padTyp = 99
	padTok = "[PAD]"
)

// padded asserts that e is the encoding s padded to target.
func padded(e *E, s *snap, target int, dir tokenizer.PaddingDirection, what string) {
	n := len(s.ids)
	want := n
	if target > n {
		want = target
	}
	words := len(s.words) > 0 || want > n
	lens(e, want, words, what)
	shift, p0 := 0, n
	if dir == tokenizer.Left {
		shift, p0 = want-n, 0
	}
	for i := 0; i < n; i++ {
		same(e, i+shift, s, i, 0, what+" (content)")
	}
	for i := p0; i < p0+want-n; i++ {
		vp.Assert(vp.And(e.Ids[i] == padId, e.TypeIds[i] == padTyp, e.Tokens[i] == padTok, e.AttentionMask[i] == 0, e.SpecialTokenMask[i] == 1),
			what+": padding token fields")
		vp.Assert(len(e.Offsets[i]) == 2 && e.Offsets[i][0] == 0 && e.Offsets[i][1] == 0, what+": padding offsets")
		if words {
			vp.Assert(e.Words[i] == -1, what+": padding has no word")
		}
	}
}

// bounds: encodings of 0..5 tokens (thorough 0..7) with 0..2 overflow windows of as many each, target length 0..7 (0..9), both directions.
func H_C02_pad() {
	m := vp.Bound(5, 7)
	e := mk(vp.Pick(0, m), true)
	s := take(e)
	var os []*snap
	for k := vp.Pick(0, 2); k > 0; k-- {
		o := mk(vp.Pick(0, m), true)
		os = append(os, take(o))
		e.Overflowing = append(e.Overflowing, *o)
	}
	dir := tokenizer.PaddingDirection(vp.Pick(int(tokenizer.Left), int(tokenizer.Right)))
	target := vp.Pick(0, m+2)
	r := e.Pad(target, padId, padTyp, padTok, dir)
	vp.Reach("padded")
	padded(r, s, target, dir, "pad")
	vp.Assert(len(r.Overflowing) == len(os), "padding keeps the overflow windows")
	for i := range os {
		padded(&r.Overflowing[i], os[i], target, dir, "pad (overflow window)")
	}
	vp.Observe("r", r.Ids, r.TypeIds, r.Tokens, r.Offsets, r.Words, r.AttentionMask, r.SpecialTokenMask)
}

// bounds: truncate an encoding of 2..7 tokens (thorough 2..9) (every max length and stride), then pad to any length up to n+2.
func H_C02_truncate_then_pad() {
	n := vp.Pick(2, vp.Bound(7, 9))
	e := mk(n, vp.Bool())
	s := take(e)
	maxLen := vp.Pick(1, n-1)
	stride := vp.Pick(0, maxLen-1)
	e.Truncate(maxLen, stride)
	dir := tokenizer.PaddingDirection(vp.Pick(int(tokenizer.Left), int(tokenizer.Right)))
	target := vp.Pick(0, n+2)
	r := e.Pad(target, padId, padTyp, padTok, dir)
	vp.Reach("padded")
	padded(r, sub(s, 0, maxLen), target, dir, "truncate then pad")
	k := 0
	for start := maxLen; start < n; start += maxLen - stride {
		end := start + maxLen - stride
		if end > n {
			end = n
		}
		vp.Assert(k < len(r.Overflowing), "truncate then pad keeps the windows")
		padded(&r.Overflowing[k], sub(s, start-stride, end), target, dir, "truncate then pad (window)")
		k++
	}
}

func sub(s *snap, a, b int) *snap {
	r := &snap{ids: s.ids[a:b], typ: s.typ[a:b], toks: s.toks[a:b], off: s.off[a:b], spec: s.spec[a:b], att: s.att[a:b]}
	if len(s.words) > 0 {
		r.words = s.words[a:b]
	}
	return r
}

// bounds: batches of 0..3 encodings of 0..4 tokens (thorough 0..5), the first with an overflow window; batch-longest and
// every fixed length 0..5; both directions.
func H_C02_batch() {
	m := vp.Bound(4, 5)
	var es []E
	var ss []*snap
	longest := 0
	for k := vp.Pick(0, 3); k > 0; k-- {
		e := mk(vp.Pick(0, m), true)
		if len(ss) == 0 {
			e.Overflowing = append(e.Overflowing, *mk(1, true))
		}
		if len(e.Ids) > longest {
			longest = len(e.Ids)
		}
		ss = append(ss, take(e))
		es = append(es, *e)
	}
	p := tokenizer.PaddingParams{Direction: tokenizer.PaddingDirection(vp.Pick(int(tokenizer.Left), int(tokenizer.Right))), PadId: padId, PadTypeId: padTyp, PadToken: padTok}
	want := longest
	if vp.Bool() {
		p.Strategy = *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	} else {
		want = vp.Pick(0, m+2)
		p.Strategy = *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(want))
	}
	r := tokenizer.PadEncodings(es, p)
	vp.Reach("batch")
	vp.Assert(len(r) == len(ss), "padding a batch keeps its size")
	for i := range r {
		padded(&r[i], ss[i], want, p.Direction, "pad batch")
		vp.Observe("r", r[i].Ids, r[i].TypeIds, r[i].Tokens)
	}
}
