// Package proc holds the harnesses over post-processors.
package proc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

type E = tokenizer.Encoding

type tok struct {
	id, typ, word, spec, att, o0, o1 int
	seq                              int // the sequence the token belongs to, -1 if none
	s                                string
}

// mk builds a sequence of n tokens with arbitrary ids, words and offsets.
func mk(n, typ int, base byte) (*E, []tok) {
	e := tokenizer.DefaultEncoding()
	var ts []tok
	pos := 0
	for i := 0; i < n; i++ {
		t := tok{id: vp.Int(0, 1<<20), typ: typ, seq: typ, word: vp.Int(0, 20), att: 1, s: string([]byte{base + byte(i), vp.ByteIn('a', 'z')})}
		t.o0 = pos + vp.Int(0, 3)
		t.o1 = t.o0 + vp.Int(0, 5)
		pos = t.o1
		ts = append(ts, t)
		e.Ids = append(e.Ids, t.id)
		e.TypeIds = append(e.TypeIds, typ)
		e.Tokens = append(e.Tokens, t.s)
		e.Offsets = append(e.Offsets, []int{t.o0, t.o1})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
		e.Words = append(e.Words, t.word)
	}
	return e, ts
}

func special(s string, id, typ int) tok {
	return tok{id: id, typ: typ, seq: -1, word: -1, spec: 1, att: 1, s: s}
}

// is asserts that e is exactly ts.
func is(e *E, ts []tok, types bool, what string) {
	n := len(ts)
	vp.Assert(len(e.Ids) == n, what+": number of tokens")
	vp.Assert(len(e.TypeIds) == n && len(e.Tokens) == n && len(e.Offsets) == n && len(e.SpecialTokenMask) == n && len(e.AttentionMask) == n,
		what+": all per-token arrays have the same length")
	content := false
	for _, t := range ts {
		content = content || t.spec == 0
	}
	vp.Assert(len(e.Words) == n || !content && len(e.Words) == 0, what+": word indices for every token")
	for i, t := range ts {
		vp.Assert(vp.And(e.Ids[i] == t.id, e.Tokens[i] == t.s), what+": ids and tokens in order")
		if len(e.Words) == n {
			vp.Assert(e.Words[i] == t.word, what+": word indices")
		}
		vp.Assert(vp.And(e.SpecialTokenMask[i] == t.spec, e.AttentionMask[i] == t.att), what+": masks")
		vp.Assert(vp.And(e.Offsets[i][0] == t.o0, e.Offsets[i][1] == t.o1), what+": offsets")
		if types {
			vp.Assert(e.TypeIds[i] == t.typ, what+": type ids")
		}
		if q, ok := e.Token2Sequence(i); t.seq >= 0 {
			vp.Assert(ok && q == t.seq, what+": sequences")
		} else if content && len(e.SequenceRanges) > 0 {
			vp.Assert(!ok, what+": special and padding tokens belong to no sequence")
		}
	}
}

const (
	clsID, sepID = 101, 102
	cls, sep     = "[CLS]", "[SEP]"
)

// layout is what a post-processor must produce for the contents a and b.
type layout func(a, b []tok, pair, add bool) []tok

func cat(ps ...[]tok) []tok {
	var r []tok
	for _, p := range ps {
		r = append(r, p...)
	}
	return r
}

func plain(a, b []tok, pair, add bool) []tok { return cat(a, b) }

func bert(a, b []tok, pair, add bool) []tok {
	if !add {
		return cat(a, b)
	}
	r := cat([]tok{special(cls, clsID, 0)}, a, []tok{special(sep, sepID, 0)})
	if pair {
		r = cat(r, b, []tok{special(sep, sepID, 1)})
	}
	return r
}

func roberta(a, b []tok, pair, add bool) []tok {
	if !add {
		return cat(a, b)
	}
	r := cat([]tok{special(cls, clsID, 0)}, a, []tok{special(sep, sepID, 0)})
	if pair {
		r = cat(r, []tok{special(sep, sepID, 1)}, b, []tok{special(sep, sepID, 1)})
	}
	return r
}

func template() tokenizer.PostProcessor {
	b := new(processor.TemplateProcessing).Builder()
	b.NewSpecialTokens([]tokenizer.Token{{Value: cls, Id: clsID}, {Value: sep, Id: sepID}})
	b.NewSingle("[CLS] $0 [SEP]")
	b.NewPair("[CLS]:0 $A:0 [SEP]:0 $B:1 [SEP]:1")
	return b.Build()
}

// swapped is a template with other type ids and another order
func swapped() tokenizer.PostProcessor {
	b := new(processor.TemplateProcessing).Builder()
	b.NewSpecialTokens([]tokenizer.Token{{Value: cls, Id: clsID}, {Value: sep, Id: sepID}})
	b.NewSingle("$A:1 [SEP]:1 [CLS]:2")
	b.NewPair("$B:2 [SEP]:2 $A:1 [CLS]:3")
	return b.Build()
}

func retype(ts []tok, typ int) []tok {
	var r []tok
	for _, t := range ts {
		t.typ = typ
		r = append(r, t)
	}
	return r
}

func swappedLayout(a, b []tok, pair, add bool) []tok {
	a, b = retype(a, 1), retype(b, 2)
	if !pair && !add {
		return a
	} else if !pair {
		return cat(a, []tok{special(sep, sepID, 1), special(cls, clsID, 2)})
	} else if !add {
		return cat(b, a)
	}
	return cat(b, []tok{special(sep, sepID, 2)}, a, []tok{special(cls, clsID, 3)})
}

func byteLevel() tokenizer.PostProcessor {
	return processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{AddPrefixSpace: vp.Bool(), TrimOffsets: vp.Bool()})
}

func pick() (tokenizer.PostProcessor, layout, int, int) {
	c, s := processor.PostToken{Value: cls, Id: clsID}, processor.PostToken{Value: sep, Id: sepID}
	switch vp.Pick(0, 8) {
	case 0:
		return nil, plain, 0, 0
	case 1:
		return processor.NewBertProcessing(s, c), bert, 2, 3
	case 2:
		return processor.NewRobertaProcessing(s, c, true, vp.Bool()), roberta, 2, 4
	case 3:
		return template(), bert, 2, 3
	case 4:
		return byteLevel(), plain, 0, 0
	case 5:
		return swapped(), swappedLayout, 2, 2
	case 6:
		return processor.NewSequence([]tokenizer.PostProcessor{byteLevel(), template()}), bert, 2, 3
	case 7:
		return processor.NewSequence([]tokenizer.PostProcessor{processor.NewBertProcessing(s, c), byteLevel()}), bert, 2, 3
	}
	return processor.NewRobertaProcessing(s, c, false, vp.Bool()), roberta, 2, 4
}

// bounds: no post-processor, Bert, Roberta (with and without offset trimming), a Bert-like template, one with another order
// and other type ids, ByteLevel, the sequences ByteLevel+template and Bert+ByteLevel; a first
// sequence of 0..2 tokens (thorough 0..3), no or a second sequence of 0..2 tokens, special tokens on and off.
func H_C06_layout() {
	p, lay, add1, add2 := pick()
	m := vp.Bound(2, 3)
	a, as := mk(vp.Pick(0, m), 0, 'A')
	pair := vp.Bool()
	var b *E
	var bs []tok
	if pair {
		b, bs = mk(vp.Pick(0, m), 1, 'P')
	}
	add := vp.Bool()
	t := tokenizer.NewTokenizer(nil)
	if p != nil {
		t.WithPostProcessor(p)
		vp.Assert(p.AddedTokens(false) == add1 && p.AddedTokens(true) == add2, "the declared number of added tokens")
	}
	r := t.PostProcess(a, b, add)
	vp.Assert(r != nil, "post-processing gives an encoding")
	want := lay(as, bs, pair, add)
	is(r, want, true, "post-processing")
	vp.Assert(len(r.Overflowing) == 0, "no overflow without truncation")
	n := 0
	if add {
		n = add1
		if pair {
			n = add2
		}
	}
	vp.Assert(len(r.Ids) == len(as)+len(bs)+n, "post-processing adds exactly the declared number of tokens")
	vp.Reach("layout")
	vp.Observe("r", r.Ids, r.TypeIds, r.Tokens, r.Offsets, r.Words, r.SpecialTokenMask)
}

// bounds: as H_C06_layout with 1..4 tokens in the first sequence, truncated only-first to every feasible maximum length
// and stride; the second sequence has 0..1 tokens.
func H_C06_truncated() {
	p, lay, add1, add2 := pick()
	lt := lay([]tok{{}}, nil, false, false)
	template := lt[0].typ != 0
	n1 := vp.Pick(1, vp.Bound(4, 6))
	a, as := mk(n1, 0, 'A')
	pair := vp.Bool()
	var b *E
	var bs []tok
	if pair {
		b, bs = mk(vp.Pick(0, 1), 1, 'P')
	}
	add := vp.Bool()
	extra := len(bs)
	if add {
		if pair {
			extra += add2
		} else {
			extra += add1
		}
	}
	keep := vp.Pick(1, n1)
	stride := vp.Pick(0, keep-1)
	max := keep + extra
	t := tokenizer.NewTokenizer(nil)
	if p != nil {
		t.WithPostProcessor(p)
	}
	t.WithTruncation(&tokenizer.TruncationParams{MaxLength: max, Strategy: tokenizer.OnlyFirst, Stride: stride})
	r := t.PostProcess(a, b, add)
	vp.Assert(r != nil, "post-processing gives an encoding")
	vp.Assert(len(r.Ids) <= max, "the final encoding respects the maximum length, special tokens included")
	is(r, lay(as[:keep], bs, pair, add), true, "truncated and post-processed")
	k := 0
	step := keep - stride
	for start := keep; start < n1; start += step {
		end := start + step
		if end > n1 {
			end = n1
		}
		vp.Assert(k < len(r.Overflowing), "every window is post-processed")
		w := &r.Overflowing[k]
		// (a template leaves the type ids of overflow windows as they were given, see K_C06_template_windows)
		is(w, lay(as[start-stride:end], bs, pair, add), !template, "post-processed overflow window")
		vp.Assert(len(w.Ids) <= max, "every window respects the maximum length")
		k++
	}
	vp.Assert(len(r.Overflowing) == k, "no extra windows")
	vp.Reach("truncated")
	vp.Observe("r", r.Ids, len(r.Overflowing))
}

// windows are the parts of ts after the first keep tokens, for stride 0.
func windows(ts []tok, keep int) [][]tok {
	var r [][]tok
	for i := keep; i < len(ts); i += keep {
		end := i + keep
		if end > len(ts) {
			end = len(ts)
		}
		r = append(r, ts[i:end])
	}
	return r
}

// bounds: as H_C06_layout (but the template in another order) with a pair of 1..4 and 1..3 tokens (thorough 1..5 and 1..4),
// truncated longest-first, without stride, to every length that keeps tokens of both.
func H_C06_pair_windows() {
	p, lay, _, add2 := pick()
	if lay([]tok{{}}, nil, false, false)[0].typ != 0 {
		return
	}
	n1, n2 := vp.Pick(1, vp.Bound(4, 5)), vp.Pick(1, vp.Bound(3, 4))
	a, as := mk(n1, 0, 'A')
	b, bs := mk(n2, 1, 'P')
	add := vp.Bool()
	max := vp.Pick(2, n1+n2)
	k1, k2 := n1, n2
	for k1+k2 > max {
		if k1 > k2 {
			k1--
		} else {
			k2--
		}
	}
	if k1 == 0 || k2 == 0 {
		return
	}
	if add {
		max += add2
	}
	t := tokenizer.NewTokenizer(nil)
	if p != nil {
		t.WithPostProcessor(p)
	}
	t.WithTruncation(&tokenizer.TruncationParams{MaxLength: max, Strategy: tokenizer.LongestFirst})
	r := t.PostProcess(a, b, add)
	is(r, lay(as[:k1], bs[:k2], true, add), true, "truncated pair")
	var want [][]tok
	for _, o := range windows(as, k1) {
		want = append(want, lay(o, bs[:k2], true, add))
		for _, q := range windows(bs, k2) {
			want = append(want, lay(o, q, true, add))
		}
	}
	for _, q := range windows(bs, k2) {
		want = append(want, lay(as[:k1], q, true, add))
	}
	vp.Assert(len(r.Overflowing) == len(want), "every window of one sequence with every window of the other")
	for i, w := range want {
		is(&r.Overflowing[i], w, true, "overflow window of a pair")
	}
	vp.Reach("pair windows")
	vp.Observe("r", r.Ids, len(want))
}

// bounds: as H_C06_layout, followed by padding to a fixed length 0..10 or to the longest.
func H_C06_padded() {
	p, lay, _, _ := pick()
	a, as := mk(vp.Pick(0, 2), 0, 'A')
	pair := vp.Bool()
	var b *E
	var bs []tok
	if pair {
		b, bs = mk(1, 1, 'P')
	}
	add := vp.Bool()
	t := tokenizer.NewTokenizer(nil)
	if p != nil {
		t.WithPostProcessor(p)
	}
	fixed := vp.Pick(0, 8)
	pp := &tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(fixed)), Direction: tokenizer.PaddingDirection(vp.Pick(0, 1)), PadId: 9, PadTypeId: 3, PadToken: "[PAD]"}
	t.WithPadding(pp)
	r := t.PostProcess(a, b, add)
	want := lay(as, bs, pair, add)
	var pad []tok
	for i := len(want); i < fixed; i++ {
		pad = append(pad, tok{id: 9, typ: 3, seq: -1, word: -1, spec: 1, att: 0, s: "[PAD]"})
	}
	if pp.Direction == tokenizer.Left {
		want = cat(pad, want)
	} else {
		want = cat(want, pad)
	}
	is(r, want, true, "post-processed and padded")
	vp.Reach("padded")
}

// K_C06_template_windows: a template that gives the sequence another type id than its own, and an overflow window.
func K_C06_template_windows() {
	t := tokenizer.NewTokenizer(nil)
	t.WithPostProcessor(swapped())
	t.WithTruncation(&tokenizer.TruncationParams{MaxLength: 3, Strategy: tokenizer.OnlyFirst})
	r := t.PostProcess(content(2), nil, true)
	vp.Assert(len(r.Overflowing) == 1 && r.Overflowing[0].TypeIds[0] == r.TypeIds[0], "the overflow window has the type ids of the template")
}

// K_C06_max_added: a maximum length that does not exceed the number of special tokens.
func K_C06_max_added() {
	t := tokenizer.NewTokenizer(nil)
	t.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: sep, Id: sepID}, processor.PostToken{Value: cls, Id: clsID}))
	t.WithTruncation(&tokenizer.TruncationParams{MaxLength: 2, Strategy: tokenizer.LongestFirst})
	vp.Assert(len(t.PostProcess(content(2), nil, true).Ids) <= 2, "the final encoding respects the maximum length, special tokens included")
}

func content(n int) *E {
	e := tokenizer.DefaultEncoding()
	for i := 0; i < n; i++ {
		e.Ids, e.TypeIds, e.Tokens = append(e.Ids, i), append(e.TypeIds, 0), append(e.Tokens, "t")
		e.Offsets, e.Words = append(e.Offsets, []int{i, i + 1}), append(e.Words, i)
		e.SpecialTokenMask, e.AttentionMask = append(e.SpecialTokenMask, 0), append(e.AttentionMask, 1)
	}
	return e
}
