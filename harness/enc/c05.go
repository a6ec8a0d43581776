package enc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// bounds: a first sequence of 0..7 tokens and no or a second sequence of 0..7 tokens (thorough 0..12); max length 1..n+2,
// every stride 0..3, all three strategies (restricted to feasible ones for only-first and only-second).
func H_C05_truncate() {
	m := vp.Bound(7, 12)
	n1 := vp.Pick(0, m)
	a := mk(n1, true)
	as := take(a)
	pair := vp.Bool()
	n2 := 0
	var b *E
	bs := &snap{}
	if pair {
		n2 = vp.Pick(0, m)
		b = mk(n2, true)
		bs = take(b)
	}
	total := n1 + n2
	max := vp.Pick(1, total+1)
	stride := vp.Pick(0, 2)
	strat := tokenizer.TruncationStrategy(vp.Pick(int(tokenizer.LongestFirst), int(tokenizer.OnlySecond)))
	remove := total - max
	// what must remain of either sequence
	k1, k2 := n1, n2
	if remove > 0 {
		switch strat {
		case tokenizer.OnlyFirst:
			vp.Assume(n1 > remove)
			k1 -= remove
		case tokenizer.OnlySecond:
			vp.Assume(pair && n2 > remove)
			k2 -= remove
		case tokenizer.LongestFirst:
			for i := 0; i < remove; i++ {
				if k1 > k2 {
					k1--
				} else {
					k2--
				}
			}
		}
	}
	// a sequence that is cut to a length not above the stride has no windows to build
	vp.Assume((k1 == n1 || k1 > stride) && (k2 == n2 || k2 > stride))
	ra, rb := tokenizer.TruncateEncodings(a, b, &tokenizer.TruncationParams{MaxLength: max, Strategy: strat, Stride: stride})
	vp.Assert(ra != nil && (rb != nil) == pair, "truncation returns the sequences it was given")
	got := len(ra.Ids)
	if pair {
		got += len(rb.Ids)
	}
	vp.Assert(got <= max, "the result respects the maximum length")
	if remove <= 0 {
		vp.Reach("fits")
		part(ra, as, 0, n1, "a sequence that fits is unchanged")
		vp.Assert(len(ra.Overflowing) == 0, "a sequence that fits has no overflow")
		if pair {
			part(rb, bs, 0, n2, "a pair that fits is unchanged")
		}
		return
	}
	vp.Reach("truncated")
	vp.Assert(got == max, "no more is removed than needed")
	if strat == tokenizer.LongestFirst && pair {
		l1, l2 := len(ra.Ids), len(rb.Ids)
		// tokens are only taken from a sequence while it is the longer one
		vp.Assert(l1 == n1 || l1 >= l2-1, "longest first does not cut the first sequence below the second")
		vp.Assert(l2 == n2 || l2 >= l1-1, "longest first does not cut the second sequence below the first")
	} else {
		vp.Assert(len(ra.Ids) == k1, "only the selected sequence is cut (first)")
		if pair {
			vp.Assert(len(rb.Ids) == k2, "only the selected sequence is cut (second)")
		}
	}
	if len(ra.Ids) < n1 {
		windows(ra, as, len(ra.Ids), stride, "truncate pair (first)")
	} else {
		part(ra, as, 0, n1, "first sequence not cut")
	}
	if pair {
		if len(rb.Ids) < n2 {
			windows(rb, bs, len(rb.Ids), stride, "truncate pair (second)")
		} else {
			part(rb, bs, 0, n2, "second sequence not cut")
		}
	}
	vp.Observe("n", len(ra.Ids), got)
}

// K_C05_stride: cutting a sequence to a length not above the stride. Truncate refuses, TruncateEncodings ignores that.
func K_C05_stride() {
	a, b := fixed(5), fixed(5)
	ra, rb := tokenizer.TruncateEncodings(a, b, &tokenizer.TruncationParams{MaxLength: 1, Strategy: tokenizer.LongestFirst, Stride: 1})
	vp.Assert(len(ra.Ids)+len(rb.Ids) <= 1, "the result respects the maximum length")
}

func fixed(n int) *E {
	e := tokenizer.DefaultEncoding()
	for i := 0; i < n; i++ {
		e.Ids, e.TypeIds, e.Tokens = append(e.Ids, i), append(e.TypeIds, 0), append(e.Tokens, "t")
		e.Offsets, e.Words = append(e.Offsets, []int{i, i + 1}), append(e.Words, i)
		e.SpecialTokenMask, e.AttentionMask = append(e.SpecialTokenMask, 0), append(e.AttentionMask, 1)
	}
	return e
}
