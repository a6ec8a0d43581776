package enc

import "github.com/sugarme/tokenizer/zzverif/vp"

// bounds: encodings of 0..10 tokens (thorough 0..20) with arbitrary contents, word indices present or absent, every
// max length 0..n+1, every stride 0..max length+1.
func H_C01_windows() {
	n := vp.Pick(0, vp.Bound(10, 20))
	words := vp.Bool()
	e := mk(n, words)
	s := take(e)
	maxLen := vp.Pick(0, n+1)
	stride := vp.Pick(0, maxLen+1)
	r, err := e.Truncate(maxLen, stride)
	if stride >= maxLen {
		vp.Reach("rejected")
		vp.Assert(err != nil, "a stride that is not smaller than the maximum length is rejected")
		part(e, s, 0, n, "rejected truncation leaves the encoding alone")
		return
	}
	vp.Assert(err == nil && r != nil, "truncation succeeds")
	if maxLen >= n {
		vp.Reach("short")
		part(r, s, 0, n, "an encoding that fits is unchanged")
		vp.Assert(len(r.Overflowing) == 0, "an encoding that fits has no overflow")
		return
	}
	vp.Reach("truncated")
	windows(r, s, maxLen, stride, "truncate")
	vp.Observe("r", r.Ids, len(r.Overflowing))
	for i := range r.Overflowing {
		vp.Observe("o", r.Overflowing[i].Ids, r.Overflowing[i].Offsets, r.Overflowing[i].Words)
	}
}

// bounds: as H_C01_windows for 2..7 tokens (thorough 2..12), followed by a second truncation of the kept part and appending to any window.
func H_C01_independent() {
	n := vp.Pick(2, vp.Bound(7, 12))
	e := mk(n, true)
	s := take(e)
	maxLen := vp.Pick(1, n-1)
	stride := vp.Pick(0, maxLen-1)
	r, err := e.Truncate(maxLen, stride)
	vp.Assert(err == nil && r != nil, "truncation succeeds")
	vp.Reach("truncated")
	// growing one window must not show through in the others
	k := vp.Pick(0, len(r.Overflowing))
	w := r
	if k > 0 {
		w = &r.Overflowing[k-1]
	}
	w.Ids = append(w.Ids, -7)
	w.TypeIds = append(w.TypeIds, -7)
	w.Tokens = append(w.Tokens, "!")
	w.Offsets = append(w.Offsets, []int{-7, -7})
	w.SpecialTokenMask = append(w.SpecialTokenMask, -7)
	w.AttentionMask = append(w.AttentionMask, -7)
	w.Words = append(w.Words, -7)
	m := len(w.Ids) - 1
	w.Ids, w.TypeIds, w.Tokens, w.Offsets = w.Ids[:m], w.TypeIds[:m], w.Tokens[:m], w.Offsets[:m]
	w.SpecialTokenMask, w.AttentionMask, w.Words = w.SpecialTokenMask[:m], w.AttentionMask[:m], w.Words[:m]
	windows(r, s, maxLen, stride, "windows after growing one of them")
}
