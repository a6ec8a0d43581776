package pretok

import (
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// replaced is s with every old, from left to right, replaced by new.
func replaced(s, old, new string) string {
	out := ""
	for i := 0; i < len(s); {
		if len(old) > 0 && i+len(old) <= len(s) && s[i:i+len(old)] == old {
			out += new
			i += len(old)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

var cleanups = [][2]string{{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"},
	{" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}}

func cleaned(s string) string {
	for _, c := range cleanups {
		s = replaced(s, c[0], c[1])
	}
	return s
}

// decoded asserts that d turns toks into want, and into their concatenation.
func decoded(d tokenizer.Decoder, toks, want []string, what string) {
	in := append([]string(nil), toks...)
	got := d.DecodeChain(toks)
	vp.Assert(len(got) == len(want), what+": number of parts")
	for i := range got {
		vp.Assert(got[i] == want[i], what+": a part")
	}
	vp.Assert(d.Decode(toks) == strings.Join(want, ""), what+": the text is its parts")
	for i := range in {
		vp.Assert(toks[i] == in[i], what+": the tokens are left alone")
	}
	vp.Reach("decoded")
}

// bounds: 0..2 tokens (thorough 0..3), each with 0..2 parts, arbitrary characters of 1..2 bytes or the suffix ("</w>" or any
// character of 1..2 bytes).
func H_C21_bpe() {
	suf := "</w>"
	if vp.Pick(0, 1) == 1 {
		suf = string(char(2))
	}
	d := decoder.NewBpeDecoder(suf)
	if suf == "</w>" && vp.Pick(0, 1) == 1 {
		d = decoder.DefaultBpeDecoder()
	}
	var toks, want []string
	n := vp.Pick(0, vp.Bound(2, 3))
	for i := 0; i < n; i++ {
		t := ""
		for k := vp.Pick(0, 2); k > 0; k-- {
			if vp.Pick(0, 1) == 0 {
				t += suf
			} else {
				t += string(char(2))
			}
		}
		toks = append(toks, t)
		sp := " "
		if i == n-1 {
			sp = ""
		}
		want = append(want, replaced(t, suf, sp))
	}
	decoded(d, toks, want, "BPE decoder")
}

// bounds: 1..3 tokens, each of 0..2 arbitrary printable ASCII characters or one of the texts that are cleaned up, with or without
// prefix; with and without clean up.
func H_C21_wordpiece() {
	prefix := []string{"##", "@"}[vp.Pick(0, 1)]
	clean := vp.Pick(0, 1) == 1
	d := decoder.NewWordPieceDecoder(prefix, clean)
	if prefix == "##" && clean {
		d = decoder.DefaultWordpieceDecoder()
	}
	n := vp.Pick(0, 3)
	var toks, want []string
	for i := 0; i < n; i++ {
		var w string
		switch vp.Pick(0, 1) {
		case 0:
			for k := vp.Pick(0, vp.Bound(1, 2)); k > 0; k-- {
				w += string(rune(vp.ByteIn(0x20, 0x7e)))
			}
		case 1:
			w = []string{"do not", "'", "n't", "'ve", "'re", "'s", "'m", "é", "don't", "' ", "a ."}[vp.Pick(0, 10)]
		}
		pre := i > 0 && vp.Pick(0, 1) == 1
		switch {
		case i > 0 && pre:
			toks = append(toks, prefix+w)
		case i > 0 && len(w) >= len(prefix) && w[:len(prefix)] == prefix:
			toks = append(toks, w)
			w = w[len(prefix):]
		case i > 0:
			toks = append(toks, w)
			w = " " + w
		default:
			toks = append(toks, w)
		}
		if clean {
			w = cleaned(w)
		}
		want = append(want, w)
	}
	decoded(d, toks, want, "WordPiece decoder")
}

func hexDigit(b byte) (byte, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

// bounds: one token "<0xHH>" with two arbitrary bytes for the digits: a byte if both are hexadecimal digits (any case), text
// otherwise; followed by nothing, a text or the byte 0x80.
func H_C21_byte_digits() {
	a, b := vp.Byte(), vp.Byte()
	t := "<0x" + string([]byte{a, b}) + ">"
	toks := []string{t}
	x, ok1 := hexDigit(a)
	y, ok2 := hexDigit(b)
	v := x<<4 | y
	var want []string
	switch vp.Pick(0, 2) {
	case 0:
		want = []string{t}
		if ok1 && ok2 {
			want = []string{string([]byte{v})}
			if v >= 0x80 {
				want = []string{"\uFFFD"}
			}
		}
	case 1:
		toks = append(toks, "a")
		want = []string{t, "a"}
		if ok1 && ok2 {
			want = []string{string([]byte{v}), "a"}
			if v >= 0x80 {
				want[0] = "\uFFFD"
			}
		}
	case 2:
		toks = append(toks, "<0x80>")
		want = []string{t, "\uFFFD"}
		if ok1 && ok2 {
			if v >= 0xc2 && v <= 0xdf {
				want = []string{string([]byte{v, 0x80})}
			} else {
				want = []string{"\uFFFD", "\uFFFD"}
			}
		}
	}
	decoded(decoder.NewByteFallback(), toks, want, "byte fallback decoder")
}

// utf8OK is the definition of UTF-8.
func utf8OK(s []byte) bool {
	for len(s) > 0 {
		n := 0
		lo, hi := byte(0x80), byte(0xbf)
		switch c := s[0]; {
		case c < 0x80:
			n = 1
		case c >= 0xc2 && c <= 0xdf:
			n = 2
		case c >= 0xe0 && c <= 0xef:
			n = 3
			if c == 0xe0 {
				lo = 0xa0
			} else if c == 0xed {
				hi = 0x9f
			}
		case c >= 0xf0 && c <= 0xf4:
			n = 4
			if c == 0xf0 {
				lo = 0x90
			} else if c == 0xf4 {
				hi = 0x8f
			}
		}
		if n == 0 || len(s) < n {
			return false
		}
		for i := 1; i < n; i++ {
			if s[i] < lo || s[i] > hi {
				return false
			}
			lo, hi = 0x80, 0xbf
		}
		s = s[n:]
	}
	return true
}

// bounds: 0..4 tokens (thorough 0..5), each a byte token of an arbitrary byte or one of three texts (one of which looks like the
// beginning of a byte token): runs of bytes become their text, or one U+FFFD per byte if they are no UTF-8.
func H_C21_byte_runs() {
	const digits = "0123456789ABCDEF"
	var toks, want []string
	var run []byte
	flush := func() {
		if len(run) > 0 {
			if utf8OK(run) {
				want = append(want, string(run))
			} else {
				for range run {
					want = append(want, "\uFFFD")
				}
			}
		}
		run = nil
	}
	for i, n := 0, vp.Pick(0, vp.Bound(4, 5)); i < n; i++ {
		if vp.Pick(0, 1) == 0 {
			b := vp.Byte()
			toks = append(toks, "<0x"+string([]byte{digits[b>>4], digits[b&15]})+">")
			run = append(run, b)
		} else {
			flush()
			t := []string{"é", "<0x4>", "<0x41> "}[vp.Pick(0, vp.Bound(0, 2))]
			toks = append(toks, t)
			want = append(want, t)
		}
	}
	flush()
	decoded(decoder.NewByteFallback(), toks, want, "byte fallback decoder")
}

// bounds: 0..3 tokens (thorough 0..4), each the pad token, the delimiter, empty, a cleaned up text, or an arbitrary character of
// 1..2 bytes; with and without clean up.
func H_C21_ctc() {
	clean := vp.Pick(0, 1) == 1
	pad, del := "<pad>", "|"
	d := decoder.NewCTC(pad, del, clean)
	if clean && vp.Pick(0, 1) == 1 {
		d = decoder.DefaultCTC()
	}
	var toks, want []string
	for i, n := 0, vp.Pick(0, vp.Bound(3, 4)); i < n; i++ {
		k := vp.Pick(0, 6)
		if k == 6 {
			toks = append(toks, string(char(2)))
		} else {
			toks = append(toks, []string{pad, "é<pad>", "", "| n't", "|.|'s", " do<pad> not"}[k])
		}
		t := toks[i]
		if i > 0 && toks[i-1] == t {
			continue
		}
		t = replaced(t, pad, "")
		if clean {
			t = replaced(cleaned(t), del, " ")
		}
		if t != "" {
			want = append(want, t)
		}
	}
	decoded(d, toks, want, "CTC decoder")
}

// bounds: 0..2 tokens of 0..3 and 0..1 arbitrary characters of 1..2 bytes; arbitrary content of 1..2 bytes; up to 2 at both ends
// (thorough: up to 4 characters, 3 at both ends).
func H_C21_strip() {
	content := char(2)
	start, stop := vp.Pick(0, vp.Bound(2, 3)), vp.Pick(0, vp.Bound(2, 3))
	var toks, want []string
	for i, n := 0, vp.Pick(0, 2); i < n; i++ {
		l := 1
		if i == 0 {
			l = vp.Bound(3, 4)
		}
		t, cs := text(vp.Pick(0, l), 2)
		for k := 0; k < start && len(cs) > 0 && cs[0].r == content; k++ {
			cs = cs[1:]
		}
		for k := 0; k < stop && len(cs) > 0 && cs[len(cs)-1].r == content; k++ {
			cs = cs[:len(cs)-1]
		}
		toks = append(toks, t)
		want = append(want, str(cs))
	}
	decoded(decoder.NewStrip(string(content), start, stop), toks, want, "Strip decoder")
}

// bounds: 0..3 tokens of 0..2 characters; two or three decoders in sequence, each applied to the parts of the one before.
func H_C21_sequence() {
	var toks []string
	for i, n := 0, vp.Pick(0, 3); i < n; i++ {
		toks = append(toks, []string{"a", "a</w>", "<0x41>", "<0xC3>", "<0xA9>", ""}[vp.Pick(0, 5)])
	}
	var ds []tokenizer.Decoder
	want := append([]string(nil), toks...)
	for i, n := 0, vp.Pick(0, vp.Bound(2, 3)); i < n; i++ {
		var d tokenizer.Decoder
		switch vp.Pick(0, 3) {
		case 0:
			d = decoder.NewFuse()
			want = []string{strings.Join(want, "")}
		case 1:
			d = decoder.NewBpeDecoder("</w>")
			want = append([]string(nil), want...)
			for j := range want {
				sp := " "
				if j == len(want)-1 {
					sp = ""
				}
				want[j] = replaced(want[j], "</w>", sp)
			}
		case 2:
			d = decoder.NewStrip("a", 1, 0)
			want = append([]string(nil), want...)
			for j := range want {
				want[j] = strings.TrimPrefix(want[j], "a")
			}
		case 3:
			d = decoder.NewByteFallback()
			var next []string
			var run []byte
			for _, t := range append(want, "end") {
				if len(t) == 6 && t[:3] == "<0x" {
					x, _ := hexDigit(t[3])
					y, _ := hexDigit(t[4])
					run = append(run, x<<4|y)
					continue
				}
				if len(run) > 0 {
					if utf8OK(run) {
						next = append(next, string(run))
					} else {
						for range run {
							next = append(next, "\uFFFD")
						}
					}
					run = nil
				}
				next = append(next, t)
			}
			want = next[:len(next)-1]
		}
		ds = append(ds, d)
	}
	decoded(decoder.NewSequence(ds), toks, want, "decoder sequence")
}

// bounds: 40 tokens, all but two fixed, at every place of one and three (thorough ten) of the other; each decoder.
func H_C21_long() {
	toks := make([]string, 40)
	for i := range toks {
		toks[i] = []string{"ab", "##c", "<0xE4>", "<0xB8>", "<0xAD>", "|", "é</w>", "ab", "ab", "<pad>", " .", "<0x41>"}[i*7%12]
	}
	pool := []string{"a", "##", "</w>", "<0xe4>", "<0x80>", "<pad>", "|", "", "do not"}
	toks[vp.Pick(0, len(toks)-1)] = pool[vp.Pick(0, len(pool)-1)]
	toks[[]int{0, 17, 39, 1, 2, 3, 16, 18, 37, 38}[vp.Pick(0, vp.Bound(2, 9))]] = string(char(2))
	var want []string
	switch vp.Pick(0, 4) {
	case 0:
		for i, t := range toks {
			sp := " "
			if i == len(toks)-1 {
				sp = ""
			}
			want = append(want, replaced(t, "</w>", sp))
		}
		decoded(decoder.DefaultBpeDecoder(), toks, want, "BPE decoder")
	case 1:
		for i, t := range toks {
			if i > 0 {
				if strings.HasPrefix(t, "##") {
					t = t[2:]
				} else {
					t = " " + t
				}
			}
			want = append(want, cleaned(t))
		}
		if strings.HasPrefix(toks[0], "##") {
			return
		}
		decoded(decoder.DefaultWordpieceDecoder(), toks, want, "WordPiece decoder")
	case 2:
		var run []byte
		flush := func() {
			if utf8OK(run) && len(run) > 0 {
				want = append(want, string(run))
			} else {
				for range run {
					want = append(want, "\uFFFD")
				}
			}
			run = nil
		}
		for _, t := range toks {
			if len(t) == 6 && t[:3] == "<0x" {
				x, _ := hexDigit(t[3])
				y, _ := hexDigit(t[4])
				run = append(run, x<<4|y)
				continue
			}
			flush()
			want = append(want, t)
		}
		flush()
		decoded(decoder.NewByteFallback(), toks, want, "byte fallback decoder")
	case 3:
		for i, t := range toks {
			if i > 0 && toks[i-1] == t {
				continue
			}
			if t = replaced(cleaned(replaced(t, "<pad>", "")), "|", " "); t != "" {
				want = append(want, t)
			}
		}
		decoded(decoder.DefaultCTC(), toks, want, "CTC decoder")
	case 4:
		decoded(decoder.NewFuse(), toks, []string{strings.Join(toks, "")}, "Fuse decoder")
	}
}
