package norm

import (
	"unicode"

	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
	"golang.org/x/text/unicode/norm"
)

// out asserts what a normalizer made of s: its text, and that every byte stays mapped to the original range of the
// character it stands for (inserted characters, with a < 0, to anything in bounds).
func out(n *NS, err error, s string, want []ch, what string) {
	vp.Assert(err == nil && n != nil, what+": succeeds")
	vp.Assert(n.GetNormalized() == str(want), what+": resulting text")
	vp.Assert(n.GetOriginal() == s, what+": the original text is untouched")
	al := n.Alignments()
	vp.Assert(len(al) == len(str(want)), what+": one alignment per byte")
	vp.Assert(len(n.AlignmentsOriginal()) == len(s), what+": one alignment per byte of the original")
	p := 0
	for _, c := range want {
		for k := len(string(c.r)); k > 0; k-- {
			if c.a >= 0 {
				vp.Assert(al[p][0] == c.a && al[p][1] == c.b, what+": a byte maps to the original range of its character")
			} else {
				vp.Assert(0 <= al[p][0] && al[p][0] <= al[p][1] && al[p][1] <= len(s), what+": an inserted byte maps into the original")
			}
			p++
		}
	}
	for i := 1; i < len(al); i++ {
		vp.Assert(al[i-1][0] <= al[i][0], what+": the text keeps the order of the original")
	}
}

func cleanRef(cs []ch) (o []ch) {
	for _, c := range cs {
		ws := c.r == ' ' || c.r == '\t' || c.r == '\n' || c.r == '\r'
		if c.r == 0 || c.r == 0xfffd || !ws && unicode.In(c.r, unicode.Cc, unicode.Cf) {
			continue
		}
		if ws {
			c.r = ' '
		}
		o = append(o, c)
	}
	return o
}

func cjk(r rune) bool {
	return vp.Or(vp.And(r >= 0x4e00, r <= 0x9fff), vp.And(r >= 0x3400, r <= 0x4dbf), vp.And(r >= 0xf900, r <= 0xfaff), vp.And(r >= 0x20000, r <= 0x2a6df),
		vp.And(r >= 0x2a700, r <= 0x2b73f), vp.And(r >= 0x2b740, r <= 0x2b81f), vp.And(r >= 0x2b820, r <= 0x2ceaf), vp.And(r >= 0x2f800, r <= 0x2fa1f))
}

func chineseRef(cs []ch) (o []ch) {
	for _, c := range cs {
		if cjk(c.r) {
			o = append(o, ch{' ', -1, -1}, c, ch{' ', -1, -1})
		} else {
			o = append(o, c)
		}
	}
	return o
}

func lowerRef(cs []ch) (o []ch) {
	for _, c := range cs {
		c.r = unicode.ToLower(c.r)
		o = append(o, c)
	}
	return o
}

// bounds: texts of 0..1 arbitrary characters of 1..4 bytes or 2 of 1..3 bytes (thorough 0..3 of 1..4); text cleaning, Chinese character handling and
// lowercasing in every combination.
func H_C10_bert() {
	k := vp.Pick(0, vp.Bound(2, 3))
	w := 4
	if k > 1 {
		w = vp.Bound(3, 4)
	}
	s, cs := text(k, w)
	clean, lower, chinese := vp.Bool(), vp.Bool(), vp.Bool()
	n, err := normalizer.NewBertNormalizer(clean, lower, chinese, false).Normalize(normalizer.NewNormalizedFrom(s))
	if clean {
		cs = cleanRef(cs)
	}
	if chinese {
		cs = chineseRef(cs)
	}
	if lower {
		cs = lowerRef(cs)
	}
	vp.Reach("normalized")
	out(n, err, s, cs, "bert normalizer")
	vp.Observe("n", n.GetNormalized(), n.Alignments())
}

// upper makes a normalizer of Uppercase.
type upper struct{}

func (upper) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	return n.Uppercase(), nil
}

// bounds: texts of 0..1 characters of 1..3 bytes, 2 of 1..2 bytes or 3 of 1 byte (thorough 2 of 1..3, 3..4 of 1); stripping on either or both sides, lowercasing
// (alone and combined with stripping).
func H_C10_strip_lower() {
	k := vp.Pick(0, vp.Bound(3, 4))
	w := 3
	if k > 1 {
		w = vp.Bound(2, 3)
	}
	if k > 2 {
		w = 1
	}
	s, cs := text(k, w)
	n := normalizer.NewNormalizedFrom(s)
	var nm normalizer.Normalizer
	l, r, low := false, false, false
	switch vp.Pick(0, 4) {
	case 0:
		l, r = vp.Bool(), vp.Bool()
		nm = normalizer.NewStrip(l, r)
	case 1:
		low = true
		nm = normalizer.Lowercase()
	case 2:
		low, l = vp.Bool(), vp.Bool()
		r = l
		nm = normalizer.NewDefaultNormalizer(normalizer.WithLowercase(low), normalizer.WithStrip(l))
	case 3:
		low, l = true, true
		nm = normalizer.NewSequence([]normalizer.Normalizer{normalizer.Lowercase(), normalizer.NewStrip(true, false)})
	case 4:
		nm = normalizer.NewSequence(nil)
	}
	if low {
		cs = lowerRef(cs)
	}
	for l && len(cs) > 0 && unicode.IsSpace(cs[0].r) {
		cs = cs[1:]
	}
	for r && len(cs) > 0 && unicode.IsSpace(cs[len(cs)-1].r) {
		cs = cs[:len(cs)-1]
	}
	got, err := nm.Normalize(n)
	vp.Reach("normalized")
	out(got, err, s, cs, "strip and lowercase")
	vp.Observe("n", got.GetNormalized(), got.Alignments())
}

// bounds: texts of one character of 1..2 bytes (thorough 3) or two of 1 byte; uppercasing.
func H_C10_upper() {
	k, w := vp.Pick(1, 2), 1
	if k == 1 {
		w = vp.Bound(2, 3)
	}
	s, cs := text(k, w)
	for i := range cs {
		cs[i].r = unicode.ToUpper(cs[i].r)
	}
	got, err := upper{}.Normalize(normalizer.NewNormalizedFrom(s))
	vp.Reach("normalized")
	out(got, err, s, cs, "uppercase")
	vp.Observe("n", got.GetNormalized(), got.Alignments())
}

// bounds: texts of 0..4 bytes over {a,b,.}, a needle of 1..2 bytes over the same, a replacement of 0..2 arbitrary
// characters; followed by a prefix of 0..2 characters.
func H_C10_replace_prepend() {
	s, needle := abc(vp.Pick(0, vp.Bound(3, 4))), abc(vp.Pick(1, 2))
	content, _ := text(vp.Pick(0, 2), 2)
	prefix, _ := text(vp.Pick(0, 1), 3)
	want := ""
	for i := 0; i < len(s); {
		if i+len(needle) <= len(s) && s[i:i+len(needle)] == needle {
			want += content
			i += len(needle)
		} else {
			want += s[i : i+1]
			i++
		}
	}
	nm := normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewReplace(normalizer.String, needle, content), normalizer.NewPrepend(prefix)})
	n, err := nm.Normalize(normalizer.NewNormalizedFrom(s))
	vp.Assert(err == nil && n != nil, "replace and prepend: succeeds")
	if want != "" {
		want = prefix + want
	}
	vp.Reach("normalized")
	vp.Assert(n.GetNormalized() == want, "replace and prepend: resulting text")
	vp.Assert(len(n.Alignments()) == len(want) && len(n.AlignmentsOriginal()) == len(s), "replace and prepend: one alignment per byte")
	vp.Observe("n", n.GetNormalized(), n.Alignments())
}

// forms: a character, its canonical decomposition.
var forms = []struct {
	c string
	d string
}{
	{"a", "a"}, {"é", "e\u0301"}, {"e\u0301", "e\u0301"}, {"\u0301", "\u0301"}, {"각", "\u1100\u1161\u11a8"}, {"Å", "A\u030a"}, {"中", "中"}, {"ạ\u0307", "a\u0323\u0307"}, {"ΐ", "\u03b9\u0308\u0301"}, {"\u0915\u093f", "\u0915\u093f"},
}

// bounds: texts of 0..3 of 10 characters and combining sequences: NFD, accent stripping (BertNormalizer, StripAccents after
// NFD), NFC of the decomposed text.
func H_C10_accents() {
	s, dec, comp, base := "", "", "", ""
	var from [3][]ch // the clusters the bytes of dec, comp and base come from
	mark := func(k int, n, a, b int) {
		for ; n > 0; n-- {
			from[k] = append(from[k], ch{0, a, b})
		}
	}
	for k := vp.Pick(0, vp.Bound(3, 4)); k > 0; k-- {
		i := vp.Pick(0, len(forms)-1)
		f := forms[i]
		// a combining mark composes with what is before it
		vp.Assume(i != 3 || s == "")
		a, b := len(s), len(s)+len(f.c)
		s += f.c
		dec += f.d
		mark(0, len(f.d), a, b)
		c := normalizer.NewNormalizedFrom(f.c).NFC().GetNormalized()
		comp += c
		mark(1, len(c), a, b)
		for _, r := range f.d {
			if !unicode.Is(unicode.Mn, r) {
				base += string(r)
				mark(2, len(string(r)), a, b)
			}
		}
	}
	var nm normalizer.Normalizer
	want, src := dec, from[0]
	switch vp.Pick(0, 3) {
	case 0:
		nm = normalizer.NewNFD()
	case 1:
		nm = normalizer.NewNFC()
		want, src = comp, from[1]
	case 2:
		nm, want, src = normalizer.NewBertNormalizer(false, false, false, true), base, from[2]
	case 3:
		nm, want, src = normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewNFKD(), normalizer.NewStripAccents()}), base, from[2]
	}
	n, err := nm.Normalize(normalizer.NewNormalizedFrom(s))
	vp.Assert(err == nil && n != nil, "unicode normalizer: succeeds")
	vp.Reach("normalized")
	vp.Assert(n.GetNormalized() == want, "unicode normalizer: resulting text")
	al := n.Alignments()
	vp.Assert(len(al) == len(want) && len(n.AlignmentsOriginal()) == len(s), "unicode normalizer: one alignment per byte")
	for i, a := range al {
		vp.Assert(src[i].a <= a[0] && a[0] < a[1] && a[1] <= src[i].b, "unicode normalizer: a byte maps to the original range of its character")
		vp.Assert(i == 0 || al[i-1][0] <= a[0], "unicode normalizer: alignments in order")
	}
	vp.Observe("n", n.GetNormalized(), al)
}

// bounds: texts of 0..2 arbitrary characters of 1..4 bytes (thorough 0..3): stripping accents removes exactly the nonspacing
// marks, by the method, the normalizer and in a sequence.
func H_C10_marks() {
	s, cs := text(vp.Pick(0, vp.Bound(2, 3)), 4)
	var want []ch
	for _, c := range cs {
		if !unicode.Is(unicode.Mn, c.r) {
			want = append(want, c)
		}
	}
	n := normalizer.NewNormalizedFrom(s)
	var err error
	switch vp.Pick(0, 2) {
	case 0:
		n = n.RemoveAccents()
	case 1:
		n, err = normalizer.NewStripAccents().Normalize(n)
	case 2:
		n, err = normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewStripAccents(), normalizer.NewStripAccents()}).Normalize(n)
	}
	vp.Reach("normalized")
	out(n, err, s, want, "strip accents")
	vp.Observe("n", n.GetNormalized(), n.Alignments())
}

// clusters have their forms NFD, NFC, NFKD and NFKC, and do not interact with their neighbours.
var clusters = [][5]string{
	{"a", "a", "a", "a", "a"},
	{"é", "e\u0301", "é", "e\u0301", "é"},
	{"e\u0301", "e\u0301", "é", "e\u0301", "é"},
	{"ﬁ", "ﬁ", "ﬁ", "fi", "fi"},
	{"Ａ", "Ａ", "Ａ", "A", "A"},
	{"\u212b", "A\u030a", "\u00c5", "A\u030a", "\u00c5"},
	{"각", "\u1100\u1161\u11a8", "각", "\u1100\u1161\u11a8", "각"},
	{"a\u0307\u0323", "a\u0323\u0307", "ạ\u0307", "a\u0323\u0307", "ạ\u0307"},
	{"ẛ\u0323", "\u017f\u0323\u0307", "ẛ\u0323", "s\u0323\u0307", "ṩ"},
	{"½", "½", "½", "1\u20442", "1\u20442"},
	{"😀", "😀", "😀", "😀", "😀"},
}

// bounds: texts of 0..2 (thorough 3) of 11 clusters of characters; NFC, NFD, NFKC and NFKD by the methods, their normalizers and UnicodeNormalizer, once or twice.
func H_C10_forms() {
	form := vp.Pick(1, 4)
	s, want := "", ""
	var src []ch
	for k := vp.Pick(0, vp.Bound(2, 3)); k > 0; k-- {
		c := clusters[vp.Pick(0, len(clusters)-1)]
		for range c[form] {
			src = append(src, ch{0, len(s), len(s) + len(c[0])})
		}
		for i := len(c[form]) - len([]rune(c[form])); i > 0; i-- {
			src = append(src, ch{0, len(s), len(s) + len(c[0])})
		}
		s += c[0]
		want += c[form]
	}
	n := normalizer.NewNormalizedFrom(s)
	var err error
	how := vp.Pick(0, 3)
	switch how {
	case 0:
		switch form {
		case 1:
			n = n.NFD()
		case 2:
			n = n.NFC()
		case 3:
			n = n.NFKD()
		case 4:
			n = n.NFKC()
		}
	case 1:
		n, err = []normalizer.Normalizer{normalizer.NewNFD(), normalizer.NewNFC(), normalizer.NewNFKD(), normalizer.NewNFKC()}[form-1].Normalize(n)
	default:
		for ; how > 1; how-- {
			n, err = normalizer.NewUnicodeNormalizer([]norm.Form{norm.NFD, norm.NFC, norm.NFKD, norm.NFKC}[form-1]).Normalize(n)
		}
	}
	vp.Assert(err == nil && n != nil, "unicode form: succeeds")
	vp.Assert(n.GetNormalized() == want, "unicode form: resulting text")
	vp.Assert(n.GetOriginal() == s, "unicode form: original text")
	al := n.Alignments()
	vp.Assert(len(al) == len(want) && len(n.AlignmentsOriginal()) == len(s), "unicode form: one alignment per byte")
	for i, a := range al {
		vp.Assert(src[i].a <= a[0] && a[0] < a[1] && a[1] <= src[i].b, "unicode form: a byte maps to the original range of its characters")
		vp.Assert(i == 0 || al[i-1][0] <= a[0], "unicode form: alignments in order")
	}
	vp.Reach("normalized")
	vp.Observe("n", n.GetNormalized(), al)
}

// bounds: a text of some 70 characters with an arbitrary character of 1..3 bytes (thorough 4) at one of six places: text cleaning,
// Chinese character handling and lowercasing in every combination.
func H_C10_long() {
	s, cs := long(vp.Bound(3, 4))
	clean, lower, chinese := vp.Bool(), vp.Bool(), vp.Bool()
	n, err := normalizer.NewBertNormalizer(clean, lower, chinese, false).Normalize(normalizer.NewNormalizedFrom(s))
	if clean {
		cs = cleanRef(cs)
	}
	if chinese {
		cs = chineseRef(cs)
	}
	if lower {
		cs = lowerRef(cs)
	}
	vp.Reach("normalized")
	out(n, err, s, cs, "bert normalizer")
}
