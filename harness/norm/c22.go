package norm

import (
	"encoding/binary"
	"unicode"

	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/spm"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

type rule struct{ from, to string }

// charsmap is the precompiled charsmap of the rules: the size of its trie, the trie as a double array (one block of 256 units per
// node, the root at 0), the texts.
func charsmap(rules []rule) []byte {
	type node struct {
		next  map[byte]int
		value int
	}
	nodes := []*node{{map[byte]int{}, -1}}
	texts := ""
	for _, r := range rules {
		k := 0
		for i := 0; i < len(r.from); i++ {
			n, ok := nodes[k].next[r.from[i]]
			if !ok {
				n = len(nodes)
				nodes = append(nodes, &node{map[byte]int{}, -1})
				nodes[k].next[r.from[i]] = n
			}
			k = n
		}
		nodes[k].value = len(texts)
		texts += r.to + "\x00"
	}
	units := make([]uint32, 256*(len(nodes)+1))
	for i := range units {
		units[i] = 1 << 31 // no label
	}
	offset := func(pos, k int) uint32 {
		o := uint32(pos ^ 256*(k+1))
		if o%512 == 0 {
			return (o>>8)<<10 | 1<<9 // the offset field has two scales
		}
		return o << 10
	}
	units[0] = offset(0, 0)
	for k, n := range nodes {
		for c, m := range n.next {
			pos := 256*(k+1) + int(c)
			units[pos] = uint32(c) | offset(pos, m)
			if nodes[m].value >= 0 {
				units[pos] |= 1 << 8
				units[256*(m+1)] = 1<<31 | uint32(nodes[m].value)
			}
		}
	}
	data := binary.LittleEndian.AppendUint32(nil, uint32(4*len(units)))
	for _, u := range units {
		data = binary.LittleEndian.AppendUint32(data, u)
	}
	return append(data, texts...)
}

// lookup is the text of the shortest rule that is a prefix of s.
func lookup(rules []rule, s string) (to string, ok bool) {
	for n := 1; n <= len(s) && s[n-1] != 0; n++ {
		for _, r := range rules {
			if len(r.from) == n && s[:n] == r.from {
				return r.to, true
			}
		}
	}
	return "", false
}

var charRules = []rule{{"a", "b"}, {"\ufb01", "fi"}, {"\x01", ""}, {"e\u0301", "\u00e9"}, {"\r\n", "\n"}, {"😀", ":-)"}, {"\u0300", ""}}

// bounds: chunks of 0..3 arbitrary bytes (thorough 0..4), rules of 1..3 bytes some of which are prefixes of others: all rules that
// are prefixes of the chunk are found, shortest first, and the chunk is replaced by the text of the shortest one.
func H_C22_lookup() {
	rules := []rule{{"a", "x"}, {"ab", "yy"}, {"abc", ""}, {"\xc3\xa9", "e"}, {"b\xff", "\u00e9"}}
	m, err := spm.NewPrecompiledFrom(charsmap(rules))
	vp.Assert(err == nil, "charsmap: parsed")
	var b []byte
	for n := vp.Pick(0, vp.Bound(3, 4)); n > 0; n-- {
		b = append(b, vp.Byte())
	}
	s := string(b)
	var want []string
	for n := 1; n <= len(s) && s[n-1] != 0; n++ {
		for _, r := range rules {
			if len(r.from) == n && s[:n] == r.from {
				want = append(want, r.to)
			}
		}
	}
	got := m.Trie.CommonPrefixSearch(b)
	vp.Assert(len(got) == len(want), "charsmap: number of prefixes found")
	for i, w := range want {
		vp.Assert(m.Normalized[got[i]:got[i]+len(w)+1] == w+"\x00", "charsmap: the text of a prefix")
	}
	to := ""
	if len(want) > 0 {
		to = want[0]
	}
	vp.Assert(m.Transform(s) == to, "charsmap: the text of a chunk")
	vp.Reach("looked up")
}

// bounds: data of 0..4 arbitrary bytes, or two arbitrary trie units (thorough three) with 0..2 bytes of text, and a chunk of 0..2
// arbitrary bytes: an error or the text that the trie gives, no crash.
func H_C22_invalid() {
	var data []byte
	if vp.Pick(0, 1) == 0 {
		for n := vp.Pick(0, 4); n > 0; n-- {
			data = append(data, vp.Byte())
		}
	} else {
		u := vp.Pick(0, vp.Bound(2, 3))
		data = append(data, byte(4*u), 0, 0, 0)
		for i := 0; i < 4*u; i++ {
			data = append(data, vp.Byte())
		}
		for n := vp.Pick(0, 2); n > 0; n-- {
			data = append(data, vp.Byte())
		}
	}
	m, err := spm.NewPrecompiledFrom(data)
	size := 0
	if len(data) >= 4 {
		size = int(data[0]) | int(data[1])<<8 | int(data[2])<<16 | int(data[3])<<24
	}
	vp.Assert((err != nil) == (len(data) < 4 || size > len(data)-4), "charsmap: an error exactly if the trie is not complete")
	if err != nil {
		vp.Reach("error")
		return
	}
	var chunk []byte
	for n := vp.Pick(0, 2); n > 0; n-- {
		chunk = append(chunk, vp.Byte())
	}
	to, ok := m.Lookup(string(chunk))
	units := size / 4
	unit := func(k int) uint32 { return binary.LittleEndian.Uint32(data[4+4*k:]) }
	jump := func(u uint32) int {
		if u&(1<<9) != 0 {
			return int(u>>10) << 8
		}
		return int(u >> 10)
	}
	found := -1
	if units > 0 {
		at := jump(unit(0))
		for _, c := range chunk {
			at ^= int(c)
			if c == 0 || at >= units || unit(at)&(1<<31|0xff) != uint32(c) {
				break
			}
			u := unit(at)
			at ^= jump(u)
			if u&(1<<8) != 0 && at < units {
				found = int(unit(at) & (1<<31 - 1))
				break
			}
		}
	}
	texts := string(data[4+4*units:])
	vp.Assert(ok == (found >= 0 && found <= len(texts)), "charsmap: whether a chunk has a text")
	want := ""
	if ok {
		want = texts[found:]
		for i := 0; i < len(want); i++ {
			if want[i] == 0 {
				want = want[:i]
				break
			}
		}
	}
	vp.Assert(to == want && m.Transform(string(chunk)) == want, "charsmap: the text of a chunk")
	vp.Reach("no crash")
}

// bounds: texts of 0..3 characters (thorough 0..4) out of ten, mapped and unmapped ones, combining marks, line ends.
func H_C22_normalize() {
	m, err := spm.NewPrecompiledFrom(charsmap(charRules))
	vp.Assert(err == nil, "charsmap: parsed")
	s := ""
	alphabet := []string{"a", "e", "\u0301", "\x01", "\ufb01", "\r", "\n", "\u0300", "漢", "😀"}
	for n := vp.Pick(0, vp.Bound(3, 4)); n > 0; n-- {
		s += alphabet[vp.Pick(0, len(alphabet)-1)]
	}
	precompiled(m, s)
}

func precompiled(m *spm.Precompiled, s string) {
	var cs []ch
	for i, r := range s {
		cs = append(cs, ch{r, i, i + len(string(r))})
	}
	var want []ch
	loose := false // the last character was inserted
	put := func(from []ch, to string) {
		rs := []rune(to)
		if len(rs) == 0 && loose {
			want[len(want)-1].a = -1 // which of its neighbours it is aligned with is left open
		}
		a := 0
		for i, r := range rs {
			if i < len(from) {
				a = i
			}
			want = append(want, ch{r, from[a].a, from[a].b})
		}
		if len(rs) > 0 {
			loose = len(rs) > len(from)
		}
	}
	plain := ""
	for i := 0; i < len(cs); {
		j := i + 1
		if cs[i].r == '\r' && j < len(cs) && cs[j].r == '\n' {
			j++
		} else if cs[i].r != '\r' && cs[i].r != '\n' && cs[i].r != 1 {
			for j < len(cs) && unicode.Is(unicode.Mn, cs[j].r) {
				j++
			}
		}
		g := s[cs[i].a:cs[j-1].b]
		to, ok := lookup(charRules, g)
		if ok && len(g) < 6 {
			put(cs[i:j], to)
		} else {
			for k := i; k < j; k++ {
				if to, ok := lookup(charRules, string(cs[k].r)); ok {
					put(cs[k:k+1], to)
				} else {
					want = append(want, cs[k])
					loose = false
				}
			}
		}
		i = j
	}
	for _, c := range want {
		plain += string(c.r)
	}
	n, err := (&normalizer.Precompiled{Precompiled: m}).Normalize(normalizer.NewNormalizedFrom(s))
	out(n, err, s, want, "precompiled")
	for _, c := range cs {
		if unicode.Is(unicode.Mn, c.r) {
			return // NormalizeString writes marks as "U+0301"
		}
	}
	vp.Assert(m.NormalizeString(s) == plain, "precompiled: normalized text")
	vp.Reach("normalized")
}
