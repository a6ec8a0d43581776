// Package tok holds the harnesses over the tokenizer: added vocabulary, pre-tokenized strings, encoding and decoding.
package tok

import (
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// char is an arbitrary character of an arbitrary UTF-8 length (1..max bytes).
func char(max int) rune {
	switch vp.Pick(1, max) {
	case 1:
		return vp.Rune(0, 0x7f)
	case 2:
		return vp.Rune(0x80, 0x7ff)
	case 3:
		r := vp.Rune(0x800, 0xfffc)
		vp.Assume(r < 0xd800 || r > 0xdfff)
		return r
	}
	return vp.Rune(0x10000, 0x10ffff)
}

// text is n arbitrary characters of 1..max bytes.
func text(n, max int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += string(char(max))
	}
	return s
}

// over is n characters of the alphabet.
func over(n int, alphabet ...string) string {
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[vp.Pick(0, len(alphabet)-1)]
	}
	return s
}

// model is a model with a fixed vocabulary that makes every character a token (id 100 + its first byte unless it is in the
// vocabulary).
type model struct{ vocab map[string]int }

func (m model) Tokenize(s string) (o []tokenizer.Token, err error) {
	for i, r := range s {
		c := string(r)
		id, ok := m.vocab[c]
		if !ok {
			id = 100 + int(c[0])
		}
		o = append(o, tokenizer.Token{Id: id, Value: c, Offsets: []int{i, i + utf8.RuneLen(r)}})
	}
	return o, nil
}
func (m model) TokenToId(s string) (int, bool) { id, ok := m.vocab[s]; return id, ok }
func (m model) IdToToken(id int) (string, bool) {
	for k, v := range m.vocab {
		if v == id {
			return k, true
		}
	}
	return "", false
}
func (m model) GetVocab() map[string]int           { return m.vocab }
func (m model) GetVocabSize() int                  { return len(m.vocab) }
func (m model) Save(dir string, o ...string) error { return nil }
