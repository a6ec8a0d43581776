package proc

import (
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// piece is what a text of a template means.
type piece struct {
	bad bool
	seq int // 0: A, 1: B, -1: a special token
	id  string
	typ int
}

// num reads a number without sign (or with +) of few digits.
func num(s string) (n int, ok bool) {
	if len(s) > 1 && s[0] == '+' {
		s = s[1:]
	}
	for i := 0; i < len(s); i++ {
		if vp.Or(s[i] < '0', s[i] > '9') {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, len(s) > 0
}

// parse is the reference of pieces: [$][name][:type].
func parse(s string) piece {
	at, colons := -1, 0
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			at = i
			colons++
		}
	}
	if colons > 1 {
		return piece{bad: true}
	}
	name, typ, given := s, 0, false
	if colons == 1 {
		n, ok := num(s[at+1:])
		if !ok && isNegativeZero(s[at+1:]) {
			n, ok = 0, true
		}
		if !ok {
			return piece{bad: true}
		}
		name, typ, given = s[:at], n, true
	}
	if len(name) == 0 || name[0] != '$' {
		return piece{seq: -1, id: name, typ: typ}
	}
	name = name[1:]
	p := piece{seq: 0, typ: typ}
	switch {
	case name == "", name == "A", name == "a":
	case name == "B", name == "b":
		p.seq = 1
	default:
		n, ok := num(name)
		if !ok && isNegativeZero(name) {
			ok = true
		}
		if !ok {
			return piece{bad: true}
		}
		if !given {
			p.typ = n
		}
	}
	return p
}

func isNegativeZero(s string) bool {
	if len(s) < 2 || s[0] != '-' {
		return false
	}
	for i := 1; i < len(s); i++ {
		if s[i] != '0' {
			return false
		}
	}
	return true
}

// same asserts that p is the piece want.
func same(p processor.Piece, want piece) {
	switch q := p.(type) {
	case *processor.SequencePiece:
		vp.Assert(want.seq == int(q.Id) && q.TypeId == want.typ, "sequence and type of a piece")
	case *processor.SpecialTokenPiece:
		vp.Assert(want.seq == -1 && q.Id == want.id && q.TypeId == want.typ, "special token and type of a piece")
	default:
		vp.Assert(false, "kind of a piece")
	}
}

// bounds: pieces of 0..6 (thorough 8) arbitrary ASCII characters, after nothing, "$" or "[T]:".
func H_C31_piece() {
	s := []string{"", "$", "[T]:"}[vp.Pick(0, 2)] + vp.ASCII(vp.Pick(0, vp.Bound(6, 8)), 0, 0x7f)
	want := parse(s)
	p, err := processor.NewPiece(s)
	if want.bad {
		vp.Assert(err != nil, "a malformed piece is an error")
		vp.Reach("malformed")
		return
	}
	vp.Assert(err == nil, "a piece that means something is read")
	same(p, want)
	vp.Reach("read")
}

var texts = []string{"$", "$A:1", "$b", "$B:2", "$7", "[X]", "[Y]:3", "", "$c", "x:y", "[X]:1:2"}

// bounds: templates of 1..3 (thorough 4) pieces out of eleven kinds, four of them malformed or empty, as a text and as a list.
func H_C31_template() {
	n := vp.Pick(1, vp.Bound(3, 4))
	var list []string
	s := ""
	bad := false
	for i := 0; i < n; i++ {
		t := texts[vp.Pick(0, len(texts)-1)]
		list = append(list, t)
		if i > 0 {
			s += " "
		}
		s += t
		bad = bad || parse(t).bad
	}
	for _, in := range []interface{}{s, list} {
		tpl, err := processor.NewTemplate(in)
		if bad {
			vp.Assert(err != nil && tpl == nil, "a template with a malformed piece is an error")
			vp.Reach("malformed")
			continue
		}
		vp.Assert(err == nil && len(tpl) == n, "the pieces of a template")
		for i, p := range tpl {
			same(p, parse(list[i]))
		}
		vp.Reach("read")
	}
	_, err := processor.NewTemplate(7)
	vp.Assert(err != nil, "a template that is neither a text nor a list is an error")
}

// bounds: single templates out of five and pair templates out of six (none among them) with two special tokens, of which neither, one (of one or two
// ids) or both are defined, arbitrary ids; the options of the builder in every order, or the constructor; encodings of 0..2 tokens, alone and in a pair.
func H_C31_builder() {
	single := []string{"$A", "[X] $A [Y]:3", "[X] $0 [X]:1", "$A:2 [Y]", "[Y]"}[vp.Pick(0, 4)]
	pair := []string{"", "$A $B:1", "[X] $A [Y] $B:1 [Y]:1", "$B:1 [X]:2 $A:1", "$A $A:1", "[Y] $B"}[vp.Pick(0, 5)]
	idX, idY, idZ := vp.Int(0, 1000), vp.Int(0, 1000), vp.Int(0, 1000)
	defined := map[string][]tok{}
	var toks []processor.SpecialToken
	var plain []tokenizer.Token
	kind := vp.Pick(0, 3)
	if kind > 0 {
		defined["[X]"] = []tok{{s: "[X]", id: idX}}
		toks = append(toks, *processor.NewSpecialTokenFrom("[X]", idX))
		plain = append(plain, tokenizer.Token{Value: "[X]", Id: idX})
	}
	if kind == 2 {
		defined["[Y]"] = []tok{{s: "[Y]", id: idY}}
		toks = append(toks, *processor.NewSpecialTokenFrom("[Y]", idY))
		plain = append(plain, tokenizer.Token{Value: "[Y]", Id: idY})
	}
	if kind == 3 {
		defined["[Y]"] = []tok{{s: "<y>", id: idY}, {s: "<z>", id: idZ}}
		toks = append(toks, *processor.NewSpecialToken("[Y]", []int{idY, idZ}, []string{"<y>", "<z>"}))
	}

	tp := new(processor.TemplateProcessing)
	b := tp.Builder()
	set := []func(){
		func() { b.NewSingle(single) },
		func() {
			if pair != "" {
				b.NewPair(pair)
			}
		},
		func() {
			if kind == 3 {
				b.SpecialTokens = processor.NewTokensFrom(toks)
				b.AddedSingle, b.AddedPair = b.DefaultAdded(true), b.DefaultAdded(false)
			} else {
				b.NewSpecialTokens(plain)
			}
		},
	}
	var order []int
	if kind == 3 {
		order = []int{0, 1, 2}
	} else {
		order = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vp.Pick(0, 5)]
	}
	for _, i := range order {
		set[i]()
	}

	// reference
	split := func(s string) (out []piece) {
		from := 0
		for i := 0; i <= len(s); i++ {
			if i == len(s) || s[i] == ' ' {
				out = append(out, parse(s[from:i]))
				from = i + 1
			}
		}
		return out
	}
	pieces := [][]piece{split(single), nil}
	if pair != "" {
		pieces[1] = split(pair)
	}
	missing, added := false, []int{0, 0}
	var has [2]bool
	for k, ps := range pieces {
		for _, p := range ps {
			if p.seq >= 0 {
				has[p.seq] = k == 1 || has[p.seq]
				continue
			}
			missing = missing || defined[p.id] == nil
			added[k] += len(defined[p.id])
		}
	}
	valid := !missing && (pair == "" || has[0] && has[1])
	err := b.Validate()
	vp.Assert((err == nil) == valid, "a template is valid if the pair uses both sequences and all special tokens are defined")
	vp.Assert(len(b.Single) == len(pieces[0]) && len(b.Pair) == len(pieces[1]), "validation leaves the templates alone")
	for i, p := range b.Single {
		same(p, pieces[0][i])
	}
	post := b.Build()
	if vp.Pick(0, 1) == 1 {
		post = processor.NewTemplateProcessing(b.Single, b.Pair, processor.NewTokensFrom(toks))
	}
	vp.Assert(post.AddedTokens(false) == added[0] && post.AddedTokens(true) == added[1], "the number of special tokens of the templates")
	if !valid {
		vp.Reach("invalid")
		return
	}

	two := pair != "" && vp.Pick(0, 1) == 1
	add := vp.Pick(0, 1) == 1
	e, a := mk(vp.Pick(0, 2), 0, 'A')
	seqs := [][]tok{a, nil}
	var second *E
	k := 0
	if two {
		second, seqs[1] = mk(vp.Pick(0, 1), 1, 'P')
		k = 1
	}
	var want []tok
	for _, p := range pieces[k] {
		if p.seq >= 0 {
			want = append(want, retype(seqs[p.seq], p.typ)...)
			continue
		}
		if add {
			for _, t := range defined[p.id] {
				want = append(want, special(t.s, t.id, p.typ))
			}
		}
	}
	got := post.Process(e, second, add)
	n := 0
	for _, t := range want {
		n += t.spec
	}
	vp.Assert(!add || n == added[k], "as many special tokens as were counted")
	is(got, want, true, "template")
	vp.Reach("processed")
}
