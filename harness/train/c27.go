package train

import (
	"errors"
	"os"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

// recorder is a trainer that keeps the words it is given.
type recorder struct {
	trained int
	words   map[string]int
	model   tokenizer.Model
	special []tokenizer.AddedToken
}

func (r *recorder) WithProgressBar() bool { return false }

func (r *recorder) ProcessTokens(words map[string]int, tokens []string) {
	for _, t := range tokens {
		words[t]++
	}
}

func (r *recorder) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	r.trained++
	r.words = map[string]int{}
	for w, n := range words {
		r.words[w] = n
	}
	return r.model, r.special
}

// lower makes ASCII letters small and fails on bad.
type lower struct{ bad string }

var errBad = errors.New("bad")

func (l lower) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	if l.bad != "" && n.GetNormalized() == l.bad {
		return nil, errBad
	}
	return n.Lowercase(), nil
}

// failing is a pre-tokenizer that fails on bad.
type failing struct {
	tokenizer.PreTokenizer
	bad string
}

func (f failing) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	for _, s := range p.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte) {
		if s.Value == f.bad {
			return nil, errBad
		}
	}
	return f.PreTokenizer.PreTokenize(p)
}

func level(words ...string) *wordlevel.WordLevel {
	v := map[string]int{}
	for i, w := range words {
		v[w] = i
	}
	m, err := wordlevel.New(v, words[0])
	if err != nil {
		panic(err)
	}
	return m
}

// file writes a file of the given content and returns its name.
func file(dir, name, content string) string {
	f := dir + "/" + name
	if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
		panic(err)
	}
	return f
}

// count adds the words of content, the runs of bytes other than spaces of each line (in small letters if low), to want.
func count(want map[string]int, content string, low bool) {
	for len(content) > 0 {
		line := content
		if i := strings.IndexByte(content, '\n'); i >= 0 {
			line, content = content[:i], content[i+1:]
		} else {
			content = ""
		}
		line = strings.TrimSuffix(line, "\r")
		if low {
			line = strings.ToLower(line)
		}
		for _, w := range strings.Split(line, " ") {
			if w != "" {
				want[w]++
			}
		}
	}
}

func same(got, want map[string]int, what string) {
	vp.Assert(len(got) == len(want), what+": number of words")
	for w, n := range want {
		vp.Assert(got[w] == n, what+": every word is counted as often as it occurs")
	}
}

// bounds: one file of up to 5 (thorough: 6) bytes, letters, capitals, spaces, LF and CR, read in chunks of 1 to 4 bytes or
// at once, with or without a normalizer, workers running one after the other in either order
func H_C27_content() {
	n := vp.Pick(0, vp.Bound(5, 6))
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.Byte()
		vp.Assume(vp.Or(vp.Or(b[i] == 'a', b[i] == 'B'), vp.Or(b[i] == ' ', vp.Or(b[i] == '\n', b[i] == '\r'))))
	}
	content := string(b)
	size := int64(vp.Pick(1, 5))
	if size == 5 {
		size = 100
	}
	low := vp.Pick(0, 1) == 1
	old := tokenizer.SetTrainChunkSize(size)
	defer tokenizer.SetTrainChunkSize(old)
	r := &recorder{model: level("u")}
	tk := tokenizer.NewTokenizer(level("v"))
	if low {
		tk.WithNormalizer(lower{})
	}
	tk.WithPreTokenizer(pretokenizer.NewCharDelimiterSplit(' '))
	f := file(vp.TempDir(), "f", content)
	vp.Sched(vp.Pick(1, 2))
	err := tk.Train(r, []string{f})
	vp.Sched(0)
	vp.Assert(err == nil, "train: no error")
	want := map[string]int{}
	count(want, content, low)
	same(r.words, want, "train")
	vp.Assert(r.trained == 1, "train: trains once")
	vp.Reach("train")
}

// bounds: up to four lines (thorough: five) in up to four files, each line in a chunk of its own or not, every schedule of the workers and of the collector
func H_C27_schedules() {
	dir := vp.TempDir()
	sets := [][]string{{"a\nb\n"}, {"a\n", "a\n"}, {"a\n", "b\n"}, {"a\n"}, {}, {"a\nb\na\n"}, {"a\nb\n", "b\n"},
		{"a\nb\n", "a\na\n"}, {"a\nb\na\nc\n"}, {"a", "b\n", "a\n", ""},
		{"a\nb\n", "a\na\n", "c\n"}}
	var files []string
	want := map[string]int{}
	for i, c := range sets[vp.Pick(0, vp.Bound(9, 10))] {
		files = append(files, file(dir, string(rune('f'+i)), c))
		count(want, c, false)
	}
	old := tokenizer.SetTrainChunkSize(int64([]int{2, 100}[vp.Pick(0, 1)]))
	defer tokenizer.SetTrainChunkSize(old)
	r := &recorder{model: level("u")}
	tk := tokenizer.NewTokenizer(level("v"))
	tk.WithPreTokenizer(pretokenizer.NewCharDelimiterSplit(' '))
	err := tk.Train(r, files)
	vp.Sched(1)
	vp.Assert(err == nil, "train: no error")
	same(r.words, want, "train")
	vp.Reach("train")
	vp.Sched(0)
}

// bounds: 2 files in up to 4 chunks; one file missing or a directory, or the normalizer or the pre-tokenizer failing on one
// line, or none of this; every schedule of the workers and of the collector
func H_C27_errors() {
	dir := vp.TempDir()
	files := []string{file(dir, "f", "a b\nc\n"), file(dir, "g", "d\ne\n")}
	old := tokenizer.SetTrainChunkSize(int64(vp.Pick(2, 4)))
	defer tokenizer.SetTrainChunkSize(old)
	model := level("u", "a")
	r := &recorder{model: model, special: []tokenizer.AddedToken{tokenizer.NewAddedToken("[S]", true)}}
	first := level("v", "b")
	tk := tokenizer.NewTokenizer(first)
	tk.WithPreTokenizer(pretokenizer.NewCharDelimiterSplit(' '))
	fail := vp.Pick(0, 4)
	line := []string{"a b", "c", "d", "e"}[vp.Pick(0, 3)]
	switch fail {
	case 1:
		files[vp.Pick(0, 1)] = dir + "/none"
	case 2:
		files[vp.Pick(0, 1)] = dir
		tokenizer.SetTrainChunkSize(5000)
	case 3:
		tk.WithNormalizer(lower{bad: line})
	case 4:
		tk.WithPreTokenizer(failing{pretokenizer.NewCharDelimiterSplit(' '), line})
	}
	err := tk.Train(r, files)
	vp.Sched(0)
	vp.Assert((err != nil) == (fail != 0), "train: fails exactly when a file cannot be read or a line cannot be split")
	_, special := tk.TokenToId("[S]")
	if fail != 0 {
		vp.Assert(r.trained == 0, "failed training: no model is trained on a part of the words")
		vp.Assert(tk.GetModel() == tokenizer.Model(first) && !special, "failed training: the tokenizer stays as it was")
		vp.Reach("fails")
	} else {
		vp.Assert(tk.GetModel() == tokenizer.Model(model) && special, "training: the tokenizer gets the model and the special tokens")
		vp.Reach("trains")
	}
}

// bounds: a line longer than the buffers of the standard library's line scanner, in 1 or 2 chunks
func H_C27_long() {
	long := strings.Repeat("x", 70000)
	content := long + "\nb\n"
	old := tokenizer.SetTrainChunkSize(int64([]int{1 << 20, 50000}[vp.Pick(0, 1)]))
	defer tokenizer.SetTrainChunkSize(old)
	r := &recorder{model: level("u")}
	tk := tokenizer.NewTokenizer(level("v"))
	tk.WithPreTokenizer(whole{})
	f := file(vp.TempDir(), "f", content)
	vp.Sched(1)
	vp.Steps(200_000_000)
	err := tk.Train(r, []string{f})
	vp.Sched(0)
	vp.Assert(err == nil, "train: no error")
	vp.Assert(len(r.words) == 2 && r.words[long] == 1 && r.words["b"] == 1, "long lines: words")
	vp.Reach("long")
}

// whole splits nothing.
type whole struct{}

func (whole) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	return p, nil
}

// bounds: BPE training on two files of 2 to 3 (thorough: 4) symbolic letters and line ends, in chunks of 3 bytes or at once
func H_C27_bpe() {
	dir := vp.TempDir()
	var files []string
	want := map[string]int{}
	for i := 0; i < 2; i++ {
		n := vp.Pick(2, vp.Bound(3, 4))
		b := make([]byte, n)
		for k := range b {
			b[k] = vp.Byte()
			vp.Assume(vp.Or(vp.Or(b[k] == 'a', b[k] == 'b'), b[k] == '\n'))
		}
		files = append(files, file(dir, string(rune('f'+i)), string(b)))
		count(want, string(b), false)
	}
	old := tokenizer.SetTrainChunkSize(int64([]int{3, 100}[vp.Pick(0, 1)]))
	defer tokenizer.SetTrainChunkSize(old)
	tk := tokenizer.NewTokenizer(level("v"))
	tk.WithPreTokenizer(pretokenizer.NewCharDelimiterSplit(' '))
	vp.Sched(1)
	trainer := func() *bpe.BpeTrainer {
		b := bpe.NewBPETrainerBuilder()
		b.MinFrequency(0)
		b.VocabSize(8)
		b.SpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[S]", true)})
		return b.Build()
	}
	err := tk.Train(trainer(), files)
	vp.Assert(err == nil, "train: no error")
	m, _ := trainer().Train(want)
	vp.Sched(0)
	got, exp := tk.GetModel().GetVocab(), m.GetVocab()
	vp.Assert(len(got) == len(exp), "bpe: size of the vocabulary")
	for t, id := range exp {
		x, ok := got[t]
		vp.Assert(ok && x == id, "bpe: the model the words give")
	}
	id, ok := tk.TokenToId("[S]")
	vp.Assert(ok && id == exp["[S]"] && tk.GetVocabSize(true) == len(exp), "bpe: special tokens have the ids of the model")
	e, err := tk.EncodeSingle("[S]")
	vp.Assert(err == nil && len(e.Ids) == 1 && e.Ids[0] == exp["[S]"] && e.Tokens[0] == "[S]", "bpe: special tokens are encoded as such")
	vp.Reach("bpe")
}
