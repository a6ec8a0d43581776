// Package cache holds the harnesses over the cache of model files.
package cache

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"os"
	"sync"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/zzverif/vp"
)

const model, name = "org/model", "tokenizer.json"

var errNet = errors.New("connection reset")

// body gives the content in pieces of the given size, and an error after `cut` bytes (if not negative); while is called before every piece.
type body struct {
	content         []byte
	at, piece, cut  int
	while           func(at int)
	closed, atClose bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.while != nil {
		b.while(b.at)
	}
	if b.cut >= 0 && b.at >= b.cut {
		return 0, errNet
	}
	if b.at == len(b.content) {
		return 0, io.EOF
	}
	n := b.piece
	if n > len(b.content)-b.at {
		n = len(b.content) - b.at
	}
	if b.cut >= 0 && n > b.cut-b.at {
		n = b.cut - b.at
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, b.content[b.at:b.at+n])
	b.at += n
	return n, nil
}

func (b *body) Close() error { b.closed = true; return nil }

// server answers requests.
type server struct {
	answer func(n int) (status int, b *body, err error) // the n-th request
	n      int
	urls   []string
	mu     *sync.Mutex // if there are several callers
}

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	if s.mu != nil {
		s.mu.Lock()
	}
	s.urls = append(s.urls, r.URL.String())
	s.n++
	n := s.n
	if s.mu != nil {
		s.mu.Unlock()
	}
	status, b, err := s.answer(n)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, ContentLength: -1, Request: r}, nil
}

// fresh makes the cache an empty directory (or one that does not exist yet) and the server the one for all requests.
func fresh(s *server) (final string) {
	dir := vp.TempDir() + "/scratch/cache"
	tokenizer.CachedDir = dir
	http.DefaultTransport = s
	return dir + "/" + model + "/" + name
}

func content(path string) ([]byte, bool) {
	b, err := os.ReadFile(path)
	return b, err == nil
}

// absent asserts that there is no file, or the complete one.
func absent(path string, want []byte, what string) {
	if got, ok := content(path); ok {
		vp.Assert(bytes.Equal(got, want), what)
	}
}

// bytesOf is n arbitrary bytes.
func bytesOf(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.Byte()
	}
	return b
}

// bounds: a download of 0..4 arbitrary bytes (thorough 6) in pieces of 1..2 bytes, that is complete, cut after any byte, answered with status 404
// or 500, refused, or does not fit on the disk; what is in the cache before every piece and afterwards; a second call then succeeds, a third one does without a request.
func H_C29_download() {
	want := bytesOf(vp.Pick(0, vp.Bound(4, 6)))
	piece := vp.Pick(1, 2)
	fault := vp.Pick(0, 4) // none, cut, status, refused, disk full
	cut, status, limit := -1, 200, -1
	switch fault {
	case 1:
		cut = vp.Pick(0, len(want))
	case 2:
		status = []int{404, 500, 403, 204}[vp.Pick(0, 3)]
	case 4:
		vp.Assume(len(want) > 0)
		limit = vp.Pick(0, len(want)-1)
	}
	var final string
	s := &server{}
	s.answer = func(n int) (int, *body, error) {
		if fault == 3 {
			return 0, nil, errNet
		}
		return status, &body{content: want, piece: piece, cut: cut, while: func(int) {
			_, err := os.Stat(final)
			vp.Assert(err != nil, "there is no file in the cache until it is complete")
		}}, nil
	}
	final = fresh(s)
	vp.FileLimit(limit)
	path, err := tokenizer.CachedPath(model, name)
	vp.FileLimit(-1)
	got, ok := content(final)
	if fault == 0 {
		vp.Assert(err == nil && path == final, "the path of the file")
		vp.Assert(ok && bytes.Equal(got, want), "the file has the content")
		vp.Reach("downloaded")
	} else {
		vp.Assert(err != nil && path == "", "a failed download is an error")
		vp.Assert(!ok, "a failed download leaves no file to be served")
		vp.Reach("failed")
	}
	for _, u := range s.urls {
		vp.Assert(u == "https://huggingface.co/"+model+"/resolve/main/"+name, "the address of the file")
	}
	// what happened does not keep the file from being downloaded
	s.answer = func(n int) (int, *body, error) { return 200, &body{content: want, piece: 3, cut: -1}, nil }
	path, err = tokenizer.CachedPath(model, name)
	vp.Assert(err == nil && path == final, "the path of the file afterwards")
	got, ok = content(final)
	vp.Assert(ok && bytes.Equal(got, want), "the file has the content afterwards")
	// and once there, it is served
	n := s.n
	path, err = tokenizer.CachedPath(model, name)
	vp.Assert(err == nil && path == final && s.n == n, "a cached file is served without a request")
	got, ok = content(final)
	vp.Assert(ok && bytes.Equal(got, want), "the file stays as it is")
}

// bounds: two downloads of the same 1..4 bytes (thorough 5), in pieces of 1..2 bytes, the second one from any piece of the first one to its end or its failure after any byte.
func H_C29_overlap() {
	want := bytesOf(vp.Pick(1, vp.Bound(4, 5)))
	piece := vp.Pick(1, 2)
	start := vp.Pick(0, len(want))
	cut := vp.Pick(-1, len(want))
	s := &server{}
	var final string
	depth := 0
	s.answer = func(n int) (int, *body, error) {
		switch depth {
		case 0:
			return 200, &body{content: want, piece: piece, cut: -1, while: func(at int) {
				absent(final, want, "an incomplete file in the cache")
				if at < start || depth != 0 {
					return
				}
				depth++
				path, err := tokenizer.CachedPath(model, name)
				vp.Assert((err == nil) == (cut < 0), "the download during the other")
				if err == nil {
					got, ok := content(path)
					vp.Assert(ok && bytes.Equal(got, want), "the content during the other download")
				}
				depth = -1
			}}, nil
		case 1:
			return 200, &body{content: want, piece: 1, cut: cut, while: func(int) { absent(final, want, "an incomplete file in the cache") }}, nil
		}
		return 200, &body{content: want, piece: 1, cut: -1}, nil
	}
	final = fresh(s)
	path, err := tokenizer.CachedPath(model, name)
	vp.Assert(err == nil && path == final, "the path of the file")
	got, ok := content(final)
	vp.Assert(ok && bytes.Equal(got, want), "the file has the content")
	vp.Reach("downloaded")
}

// bounds: a local model directory with a file of 0..4 arbitrary bytes (thorough 6), with or without space for it in the cache, missing, or a directory.
func H_C29_local() {
	want := bytesOf(vp.Pick(0, vp.Bound(4, 6)))
	s := &server{answer: func(int) (int, *body, error) { return 404, &body{cut: -1, piece: 1}, nil }}
	fresh(s)
	src := vp.TempDir()
	kind := vp.Pick(0, 3) // fine, no space, missing, a directory
	limit := -1
	switch kind {
	case 2:
	case 3:
		vp.Assert(os.Mkdir(src+"/"+name, 0o755) == nil, "mkdir")
	default:
		vp.Assert(os.WriteFile(src+"/"+name, want, 0o644) == nil, "write")
		if kind == 1 {
			vp.Assume(len(want) > 0)
			limit = vp.Pick(0, len(want)-1)
		}
	}
	final := tokenizer.CachedDir + "/" + src + "/" + name
	vp.FileLimit(limit)
	path, err := tokenizer.CachedPath(src, name)
	vp.FileLimit(-1)
	if kind > 0 {
		vp.Assert(err != nil && path == "", "a failure is an error")
		_, err = os.Stat(final)
		vp.Assert(err != nil, "a failed copy leaves no file to be served")
		vp.Reach("failed")
		if kind > 1 {
			return
		}
		path, err = tokenizer.CachedPath(src, name)
	}
	vp.Assert(err == nil && path == final, "the path of the file")
	got, ok := content(final)
	vp.Assert(ok && bytes.Equal(got, want), "the file has the content")
	vp.Assert(s.n == 0, "a local file needs no request")
	got, ok = content(src + "/" + name)
	vp.Assert(ok && bytes.Equal(got, want), "the local file is left alone")
	path, err = tokenizer.CachedPath(src, name)
	vp.Assert(err == nil && path == final, "the path of the file again")
	vp.Reach("copied")
}

// bounds: a cached file of 0..3 arbitrary bytes, whatever a local directory or the server have.
func H_C29_cached() {
	want := bytesOf(vp.Pick(0, 3))
	s := &server{answer: func(int) (int, *body, error) { return 200, &body{content: []byte("other"), cut: -1, piece: 9}, nil }}
	final := fresh(s)
	vp.Assert(os.MkdirAll(tokenizer.CachedDir+"/"+model, 0o755) == nil, "mkdir")
	vp.Assert(os.WriteFile(final, want, 0o644) == nil, "write")
	path, err := tokenizer.CachedPath(model, name)
	vp.Assert(err == nil && path == final && s.n == 0, "a cached file is served without a request")
	got, ok := content(final)
	vp.Assert(ok && bytes.Equal(got, want), "the file stays as it is")
	// another file of the model is not the cached one
	path, err = tokenizer.CachedPath(model, "vocab.txt")
	vp.Assert(err == nil && path == tokenizer.CachedDir+"/"+model+"/vocab.txt", "the path of another file")
	got, ok = content(path)
	vp.Assert(ok && string(got) == "other", "the content of another file")
	// nor is that of another model
	path, err = tokenizer.CachedPath("elsewhere/model", name)
	vp.Assert(err == nil, "a file of another model")
	got, ok = content(path)
	vp.Assert(ok && string(got) == "other", "the content of the file of another model")
	vp.Reach("served")
}

// bounds: two goroutines that ask for the same file of 1..2 arbitrary bytes, of a local directory or downloaded (one of the downloads cut after any
// byte, or none); every schedule of their operations on files.
func H_C29_concurrent() {
	vp.Sched(3)
	want := bytesOf(vp.Pick(1, 2))
	local := vp.Pick(0, 1) == 1
	cut := -1
	if !local {
		cut = vp.Pick(-1, len(want)-1)
	}
	var mu sync.Mutex
	s := &server{answer: func(n int) (int, *body, error) {
		c := cut
		if n != 2 && n != 3 { // requests of which at least one is read
			c = -1
		}
		return 200, &body{content: want, piece: 1, cut: c}, nil
	}}
	s.mu = &mu
	final := fresh(s)
	m := model
	if local {
		m = vp.TempDir()
		vp.Assert(os.WriteFile(m+"/"+name, want, 0o644) == nil, "write")
		final = tokenizer.CachedDir + "/" + m + "/" + name
	}
	var wg sync.WaitGroup
	var errs [2]error
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			path, err := tokenizer.CachedPath(m, name)
			if errs[i] = err; err == nil {
				got, ok := content(path)
				vp.Assert(ok && path == final && bytes.Equal(got, want), "what is served is the whole file")
			}
		}()
	}
	wg.Wait()
	vp.Assert(errs[0] == nil || errs[1] == nil, "a failure of one does not affect the other")
	vp.Assert(cut >= 0 || (errs[0] == nil && errs[1] == nil), "both are served")
	got, ok := content(final)
	vp.Assert(ok && bytes.Equal(got, want), "the file has the content")
	vp.Reach("served")
}
