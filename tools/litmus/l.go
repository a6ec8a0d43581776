package lit

import (
	"os"
	"sync"
	"sync/atomic"

	"github.com/sugarme/tokenizer/zzverif/vp"
)

func H_L_lost() {
	var mu sync.Mutex
	var wg sync.WaitGroup
	x := 0
	for i := 1; i <= 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			t := x
			mu.Unlock()
			mu.Lock()
			x = t*3 + i
			mu.Unlock()
		}()
	}
	wg.Wait()
	vp.Observe("x", x)
}

func H_L_sb() {
	var x, y int32
	var a, b int32
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { defer wg.Done(); atomic.StoreInt32(&x, 1); a = atomic.LoadInt32(&y) }()
	go func() { defer wg.Done(); atomic.StoreInt32(&y, 1); b = atomic.LoadInt32(&x) }()
	var c int32
	go func() { defer wg.Done(); c = atomic.LoadInt32(&x)*2 + atomic.LoadInt32(&y) }()
	wg.Wait()
	vp.Observe("x", int(a*2+b+10*c))
}

func H_L_recv() {
	c := make(chan int)
	var wg sync.WaitGroup
	r := make([]int, 2)
	wg.Add(4)
	for i := 0; i < 2; i++ {
		go func() { defer wg.Done(); r[i] = <-c }()
		go func() { defer wg.Done(); c <- i + 1 }()
	}
	wg.Wait()
	vp.Observe("x", r[0]*10+r[1])
}

func H_L_buf() {
	c := make(chan int, 2)
	var wg sync.WaitGroup
	wg.Add(3)
	for i := 0; i < 3; i++ {
		go func() { defer wg.Done(); c <- i + 1 }()
	}
	x := 0
	for i := 0; i < 3; i++ {
		x = x*10 + <-c
	}
	wg.Wait()
	vp.Observe("x", x)
}

func H_L_select() {
	c, d := make(chan int), make(chan int, 1)
	q := make(chan bool)
	go func() { c <- 1; c <- 2; close(q) }()
	go func() { d <- 3; d <- 4; d <- 5 }()
	x := 0
	n := 0
	for n < 4 {
		select {
		case v := <-c:
			x = x*10 + v
		case v := <-d:
			x = x*10 + v
		case <-q:
			x = x*10 + 9
			q = nil
		}
		n++
	}
	vp.Observe("x", x)
}

func H_L_nonblock() {
	c := make(chan int, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	var n int32
	go func() { defer wg.Done(); c <- 1; atomic.AddInt32(&n, 1) }()
	x := 0
	go func() {
		defer wg.Done()
		for i := 0; i < 2; i++ {
			select {
			case <-c:
				x = x*10 + 1
			default:
				x = x*10 + 2
			}
		}
		x = x*10 + int(atomic.LoadInt32(&n))
	}()
	wg.Wait()
	vp.Observe("x", x)
}

func H_L_try() {
	var mu, m2 sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	x, y := 0, 0
	go func() {
		defer wg.Done()
		mu.Lock()
		m2.Lock()
		x++
		m2.Unlock()
		mu.Unlock()
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2; i++ {
			m2.Lock()
			t := x
			m2.Unlock()
			if mu.TryLock() {
				y = y*10 + 1 + 2*t
				mu.Unlock()
			} else {
				y = y*10 + 2 + 2*t
			}
		}
	}()
	wg.Wait()
	vp.Observe("x", y)
}

func H_L_rw() {
	var mu sync.RWMutex
	var wg sync.WaitGroup
	wg.Add(3)
	x := 0
	r := make([]int, 2)
	go func() {
		defer wg.Done()
		mu.Lock()
		x = 1
		mu.Unlock()
		mu.Lock()
		x = 2
		mu.Unlock()
	}()
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			mu.RLock()
			r[i] = x
			mu.RUnlock()
			mu.RLock()
			r[i] = 3*r[i] + x
			mu.RUnlock()
		}()
	}
	wg.Wait()
	vp.Observe("x", r[0]*10+r[1])
}

func H_L_once() {
	var o sync.Once
	var mu sync.Mutex
	var wg sync.WaitGroup
	wg.Add(3)
	x := 0
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			o.Do(func() { mu.Lock(); x = x*10 + i + 1; mu.Unlock() })
			mu.Lock()
			x = x*10 + 5
			mu.Unlock()
		}()
	}
	go func() { defer wg.Done(); mu.Lock(); x = x*10 + 7; mu.Unlock() }()
	wg.Wait()
	vp.Observe("x", x)
}

func H_L_syncmap() {
	var m sync.Map
	var wg sync.WaitGroup
	wg.Add(2)
	r := make([]int, 2)
	for i := 0; i < 2; i++ {
		go func() {
			defer wg.Done()
			v, loaded := m.LoadOrStore("k", i+1)
			m.Store("k", i+3)
			w, _ := m.Load("k")
			r[i] = v.(int)*10 + w.(int)
			if loaded {
				r[i] += 100
			}
		}()
	}
	wg.Wait()
	vp.Observe("x", r[0]*1000+r[1])
}

func H_L_pipeline() {
	c, d := make(chan int), make(chan int)
	go func() {
		for v := range c {
			d <- v * 2
		}
		close(d)
	}()
	var wg sync.WaitGroup
	for i := 1; i <= 2; i++ {
		wg.Add(1)
		go func() { c <- i; c <- i + 2; wg.Done() }()
	}
	go func() { wg.Wait(); close(c) }()
	x := 0
	for v := range d {
		x = x*10 + v
	}
	vp.Observe("x", x)
}

// the main function ends while another still runs
func H_L_dead() {
	var a, b sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() }()
	go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() }()
	wg.Wait()
	vp.Observe("x", 1)
}

func H_L_panics() {
	c := make(chan int, 1)
	var n int32
	go func() {
		atomic.AddInt32(&n, 1)
		if atomic.LoadInt32(&n) == 2 {
			c <- 2
			panic("both")
		}
		c <- 1
	}()
	atomic.AddInt32(&n, 1)
	vp.Observe("x", <-c)
}

// file operations: two writers of a file through temporary files, a reader
func H_L_rename() {
	vp.Sched(3)
	d := vp.TempDir()
	os.WriteFile(d+"/f", []byte("0"), 0o644)
	var wg sync.WaitGroup
	wg.Add(3)
	for i := 1; i <= 2; i++ {
		go func() {
			defer wg.Done()
			f, _ := os.CreateTemp(d, "t*")
			f.WriteString(string(rune('0' + i)))
			f.Close()
			os.Rename(f.Name(), d+"/f")
		}()
	}
	x := ""
	go func() {
		defer wg.Done()
		for i := 0; i < 2; i++ {
			b, _ := os.ReadFile(d + "/f")
			x += string(b)
		}
	}()
	wg.Wait()
	b, _ := os.ReadFile(d + "/f")
	n := 0
	for _, c := range x + string(b) {
		n = n*10 + int(c-'0')
	}
	vp.Observe("x", n)
}

// two writers of the same file, a reader, a directory that is made and removed
func H_L_torn() {
	vp.Sched(3)
	d := vp.TempDir()
	var wg sync.WaitGroup
	wg.Add(3)
	for i := 1; i <= 2; i++ {
		go func() {
			defer wg.Done()
			f, err := os.Create(d + "/f")
			if err != nil {
				return
			}
			f.WriteString(string(rune('0' + i)))
			f.WriteString(string(rune('2' + i)))
		}()
	}
	n := 0
	go func() {
		defer wg.Done()
		if _, err := os.Stat(d + "/f"); err == nil {
			n = 1
			b, _ := os.ReadFile(d + "/f")
			for _, c := range b {
				n = n*10 + int(c-'0')
			}
		}
	}()
	wg.Wait()
	b, _ := os.ReadFile(d + "/f")
	for _, c := range b {
		n = n*10 + int(c-'0')
	}
	vp.Observe("x", n)
}

func H_L_dirs() {
	vp.Sched(3)
	d := vp.TempDir()
	var wg sync.WaitGroup
	wg.Add(3)
	r := make([]int, 3)
	go func() { defer wg.Done(); os.MkdirAll(d+"/a/b", 0o755); os.RemoveAll(d + "/a") }()
	go func() {
		defer wg.Done()
		os.MkdirAll(d+"/a", 0o755)
		if os.WriteFile(d+"/a/f", nil, 0o644) == nil {
			r[0] = 1
		}
	}()
	go func() {
		defer wg.Done()
		if _, err := os.Stat(d + "/a/b"); err == nil {
			r[1] = 1
		}
		if _, err := os.Stat(d + "/a/f"); err == nil {
			r[2] = 1
		}
	}()
	wg.Wait()
	n := r[0] + 2*r[1] + 4*r[2]
	if _, err := os.Stat(d + "/a/f"); err == nil {
		n += 8
	}
	vp.Observe("x", n)
}
