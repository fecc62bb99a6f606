package dummy

import (
	"fmt"
	"io"
	"testing"
)

func TestVerifC08(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	same := func(a, b []byte) bool {
		return string(a) == string(b) && (len(a) == 0 || &a[0] == &b[0])
	}
	run := func(nchunks int, ops []int) {
		v.Case(func() string {
			return fmt.Sprintf("%d chunks, operations %v (0,1,2 read; 3 unread; 4 unread empty; 5 close; 6 one-time; 7 write)", nchunks, ops)
		}, func() {
			var chunks [][]byte
			for i := 0; i < nchunks; i++ {
				s := fmt.Sprintf("chunk%d", i)
				if i == 2 {
					s = ""
				}
				chunks = append(chunks, []byte(s))
			}
			c := NewCircularClient(chunks...)
			p, closed, once := 0, false, false
			var tmp []byte
			for k, op := range ops {
				switch op {
				case 0, 1, 2:
					got, err := c.Read()
					if closed {
						v.Check(err == io.EOF && len(got) == 0, "operation %d: %q, %v on a closed client", k, got, err)
						continue
					}
					closed = closed || once
					want := tmp
					if len(tmp) > 0 {
						tmp = nil
					} else {
						want = chunks[p%nchunks]
						p = p%nchunks + 1
					}
					v.Check(err == nil && same(got, want), "operation %d: read %q, %v; want %q", k, got, err, want)
				case 3:
					tmp = []byte(fmt.Sprintf("unread%d", k))
					c.Unread(tmp)
				case 4:
					tmp = nil
					c.Unread([]byte{})
				case 5:
					v.Check(c.Close() == nil, "Close fails")
					closed = true
				case 6:
					v.Check(c.OneTime() == c, "OneTime returns another client")
					once = true
				case 7:
					v.Check(c.Write([]byte("abc")) == nil, "Write fails")
				}
			}
		})
	}
	for n := 1; n <= 4; n++ {
		var ops []int
		var rec func(d int)
		rec = func(d int) {
			run(n, ops)
			if d == 0 {
				return
			}
			for _, o := range []int{0, 3, 4, 5, 6} {
				ops = append(ops, o)
				rec(d - 1)
				ops = ops[:len(ops)-1]
			}
		}
		rec(6)
	}
	for i := 0; i < v.N(5000); i++ {
		ops := make([]int, v.Rnd.Intn(40))
		for j := range ops {
			ops[j] = v.Rnd.Intn(8)
			if ops[j] >= 5 && v.Rnd.Intn(4) != 0 {
				ops[j] = 0
			}
		}
		run(1+v.Rnd.Intn(5), ops)
	}
	for i := 0; i < v.N(500); i++ {
		w := NewSinkholeWriter()
		all := ""
		for k := v.Rnd.Intn(20); k >= 0; k-- {
			b := make([]byte, v.Rnd.Intn(40))
			v.Rnd.Read(b)
			v.Case(func() string { return fmt.Sprintf("sink after %q writes %q", all, b) }, func() {
				keep := string(b)
				v.Check(w.Write(b) == nil, "Write fails")
				v.Check(string(b) == keep, "Write changes its input")
				all += keep
				for j := range b {
					b[j] = 'Z' // the writer must not keep the caller's memory
				}
				v.Check(string(w.Data) == all, "recorded %q", w.Data)
			})
		}
	}
}
