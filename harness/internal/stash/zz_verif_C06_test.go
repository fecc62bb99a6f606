package stash

import (
	"errors"
	"fmt"
	"testing"
)

type verifChunk struct {
	data string
	err  error
}

var verifErr1, verifErr2 = errors.New("e1"), errors.New("e2")

func TestVerifC06(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	// ops: reads of the given sizes; -1 is Reset
	run := func(chunks []verifChunk, ops []int) {
		v.Case(func() string { return fmt.Sprintf("source %q, operations %v (-1: Reset)", chunks, ops) }, func() {
			next, calls := 0, 0
			r := New(func() ([]byte, error) {
				calls++
				if next >= len(chunks) {
					return nil, nil
				}
				c := chunks[next]
				next++
				return []byte(c.data), c.err
			})
			// the model
			pend, perr, want := "", error(nil), 0
			nxt := 0
			for k, n := range ops {
				if n < 0 {
					r.Reset()
					pend, perr = "", nil
					continue
				}
				if pend == "" && perr == nil {
					want++
					if nxt < len(chunks) {
						pend, perr = chunks[nxt].data, chunks[nxt].err
						nxt++
					}
				}
				m := n
				if len(pend) < m {
					m = len(pend)
				}
				exp := pend[:m]
				pend = pend[m:]
				var eerr error
				if pend == "" {
					eerr = perr
				}
				buf := make([]byte, n, n+3)
				for i := range buf {
					buf[i] = '#'
				}
				got, err := r.Read(buf)
				v.Check(got == m, "read %d: n=%d, want %d", k, got, m)
				v.Check(string(buf[:got]) == exp, "read %d: data %q, want %q", k, buf[:got], exp)
				for i := got; i < n; i++ {
					v.Check(buf[i] == '#', "read %d: wrote beyond n", k)
				}
				v.Check(err == eerr, "read %d: error %v, want %v", k, err, eerr)
				v.Check(calls == want, "read %d: source called %d times, want %d", k, calls, want)
			}
		})
	}
	errs := []error{nil, verifErr1, verifErr2}
	datas := []string{"", "a", "abc", "hello"}
	sizes := []int{0, 1, 2, 5, 9, -1}
	for _, d1 := range datas {
		for _, e1 := range errs[:2] {
			for _, d2 := range datas {
				for _, e2 := range errs {
					for a := range sizes {
						for b := range sizes {
							for c := range sizes {
								run([]verifChunk{{d1, e1}, {d2, e2}}, []int{sizes[a], sizes[b], sizes[c], 3, 8})
							}
						}
					}
				}
			}
		}
	}
	for i := 0; i < v.N(20000); i++ {
		var cs []verifChunk
		for k := v.Rnd.Intn(5); k > 0; k-- {
			c := verifChunk{data: datas[v.Rnd.Intn(4)]}
			if v.Rnd.Intn(4) == 0 {
				c.err = errs[v.Rnd.Intn(3)]
			}
			cs = append(cs, c)
		}
		var ops []int
		for k := v.Rnd.Intn(12); k > 0; k-- {
			ops = append(ops, sizes[v.Rnd.Intn(len(sizes))])
		}
		run(cs, ops)
	}
}
