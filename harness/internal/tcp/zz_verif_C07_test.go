package tcp

import (
	"errors"
	"fmt"
	"io"
	"net"
	"testing"
	"time"
)

type verifAddr struct{ s string }

func (verifAddr) Network() string  { return "verif" }
func (a verifAddr) String() string { return a.s }

type verifRes struct {
	data string
	err  error
}

type verifConn struct {
	log      []string
	reads    []verifRes
	deadErr  error
	deadline time.Time
	written  []byte
	wn       int
	werr     error
	cerr     error
	buff     []byte
}

func (c *verifConn) Read(b []byte) (int, error) {
	c.log = append(c.log, "read")
	c.buff = b
	if len(c.reads) == 0 {
		return 0, io.EOF
	}
	r := c.reads[0]
	c.reads = c.reads[1:]
	return copy(b, r.data), r.err
}
func (c *verifConn) Write(b []byte) (int, error) {
	c.log = append(c.log, "write")
	c.written = append(c.written, b...)
	return c.wn, c.werr
}
func (c *verifConn) Close() error         { c.log = append(c.log, "close"); return c.cerr }
func (c *verifConn) LocalAddr() net.Addr  { return verifAddr{"local"} }
func (c *verifConn) RemoteAddr() net.Addr { return verifAddr{"remote"} }
func (c *verifConn) SetDeadline(t time.Time) error {
	c.log = append(c.log, "setdeadline")
	c.deadline = t
	return nil
}
func (c *verifConn) SetReadDeadline(t time.Time) error {
	c.log = append(c.log, "deadline")
	c.deadline = t
	return c.deadErr
}
func (c *verifConn) SetWriteDeadline(t time.Time) error {
	c.log = append(c.log, "setwdeadline")
	return nil
}

func TestVerifC07(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	e1, e2 := errors.New("e1"), errors.New("e2")
	run := func(size int, ops []int) {
		v.Case(func() string {
			return fmt.Sprintf("buffer %d, operations %v (0 read data, 1 read data+error, 2 read error, 3 deadline error, 4 unread, 5 unread empty, 6 unread twice, 7 write, 8 unread the last result's tail, 9 close)", size, ops)
		}, func() {
			conn := &verifConn{}
			buff := make([]byte, size)
			tmo := time.Duration(1+len(ops)) * time.Hour
			cl := NewClient(conn, tmo, buff)
			v.Check(cl.Conn() == net.Conn(conn), "Conn is another connection")
			v.Check(cl.Remote() == net.Addr(verifAddr{"remote"}), "Remote is %v", cl.Remote())
			var pend []byte
			var last []byte
			for k, op := range ops {
				conn.log = nil
				conn.reads, conn.deadErr = nil, nil
				switch op {
				case 0, 1, 2, 3:
					data, err := fmt.Sprintf("d%d", k), error(nil)
					switch op {
					case 1:
						err = e1
					case 2:
						data, err = "", e2
					case 3:
						conn.deadErr = e2
					}
					conn.reads = []verifRes{{data, err}}
					if len(data) > size {
						data = data[:size]
					}
					t0 := time.Now()
					got, gerr := cl.Read()
					t1 := time.Now()
					if len(pend) > 0 {
						v.Check(gerr == nil && string(got) == string(pend) && &got[0] == &pend[0] && len(conn.log) == 0, "operation %d: pushed back %q, read %q, %v, calls %v", k, pend, got, gerr, conn.log)
						pend = nil
						last = got
						continue
					}
					last = nil
					if op == 3 {
						v.Check(gerr == e2 && len(got) == 0 && fmt.Sprint(conn.log) == "[deadline]", "operation %d: %q, %v, calls %v", k, got, gerr, conn.log)
						continue
					}
					v.Check(fmt.Sprint(conn.log) == "[deadline read]", "operation %d: calls %v", k, conn.log)
					v.Check(!conn.deadline.Before(t0.Add(tmo)) && !conn.deadline.After(t1.Add(tmo)), "operation %d: deadline %v after now, want %v", k, conn.deadline.Sub(t0), tmo)
					v.Check(gerr == err && string(got) == data, "operation %d: %q, %v; want %q, %v", k, got, gerr, data, err)
					v.Check(len(conn.buff) == size, "operation %d: read into %d bytes of %d", k, len(conn.buff), size)
					last = got
				case 4:
					pend = []byte(fmt.Sprintf("u%d", k))
					cl.Unread(pend)
				case 5:
					pend = nil
					cl.Unread(nil)
				case 6:
					cl.Unread([]byte("lost"))
					pend = []byte("kept")
					cl.Unread(pend)
				case 7:
					conn.written = nil
					conn.wn, conn.werr = k%3, nil
					if k%2 == 1 {
						conn.werr = e1
					}
					b := []byte(fmt.Sprintf("w%d", k))
					err := cl.Write(b)
					v.Check(err == conn.werr && string(conn.written) == fmt.Sprintf("w%d", k) && len(conn.log) == 1, "operation %d: wrote %q, %v", k, conn.written, err)
				case 8:
					if len(last) > 1 {
						pend = last[1:]
						cl.Unread(pend)
					}
				case 9:
					conn.cerr = e2
					err := cl.Close()
					v.Check(err == e2 && fmt.Sprint(conn.log) == "[close]", "operation %d: close gives %v, calls %v", k, err, conn.log)
				}
				if op != 7 && op != 9 && op > 3 {
					v.Check(len(conn.log) == 0, "operation %d: unread calls %v", k, conn.log)
				}
			}
		})
	}
	var ops []int
	var rec func(d int)
	rec = func(d int) {
		run(8, ops)
		if d == 0 {
			return
		}
		for o := 0; o < 10; o++ {
			ops = append(ops, o)
			rec(d - 1)
			ops = ops[:len(ops)-1]
		}
	}
	rec(4)
	for i := 0; i < v.N(5000); i++ {
		o := make([]int, v.Rnd.Intn(25))
		for j := range o {
			o[j] = v.Rnd.Intn(10)
		}
		run(v.Rnd.Intn(6), o)
	}
}
