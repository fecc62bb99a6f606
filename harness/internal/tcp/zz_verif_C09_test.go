package tcp

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"sync"
	"testing"
	"time"
)

type verifLConn struct {
	net.Conn
	id     int
	mu     *sync.Mutex
	log    *[]string
	closed int
}

func (c *verifLConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed++
	*c.log = append(*c.log, fmt.Sprintf("close%d", c.id))
	return errors.New("close error")
}

// verifListener hands out n connections, then waits for Close or SetDeadline (if it has one)
type verifListener struct {
	mu      sync.Mutex
	log     []string
	n, next int
	stop    chan struct{}
	once    sync.Once
	accepts int
	dead    []time.Time
	conns   []*verifLConn
	failAt  int
	ferr    error
	hook    func(i int)
}

var verifClosed = errors.New("listener closed")

func (l *verifListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	l.accepts++
	i := l.next
	if l.failAt > 0 && i == l.failAt {
		l.mu.Unlock()
		return nil, l.ferr
	}
	if i < l.n {
		l.next++
		c := &verifLConn{id: i, mu: &l.mu, log: &l.log}
		l.conns = append(l.conns, c)
		h := l.hook
		l.mu.Unlock()
		if h != nil {
			h(i)
		}
		return c, nil
	}
	l.mu.Unlock()
	<-l.stop
	return nil, verifClosed
}
func (l *verifListener) Close() error {
	l.mu.Lock()
	l.log = append(l.log, "lclose")
	l.mu.Unlock()
	l.once.Do(func() { close(l.stop) })
	return errors.New("listener close error")
}
func (l *verifListener) Addr() net.Addr { return nil }

type verifDListener struct{ *verifListener }

func (l verifDListener) SetDeadline(t time.Time) error {
	l.mu.Lock()
	l.dead = append(l.dead, t)
	l.mu.Unlock()
	l.once.Do(func() { close(l.stop) })
	return nil
}

func TestVerifC09(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	start := func(s *Server) chan error {
		ch := make(chan error, 1)
		go func() { ch <- s.Start() }()
		return ch
	}
	get := func(ch chan error, what string) error {
		select {
		case e := <-ch:
			return e
		case <-time.After(5 * time.Second):
			v.Fail("%s does not return", what)
			return nil
		}
	}
	within := func(what string, f func()) {
		ch := make(chan error, 1)
		go func() { f(); ch <- nil }()
		get(ch, what)
	}
	until := func(what string, f func() bool) {
		for i := 0; i < 5000; i++ {
			if f() {
				return
			}
			time.Sleep(time.Millisecond)
		}
		v.Fail("%s never happens", what)
	}
	for n := 0; n <= 6; n++ {
		for mode := 0; mode < 4; mode++ {
			n, mode := n, mode
			v.Case(func() string {
				return fmt.Sprintf("%d connections, ended by %s", n, []string{"StopAll", "Pause and Wait on a listener with deadlines", "accept error", "Pause during a handler, listener without deadlines"}[mode])
			}, func() {
				l := &verifListener{n: n, stop: make(chan struct{})}
				release := make(chan struct{})
				var hm sync.Mutex
				handled := map[int]int{}
				running := 0
				onConn := func(c net.Conn) {
					id := c.(*verifLConn).id
					hm.Lock()
					handled[id]++
					running++
					hm.Unlock()
					if c.(*verifLConn).closed != 0 {
						v.Fail("connection closed before its handler returned")
					}
					<-release
					l.mu.Lock()
					l.log = append(l.log, fmt.Sprintf("done%d", id))
					l.mu.Unlock()
					hm.Lock()
					running--
					hm.Unlock()
				}
				ferr := errors.New("accept error")
				if mode == 2 {
					l.failAt, l.ferr = n, ferr
					if n == 0 {
						l.failAt = -1
						l.once.Do(func() { close(l.stop) })
					}
				}
				var s *Server
				if mode == 1 {
					s = NewServer(verifDListener{l}, onConn)
				} else {
					s = NewServer(l, onConn)
				}
				if mode == 3 {
					if n == 0 {
						return
					}
					// the flag is raised while the last connection is being accepted
					l.hook = func(i int) {
						if i == n-1 {
							s.Pause()
						}
					}
				}
				ch := start(s)
				until("handling of all connections", func() bool {
					hm.Lock()
					defer hm.Unlock()
					return running == n
				})
				waited := make(chan struct{})
				go func() { s.Wait(); close(waited) }()
				if n > 0 {
					for i := 0; i < 200; i++ {
						runtime.Gosched()
					}
					select {
					case <-waited:
						v.Fail("Wait returned while %d handlers run", n)
					case <-time.After(3 * time.Millisecond):
					}
				}
				switch mode {
				case 0:
					fin := make(chan struct{})
					go func() { StopAll([]*Server{s}); close(fin) }()
					e := get(ch, "Start")
					v.Check(e == verifClosed, "Start returns %v", e)
					if n > 0 {
						select {
						case <-fin:
							v.Fail("StopAll returned while handlers run")
						case <-time.After(3 * time.Millisecond):
						}
					}
					close(release)
					within("StopAll", func() { <-fin })
				case 1:
					fin := make(chan struct{})
					t0 := time.Now()
					go func() { PauseAll([]*Server{s}); close(fin) }()
					e := get(ch, "Start")
					v.Check(e == verifClosed || e == nil, "Start returns %v", e)
					l.mu.Lock()
					v.Check(len(l.dead) == 1 && !l.dead[0].Before(t0) && !l.dead[0].After(time.Now()), "Pause sets the deadlines %v", l.dead)
					for _, x := range l.log {
						if x == "lclose" {
							v.Fail("Pause closes the listener")
						}
					}
					l.mu.Unlock()
					if n > 0 {
						select {
						case <-fin:
							v.Fail("PauseAll returned while handlers run")
						case <-time.After(3 * time.Millisecond):
						}
					}
					close(release)
					within("PauseAll", func() { <-fin })
				case 2:
					e := get(ch, "Start")
					want := ferr
					if n == 0 {
						want = verifClosed
					}
					v.Check(e == want, "Start returns %v, want %v", e, want)
					close(release)
				case 3:
					e := get(ch, "Start")
					v.Check(e == nil, "Start returns %v after Pause", e)
					v.Check(l.accepts == n, "accepts %d connections after Pause", l.accepts-n)
					close(release)
				}
				within("Wait", s.Wait)
				hm.Lock()
				v.Check(running == 0, "Wait returned with %d handlers running", running)
				v.Check(len(handled) == n, "%d of %d connections handled", len(handled), n)
				for id, k := range handled {
					v.Check(k == 1, "connection %d handled %d times", id, k)
				}
				hm.Unlock()
				l.mu.Lock()
				for _, c := range l.conns {
					v.Check(c.closed == 1, "connection %d closed %d times", c.id, c.closed)
				}
				pos := map[string]int{}
				for i, x := range l.log {
					pos[x] = i
				}
				for i := 0; i < n; i++ {
					v.Check(pos[fmt.Sprintf("done%d", i)] < pos[fmt.Sprintf("close%d", i)], "connection %d closed before its handler is done", i)
				}
				l.mu.Unlock()
				s.Stop()
			})
		}
	}
	// several servers: all are stopped or paused before any is waited for, and all are waited for
	for n := 0; n <= 4; n++ {
		for mode := 0; mode < 3; mode++ {
			n, mode := n, mode
			v.Case(func() string {
				return fmt.Sprintf("%s of %d servers", []string{"StopAll", "PauseAll", "WaitAll"}[mode], n)
			}, func() {
				var ss []*Server
				var ls []*verifListener
				var rels []chan struct{}
				var chs []chan error
				for i := 0; i < n; i++ {
					l := &verifListener{n: 1, stop: make(chan struct{})}
					rel := make(chan struct{})
					entered := make(chan struct{})
					s := NewServer(verifDListener{l}, func(net.Conn) { close(entered); <-rel })
					ch := start(s)
					<-entered
					ss, ls, rels, chs = append(ss, s), append(ls, l), append(rels, rel), append(chs, ch)
				}
				fin := make(chan struct{})
				go func() {
					switch mode {
					case 0:
						StopAll(ss)
					case 1:
						PauseAll(ss)
					case 2:
						WaitAll(ss)
					}
					close(fin)
				}()
				if mode < 2 {
					for _, ch := range chs {
						get(ch, "Start of every server")
					}
				}
				// handlers end in reverse order; the call returns only after the last one
				for i := n - 1; i >= 0; i-- {
					select {
					case <-fin:
						v.Fail("returned while server %d still has a connection", i)
					case <-time.After(2 * time.Millisecond):
					}
					close(rels[i])
				}
				within("the call", func() { <-fin })
				for i, l := range ls {
					l.mu.Lock()
					k := 0
					for _, x := range l.log {
						if x == "lclose" {
							k++
						}
					}
					if mode == 0 {
						v.Check(k == 1, "listener %d closed %d times", i, k)
					} else {
						v.Check(k == 0, "listener %d closed", i)
					}
					l.mu.Unlock()
				}
				for i, s := range ss {
					s.Stop()
					if mode == 2 {
						get(chs[i], "Start")
					}
				}
			})
		}
	}
	v.Case(func() string { return "Wait during a slow Close of a connection" }, func() {
		l := &verifSlowListener{conn: make(chan net.Conn, 1), closing: make(chan struct{}), done: make(chan struct{})}
		l.conn <- &verifSlowConn{l: l}
		s := NewServer(l, func(net.Conn) {})
		ch := start(s)
		<-l.closing
		waited := make(chan struct{})
		go func() { s.Wait(); close(waited) }()
		select {
		case <-waited:
			v.Fail("Wait returned while the connection is being closed")
		case <-time.After(20 * time.Millisecond):
		}
		close(l.done)
		within("Wait", func() { <-waited })
		s.Stop()
		get(ch, "Start")
	})
	// the interrupt of Pause meets a connection that is just being accepted: it is the last one
	v.Case(func() string { return "a connection arrives at the moment Pause interrupts the listener" }, func() {
		l := &verifLateListener{conn: make(chan net.Conn), first: make(chan struct{}), again: make(chan struct{}), stop: make(chan struct{}), ret: make(chan struct{})}
		s := NewServer(l, func(net.Conn) {})
		ch := make(chan error, 1)
		go func() { e := s.Start(); close(l.ret); ch <- e }()
		<-l.first
		within("Pause", s.Pause)
		select {
		case <-l.again:
			v.Fail("accepts again after Pause interrupted the listener")
		default:
		}
		e := get(ch, "Start")
		v.Check(e == nil, "Start returns %v", e)
		within("Wait", s.Wait)
	})
	// every connection is counted before its handler can finish, under many preemptions of the accept loop
	v.Case(func() string { return "100000 connections whose handlers return at once" }, func() {
		fin := make(chan struct{})
		gone := make(chan struct{})
		go func() {
			defer close(gone)
			for {
				select {
				case <-fin:
					return
				default:
					runtime.GC()
				}
			}
		}()
		l := &verifFastListener{n: v.N(100000)}
		s := NewServer(l, func(net.Conn) {})
		fmt.Println("VERIF-NOTE 100000 connections whose handlers return at once")
		s.Start()
		s.Wait()
		close(fin)
		<-gone
		fmt.Println("VERIF-NOTE")
	})
	v.Case(func() string { return "Stop" }, func() {
		l := &verifListener{stop: make(chan struct{})}
		e := NewServer(l, nil).Stop()
		v.Check(e != nil && e.Error() == "listener close error", "Stop returns %v", e)
	})
}

type verifSlowListener struct {
	conn    chan net.Conn
	closing chan struct{}
	done    chan struct{}
}

func (l *verifSlowListener) Accept() (net.Conn, error) {
	c, ok := <-l.conn
	if !ok {
		return nil, verifClosed
	}
	return c, nil
}
func (l *verifSlowListener) Close() error   { close(l.conn); return nil }
func (l *verifSlowListener) Addr() net.Addr { return nil }

type verifSlowConn struct {
	net.Conn
	l *verifSlowListener
}

func (c *verifSlowConn) Close() error { close(c.l.closing); <-c.l.done; return nil }

type verifNopConn struct{ net.Conn }

func (verifNopConn) Close() error { return nil }

type verifLateListener struct {
	n           int
	conn        chan net.Conn
	first       chan struct{}
	again, stop chan struct{}
	ret         chan struct{}
}

func (l *verifLateListener) Accept() (net.Conn, error) {
	l.n++
	if l.n == 1 {
		close(l.first)
		return <-l.conn, nil
	}
	close(l.again)
	<-l.stop
	return nil, verifClosed
}
func (l *verifLateListener) Close() error   { return nil }
func (l *verifLateListener) Addr() net.Addr { return nil }
func (l *verifLateListener) SetDeadline(time.Time) error {
	l.conn <- verifNopConn{}
	select {
	case <-l.again:
	case <-l.ret:
	}
	return nil
}

type verifFastListener struct{ n int }

func (l *verifFastListener) Accept() (net.Conn, error) {
	if l.n--; l.n < 0 {
		return nil, verifClosed
	}
	return verifNopConn{}, nil
}
func (l *verifFastListener) Close() error   { return nil }
func (l *verifFastListener) Addr() net.Addr { return nil }
