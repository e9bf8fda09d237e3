// Package mem provides a net.Conn whose whole behaviour - arrival of input,
// write latency, stalls, short writes, failures, deadlines - is under the
// control of the harness, on the (virtual) clock of the current bubble.
package mem

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// ErrInjected is the transport failure the harness injects.
var ErrInjected = errors.New("injected transport failure")

// Fault describes what happens to one Write call (by index, counted from the
// first Write on the connection; the 101 response is index 0).
type Fault struct {
	Delay   time.Duration // the write takes that long (virtual)
	Stall   bool          // the write blocks until its deadline or Close
	Partial int           // with Err/Stall: number of bytes that still reach the peer
	Err     bool          // the write fails
}

// WriteRec records one Write call.
type WriteRec struct {
	Start, End time.Time
	Data       []byte // bytes that reached the peer
	Want       int    // bytes asked for
	Err        error
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

type Conn struct {
	Name string

	mu      sync.Mutex
	changed chan struct{}

	in    [][]byte
	inErr error // after the queue drained

	closed   bool
	closeAt  time.Time
	closes   int
	rdl, wdl time.Time

	writes  []WriteRec
	wcalls  int
	out     []byte
	outLate int // bytes the library tried to write after Close
	wsem    chan struct{}
	faults  map[int]Fault
	credit  int64 // bytes the peer still accepts; <0: unlimited

	// Latency is applied to every write without an own fault.
	Latency time.Duration
	// Interleave: like a net.Conn that does not serialise Write calls, so the
	// bytes of concurrent ones can mix.
	Interleave bool

	setRD, setWD         int // number of calls
	FailSetRD, FailSetWD int // fail the n-th call and all later ones (1-based; 0: never)

	// OnWrite is called inside Write, after the bytes were recorded and
	// before Write returns (the peer may react while the writer is still in
	// the system call). It must not block.
	OnWrite func(c *Conn, data []byte)

	// Discard: what the peer receives is counted, not recorded.
	Discard bool
	outN    int

	// MaxOut bounds the bytes accepted; beyond it Runaway is set and the
	// connection fails.
	MaxOut  int
	Runaway atomic.Bool

	readCalls int
	reading   int

	timers []*time.Timer

	failBy map[uint64]int // failed write-side calls per goroutine
}

// Goid identifies the calling goroutine.
func Goid() (id uint64) {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	for _, x := range b[len("goroutine "):n] {
		if x < '0' || x > '9' {
			break
		}
		id = id*10 + uint64(x-'0')
	}
	return
}

// failed notes that a write or the setting of a write deadline failed.
func (c *Conn) failed() {
	if c.failBy == nil {
		c.failBy = map[uint64]int{}
	}
	c.failBy[Goid()]++
}

// FailsBy is the number of failed writes and write-deadline calls of a goroutine.
func (c *Conn) FailsBy(g uint64) int { c.mu.Lock(); defer c.mu.Unlock(); return c.failBy[g] }

func New(name string) *Conn {
	return &Conn{
		Name:    name,
		changed: make(chan struct{}),
		wsem:    make(chan struct{}, 1),
		faults:  map[int]Fault{},
		credit:  -1,
		MaxOut:  64 << 20,
	}
}

func (c *Conn) signal() { close(c.changed); c.changed = make(chan struct{}) }

// ---- harness side ----

// Feed appends one chunk: a single Read never returns bytes of two chunks.
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 || c.inErr != nil {
		return
	}
	c.in = append(c.in, bytes.Clone(b))
	c.signal()
}

// FeedPieces is Feed of each piece, with nothing fed by others in between.
func (c *Conn) FeedPieces(pieces [][]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr != nil {
		return
	}
	for _, b := range pieces {
		if len(b) > 0 {
			c.in = append(c.in, bytes.Clone(b))
		}
	}
	c.signal()
}

// FeedErr makes reads fail with err once everything fed so far was read.
func (c *Conn) FeedErr(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr == nil {
		c.inErr = err
		c.signal()
	}
}

func (c *Conn) FeedEOF() { c.FeedErr(io.EOF) }

func (c *Conn) SetFault(i int, f Fault) {
	c.mu.Lock()
	c.faults[i] = f
	c.mu.Unlock()
}

// SetCredit limits how many more bytes the peer accepts (-1: unlimited).
func (c *Conn) SetCredit(n int64) {
	c.mu.Lock()
	c.credit = n
	c.signal()
	c.mu.Unlock()
}

// WriteCalls is the number of Write calls seen so far.
func (c *Conn) WriteCalls() int { c.mu.Lock(); defer c.mu.Unlock(); return c.wcalls }

// Out returns a copy of all bytes that reached the peer.
func (c *Conn) Out() []byte { c.mu.Lock(); defer c.mu.Unlock(); return bytes.Clone(c.out) }

// OutLen is the number of bytes that reached the peer.
func (c *Conn) OutLen() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.out) + c.outN }

func (c *Conn) Writes() []WriteRec {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]WriteRec(nil), c.writes...)
}

func (c *Conn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// LibClosed reports whether the library closed the connection.
func (c *Conn) LibClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closes > 0 }

// Late is the number of bytes the library tried to write after Close.
func (c *Conn) Late() int { c.mu.Lock(); defer c.mu.Unlock(); return c.outLate }

// ClosedAt reports when Close was first called.
func (c *Conn) ClosedAt() (time.Time, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closeAt, c.closed
}

// Unread is the number of fed bytes the library has not read.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, b := range c.in {
		n += len(b)
	}
	return n
}

// Reading reports whether a Read is blocked in the connection.
func (c *Conn) Reading() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.reading > 0 }

// Kill ends the connection from the harness: all blocked calls return.
func (c *Conn) Kill() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.closed {
		c.closed = true
		c.closeAt = time.Now()
		c.signal()
	}
}

// ---- library side ----

// wait waits for a state change, the deadline or the extra time. It is called
// with the lock held, which it releases meanwhile. Timers are reused: stopped
// ones stay in the heap of a bubble until their time comes.
func (c *Conn) wait(dl time.Time, ch chan struct{}, extra time.Time) {
	next := dl
	if !extra.IsZero() && (next.IsZero() || extra.Before(next)) {
		next = extra
	}
	if next.IsZero() {
		c.mu.Unlock()
		<-ch
		c.mu.Lock()
		return
	}
	d := time.Until(next)
	if d <= 0 {
		// let others run
		c.mu.Unlock()
		c.mu.Lock()
		return
	}
	var t *time.Timer
	if n := len(c.timers); n > 0 {
		t = c.timers[n-1]
		c.timers = c.timers[:n-1]
		t.Reset(d)
	} else {
		t = time.NewTimer(d)
	}
	c.mu.Unlock()
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
	c.mu.Lock()
	c.timers = append(c.timers, t)
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	c.readCalls++
	c.reading++
	defer func() { c.reading--; c.mu.Unlock() }()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if past(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in[0] = nil
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			return n, nil
		}
		if c.inErr != nil {
			return 0, c.inErr
		}
		ch, dl := c.changed, c.rdl
		c.wait(dl, ch, time.Time{})
	}
}

func (c *Conn) Write(p []byte) (n int, err error) {
	// like a file descriptor: one writer at a time, Close unblocks waiters
	for {
		c.mu.Lock()
		if c.closed {
			c.outLate += len(p)
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		ch := c.changed
		c.mu.Unlock()
		if c.Interleave {
			break
		}
		got := false
		select {
		case c.wsem <- struct{}{}:
			got = true
		case <-ch:
		}
		if got {
			break
		}
	}
	if !c.Interleave {
		defer func() { <-c.wsem }()
	}

	c.mu.Lock()
	idx := c.wcalls
	c.wcalls++
	f, ok := c.faults[idx]
	if !ok {
		f = Fault{Delay: c.Latency}
	}
	rec := WriteRec{Start: time.Now(), Want: len(p)}
	defer func() {
		rec.End = time.Now()
		rec.Err = err
		if err != nil {
			c.failed()
		}
		if !c.Discard {
			c.writes = append(c.writes, rec)
		}
		cb := c.OnWrite
		c.mu.Unlock()
		if cb != nil && len(rec.Data) > 0 {
			cb(c, rec.Data)
		}
	}()

	// accept hands the next k bytes of p to the peer
	accept := func(k int) {
		if k <= 0 {
			return
		}
		if len(c.out)+k > c.MaxOut {
			c.Runaway.Store(true)
			c.closed = true
			c.closeAt = time.Now()
			c.signal()
			return
		}
		b := bytes.Clone(p[n : n+k])
		if c.Discard {
			c.outN += k
		} else {
			c.out = append(c.out, b...)
		}
		rec.Data = append(rec.Data, b...)
		n += k
		if c.credit >= 0 {
			c.credit -= int64(k)
		}
	}
	blocked := func(until time.Time) error { // one step of waiting; nil: re-check
		ch, dl := c.changed, c.wdl
		c.wait(dl, ch, until)
		if c.closed {
			return net.ErrClosed
		}
		if past(c.wdl) {
			return os.ErrDeadlineExceeded
		}
		return nil
	}

	if c.closed {
		c.outLate += len(p)
		return 0, net.ErrClosed
	}
	if past(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if f.Stall {
		accept(min(f.Partial, len(p)-1)) // never all: the write fails
		for {
			if err := blocked(time.Time{}); err != nil {
				return n, err
			}
		}
	}
	if f.Delay > 0 {
		// half of the bytes go out at once, the rest at the end: a buffer
		// changed while the write is in progress is visible to the peer
		end := time.Now().Add(f.Delay)
		if !f.Err && c.credit < 0 {
			accept(len(p) / 2)
		}
		for time.Now().Before(end) {
			if err := blocked(end); err != nil {
				return n, err
			}
		}
	}
	if f.Err {
		accept(min(f.Partial, len(p)-n-1))
		return n, ErrInjected
	}
	for n < len(p) {
		if c.closed {
			return n, net.ErrClosed
		}
		k := len(p) - n
		if c.credit >= 0 && int64(k) > c.credit {
			k = int(c.credit)
		}
		if k == 0 {
			if err := blocked(time.Time{}); err != nil {
				return n, err
			}
			continue
		}
		accept(k)
	}
	return n, nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.closeAt = time.Now()
	c.signal()
	return nil
}

func (c *Conn) LocalAddr() net.Addr { return addr("192.0.2.1:80") }

// RemoteAddr is the same for all connections, as behind a proxy or on a Unix socket.
func (c *Conn) RemoteAddr() net.Addr { return addr("192.0.2.7:4242") }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.setRD++
	if c.closed {
		return net.ErrClosed
	}
	if c.FailSetRD > 0 && c.setRD >= c.FailSetRD {
		return fmt.Errorf("set read deadline: %w", ErrInjected)
	}
	c.rdl = t
	c.signal()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.setWD++
	if c.closed {
		return net.ErrClosed
	}
	if c.FailSetWD > 0 && c.setWD >= c.FailSetWD {
		c.failed()
		return fmt.Errorf("set write deadline: %w", ErrInjected)
	}
	c.wdl = t
	c.signal()
	return nil
}

// WD reports how many times a write deadline was set.
func (c *Conn) WD() int { c.mu.Lock(); defer c.mu.Unlock(); return c.setWD }

// RD reports how many times a read deadline was set.
func (c *Conn) RD() int { c.mu.Lock(); defer c.mu.Unlock(); return c.setRD }
