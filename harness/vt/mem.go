package vt

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// half is one direction of an in-memory connection. Writes only block once
// it is frozen and holds frozenLimit bytes.
type half struct {
	mu     sync.Mutex
	pkt    bool
	bufs   [][]byte
	size   int
	frozen bool
	wdl    time.Time
	eof    bool  // the writer closed
	rerr   error // set when the reader side is broken
	rdl    time.Time
	change chan struct{}
}

func newHalf(pkt bool) *half { return &half{pkt: pkt, change: make(chan struct{})} }

func (h *half) wake() {
	close(h.change)
	h.change = make(chan struct{})
}

const frozenLimit = 2048

func (h *half) write(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if h.eof {
			return 0, io.ErrClosedPipe
		}
		if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
			return 0, &net.OpError{Op: "write", Net: "mem", Err: os.ErrDeadlineExceeded}
		}
		if h.pkt || !h.frozen || h.size < frozenLimit {
			break
		}
		ch, dl := h.change, h.wdl
		h.mu.Unlock()
		wait(ch, dl)
		h.mu.Lock()
	}
	h.size += len(p)
	h.bufs = append(h.bufs, append([]byte(nil), p...))
	h.wake()
	return len(p), nil
}

func (h *half) read(p []byte) (int, error) {
	for {
		h.mu.Lock()
		if h.rerr != nil {
			err := h.rerr
			h.mu.Unlock()
			return 0, err
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			h.mu.Unlock()
			return 0, &net.OpError{Op: "read", Net: "mem", Err: os.ErrDeadlineExceeded}
		}
		if len(h.bufs) > 0 && !h.frozen {
			n := copy(p, h.bufs[0])
			if h.pkt {
				h.size -= len(h.bufs[0])
			} else {
				h.size -= n
			}
			if h.pkt || n == len(h.bufs[0]) {
				h.bufs = h.bufs[1:]
			} else {
				h.bufs[0] = h.bufs[0][n:]
			}
			h.mu.Unlock()
			return n, nil
		}
		if h.eof && !h.frozen {
			h.mu.Unlock()
			return 0, io.EOF
		}
		ch := h.change
		dl := h.rdl
		h.mu.Unlock()
		wait(ch, dl)
	}
}

func wait(ch chan struct{}, dl time.Time) {
	if dl.IsZero() {
		<-ch
		return
	}
	t := time.NewTimer(time.Until(dl))
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

// MemConn is one end of an in-memory connection. In packet mode message
// boundaries are kept and closing is not seen by the peer.
type MemConn struct {
	in, out *half
	pkt     bool
	mu      sync.Mutex
	closed  bool
	OnClose func()
	addr    net.Addr
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// MemPipe makes a connected pair.
func MemPipe(packet bool) (*MemConn, *MemConn) {
	a, b := newHalf(packet), newHalf(packet)
	return &MemConn{in: a, out: b, pkt: packet, addr: memAddr("client")}, &MemConn{in: b, out: a, pkt: packet, addr: memAddr("server")}
}

func (c *MemConn) Read(p []byte) (int, error) { return c.in.read(p) }
func (c *MemConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	n, err := c.out.write(p)
	if err != nil && c.pkt {
		return len(p), nil // sending to nobody
	}
	return n, err
}

// Close ends this side.
func (c *MemConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return nil
	}
	c.closed = true
	f := c.OnClose
	c.mu.Unlock()
	c.in.mu.Lock()
	c.in.rerr = net.ErrClosed
	c.in.wake()
	c.in.mu.Unlock()
	if !c.pkt {
		c.out.mu.Lock()
		c.out.eof = true
		c.out.wake()
		c.out.mu.Unlock()
	}
	if f != nil {
		f()
	}
	return nil
}

// Break makes the peer's reads fail with err.
func (c *MemConn) Break(err error) {
	c.out.mu.Lock()
	c.out.rerr = err
	c.out.wake()
	c.out.mu.Unlock()
}

// Freeze stops this side from reading, so that the peer's writes block once
// the buffers are full, or lets it go on.
func (c *MemConn) Freeze(on bool) {
	c.in.mu.Lock()
	c.in.frozen = on
	c.in.wake()
	c.in.mu.Unlock()
}

func (c *MemConn) LocalAddr() net.Addr  { return c.addr }
func (c *MemConn) RemoteAddr() net.Addr { return c.addr }
func (c *MemConn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *MemConn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	c.in.rdl = t
	c.in.wake()
	c.in.mu.Unlock()
	return nil
}
func (c *MemConn) SetWriteDeadline(t time.Time) error {
	c.out.mu.Lock()
	c.out.wdl = t
	c.out.wake()
	c.out.mu.Unlock()
	return nil
}

// MemListener hands out in-memory connections.
type MemListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

// NewMemListener makes a listener.
func NewMemListener() *MemListener {
	return &MemListener{ch: make(chan net.Conn, 1000), done: make(chan struct{})}
}

// Connect queues a connection to be accepted.
func (l *MemListener) Connect(c net.Conn) { l.ch <- c }

func (l *MemListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *MemListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *MemListener) Addr() net.Addr { return memAddr("listener") }
