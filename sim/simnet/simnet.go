// Package simnet is a simulated TCP network: hosts are nodes (goroutine tags), every connection is a
// pair of byte streams with latency, and links can be cut, slowed or reset. All waiting is done by the
// goroutines that read, write, accept or dial; no goroutine belongs to the network itself.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
)

type addrT = *net.TCPAddr

type link struct {
	cut   bool          // packets in this direction are held back (retransmitted after the heal)
	extra time.Duration // additional latency
	drop  uint64        // one in n packets needs a retransmission
}

type Net struct {
	Rnd       func() uint64
	Base      time.Duration // base latency
	Jitter    time.Duration
	Window    int // bytes in flight before a writer blocks
	DialLimit time.Duration
	Stats     map[string]int64

	ipOf      map[uint32]string // tag -> ip
	listeners map[string]*listener
	links     map[[2]string]*link
	conns     []*conn // in creation order
	nextPort  int
}

var N *Net

func Install(rnd func() uint64) *Net {
	n := &Net{Rnd: rnd, Base: time.Millisecond, Window: 1 << 18, DialLimit: 20 * time.Second, Stats: map[string]int64{}, ipOf: map[uint32]string{}, listeners: map[string]*listener{}, links: map[[2]string]*link{}, nextPort: 30000}
	N = n
	net.SimDial = n.dial
	net.SimListen = n.listen
	net.SimListenPacket = func(network, address string) (net.PacketConn, error) {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.ENETUNREACH}
	}
	return n
}

// SetHost says which address the node with this tag has.
func (n *Net) SetHost(tag uint32, ip string) {
	defer crit()()
	n.ipOf[tag] = ip
}

func (n *Net) host() string {
	defer crit()()
	return n.ipOf[runtime.SimTag()]
}

func crit() func() {
	runtime.SimNoPreempt(true)
	return func() { runtime.SimNoPreempt(false) }
}

func (n *Net) link(a, b string) *link {
	defer crit()()
	k := [2]string{a, b}
	l := n.links[k]
	if l == nil {
		l = &link{}
		n.links[k] = l
	}
	return l
}

// Cut blocks (or restores) the direction from a to b.
func (n *Net) Cut(a, b string, cut bool) {
	defer crit()()
	l := n.link(a, b)
	if l.cut == cut {
		return
	}
	l.cut = cut
	for _, c := range n.conns {
		c.poke()
	}
}

// IsCut tells whether the direction is blocked.
func (n *Net) IsCut(a, b string) bool { return n.link(a, b).cut }

func (n *Net) Slow(a, b string, extra time.Duration, drop uint64) {
	defer crit()()
	l := n.link(a, b)
	l.extra, l.drop = extra, drop
}

// Reset breaks every connection between the two hosts ("" = any); it returns how many.
func (n *Net) Reset(a, b string) int {
	defer crit()()
	k := 0
	for _, c := range n.conns {
		if c.closed || c.reset {
			continue
		}
		x, y := c.local.IP.String(), c.remote.IP.String()
		if (x == a && (b == "" || y == b)) || (y == a && (b == "" || x == b)) {
			c.reset = true
			c.poke()
			k++
		}
	}
	return k
}

// Down: the host has crashed. Its listeners vanish; its peers see a reset, or nothing (silent).
func (n *Net) Down(ip string, silent bool) {
	defer crit()()
	for a, l := range n.listeners {
		if l.ip == ip {
			l.closed = true
			delete(n.listeners, a)
		}
	}
	var keep []*conn
	for _, c := range n.conns {
		if c.local.IP.String() == ip {
			c.dead = true
			if !silent && !c.peer.dead {
				c.peer.reset = true
			} else {
				c.peer.mute = true
			}
			c.peer.poke()
			continue
		}
		keep = append(keep, c)
	}
	n.conns = keep
}

func (n *Net) delay(a, b string) time.Duration {
	defer crit()()
	l := n.link(a, b)
	d := n.Base + l.extra
	if n.Jitter > 0 {
		d += time.Duration(n.Rnd() % uint64(n.Jitter))
	}
	if l.drop != 0 && n.Rnd()%l.drop == 0 {
		n.Stats["net.loss"]++
		d += time.Duration(200+n.Rnd()%800) * time.Millisecond // retransmission
	}
	return d
}

// ---------------------------------------------------------------- connections

type seg struct {
	at   time.Time // real (simulated, skew-free) delivery time is kept as nanoseconds in ns
	ns   int64
	data []byte
	fin  bool
}

type conn struct {
	n             *Net
	local, remote addrT
	peer          *conn
	in            []seg // towards this end
	inBytes       int
	last          int64
	notify        chan struct{}
	wnotify       chan struct{}
	closed        bool
	reset         bool
	dead          bool
	mute          bool // the other host is gone without a word
	eof           bool
	rdl, wdl      int64 // 0 = none
}

func now() int64 { return runtime.SimGetStats().Now }

func (c *conn) poke() {
	select {
	case c.notify <- struct{}{}:
	default:
	}
	select {
	case c.wnotify <- struct{}{}:
	default:
	}
}

func wait(ch chan struct{}, until int64) {
	if until == 0 {
		<-ch
		return
	}
	d := until - now()
	if d <= 0 {
		d = 1
	}
	t := time.NewTimer(time.Duration(d))
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

func earlier(a, b int64) int64 {
	if a == 0 || (b != 0 && b < a) {
		return b
	}
	return a
}

func (c *conn) err(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: e}
}

func (c *conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		runtime.SimNoPreempt(true)
		var next int64
		switch {
		case c.closed:
			runtime.SimNoPreempt(false)
			return 0, c.err("read", net.ErrClosed)
		case c.reset:
			runtime.SimNoPreempt(false)
			return 0, c.err("read", syscall.ECONNRESET)
		case c.rdl != 0 && now() >= c.rdl:
			runtime.SimNoPreempt(false)
			return 0, c.err("read", os.ErrDeadlineExceeded)
		case c.eof:
			runtime.SimNoPreempt(false)
			return 0, io.EOF
		case len(c.in) > 0:
			s := &c.in[0]
			if c.n.link(c.remote.IP.String(), c.local.IP.String()).cut {
				s.ns = 0 // retransmitted after the heal
				break
			}
			if s.ns == 0 {
				s.ns = now() + int64(c.n.delay(c.remote.IP.String(), c.local.IP.String()))
			}
			if s.ns > now() {
				next = s.ns
				break
			}
			if s.fin {
				c.eof = true
				runtime.SimNoPreempt(false)
				return 0, io.EOF
			}
			k := copy(p, s.data)
			s.data = s.data[k:]
			if len(s.data) == 0 {
				c.in = c.in[1:]
			}
			c.inBytes -= k
			c.n.Stats["net.bytes"] += int64(k)
			c.peer.poke()
			runtime.SimNoPreempt(false)
			return k, nil
		}
		runtime.SimNoPreempt(false)
		wait(c.notify, earlier(next, c.rdl))
	}
}

func (c *conn) Write(p []byte) (int, error) {
	done := 0
	for {
		runtime.SimNoPreempt(true)
		switch {
		case c.closed:
			runtime.SimNoPreempt(false)
			return done, c.err("write", net.ErrClosed)
		case c.reset || c.peer.closed:
			runtime.SimNoPreempt(false)
			return done, c.err("write", syscall.EPIPE)
		case c.wdl != 0 && now() >= c.wdl:
			runtime.SimNoPreempt(false)
			return done, c.err("write", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			runtime.SimNoPreempt(false)
			return done, nil
		}
		room := c.n.Window - c.peer.inBytes
		if room > 0 {
			k := len(p)
			if k > room {
				k = room
			}
			c.push(seg{data: append([]byte(nil), p[:k]...)})
			p = p[k:]
			done += k
			runtime.SimNoPreempt(false)
			if len(p) == 0 {
				return done, nil
			}
			continue
		}
		runtime.SimNoPreempt(false)
		wait(c.wnotify, c.wdl)
	}
}

func (c *conn) push(s seg) {
	q := c.peer
	if c.mute || q.dead {
		return
	}
	s.ns = now() + int64(c.n.delay(c.local.IP.String(), q.local.IP.String()))
	if s.ns < q.last {
		s.ns = q.last
	}
	q.last = s.ns
	q.in = append(q.in, s)
	q.inBytes += len(s.data)
	c.n.Stats["net.segments"]++
	select {
	case q.notify <- struct{}{}:
	default:
	}
}

func (c *conn) Close() error {
	defer crit()()
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	if !c.reset {
		c.push(seg{fin: true})
	}
	c.closed = true
	c.poke()
	c.peer.poke()
	for i, x := range c.n.conns {
		if x == c {
			c.n.conns = append(c.n.conns[:i], c.n.conns[i+1:]...)
			break
		}
	}
	return nil
}

func (c *conn) LocalAddr() net.Addr  { return c.local }
func (c *conn) RemoteAddr() net.Addr { return c.remote }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := time.Until(t) // the monotonic reading, when there is one
	x := now() + int64(d)
	if x <= 0 {
		x = 1
	}
	return x
}
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	defer crit()()
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	c.rdl = dl(t)
	c.poke()
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	defer crit()()
	if c.closed {
		return c.err("set", net.ErrClosed)
	}
	c.wdl = dl(t)
	c.poke()
	return nil
}

// ---------------------------------------------------------------- listeners and dialling

type listener struct {
	n      *Net
	addr   addrT
	ip     string
	key    string
	queue  []*conn
	ready  []int64
	notify chan struct{}
	closed bool
}

func (n *Net) listen(network, address string) (net.Listener, error) {
	defer crit()()
	ip := n.host()
	if ip == "" {
		return nil, errors.New("simnet: listen on an unknown host")
	}
	_, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	key := net.JoinHostPort(ip, port)
	if n.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	pn, _ := strconv.Atoi(port)
	l := &listener{n: n, addr: &net.TCPAddr{IP: net.ParseIP(ip), Port: pn}, ip: ip, key: key, notify: make(chan struct{}, 1)}
	n.listeners[key] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	for {
		runtime.SimNoPreempt(true)
		if l.closed {
			runtime.SimNoPreempt(false)
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		var next int64
		if len(l.queue) > 0 {
			if l.ready[0] <= now() {
				c := l.queue[0]
				l.queue, l.ready = l.queue[1:], l.ready[1:]
				runtime.SimNoPreempt(false)
				return c, nil
			}
			next = l.ready[0]
		}
		runtime.SimNoPreempt(false)
		wait(l.notify, next)
	}
}

func (l *listener) Close() error {
	defer crit()()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	delete(l.n.listeners, l.key)
	select {
	case l.notify <- struct{}{}:
	default:
	}
	for _, c := range l.queue {
		c.peer.reset = true
		c.peer.poke()
	}
	return nil
}

func (l *listener) Addr() net.Addr { return l.addr }

func (n *Net) dial(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	ip := n.host()
	if ip == "" {
		return nil, errors.New("simnet: dial from an unknown host")
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	pn, _ := strconv.Atoi(port)
	remote := &net.TCPAddr{IP: net.ParseIP(host), Port: pn}
	fail := func(e error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: remote, Err: e}
	}
	limit := n.DialLimit
	if d != nil && d.Timeout != 0 && d.Timeout < limit {
		limit = d.Timeout
	}
	deadline := now() + int64(limit)
	if t, ok := ctx.Deadline(); ok {
		if x := dl(t); x < deadline {
			deadline = x
		}
	}
	for {
		// one round trip, repeated while the link is cut
		rtt := n.delay(ip, host) + n.delay(host, ip)
		time.Sleep(rtt)
		if n.host() != ip {
			return fail(syscall.ENETUNREACH)
		}
		if now() >= deadline {
			return fail(syscall.ETIMEDOUT)
		}
		if err := ctx.Err(); err != nil {
			return fail(err)
		}
		if !n.link(ip, host).cut && !n.link(host, ip).cut {
			break
		}
		time.Sleep(time.Second)
	}
	defer crit()()
	l := n.listeners[net.JoinHostPort(host, port)]
	if l == nil {
		n.Stats["net.refused"]++
		return fail(syscall.ECONNREFUSED)
	}
	n.nextPort++
	local := &net.TCPAddr{IP: net.ParseIP(ip), Port: n.nextPort}
	a := &conn{n: n, local: local, remote: remote, notify: make(chan struct{}, 1), wnotify: make(chan struct{}, 1)}
	b := &conn{n: n, local: remote, remote: local, notify: make(chan struct{}, 1), wnotify: make(chan struct{}, 1)}
	a.peer, b.peer = b, a
	n.conns = append(n.conns, a, b)
	n.Stats["net.conns"]++
	l.queue = append(l.queue, b)
	l.ready = append(l.ready, now())
	select {
	case l.notify <- struct{}{}:
	default:
	}
	return a, nil
}
