//go:build go1.25

// Package wire makes loopback TCP connections whose bytes pass through a
// harness-controlled pipe that can split, delay, corrupt and cut the stream.
package wire

import (
	"io"
	"net"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif/pbt"
	"github.com/levilutz/basiccoin/pkg/prot"
)

// Pair returns two ends of a direct loopback connection.
func Pair() (a, b *net.TCPConn) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic("infrastructure: " + err.Error())
	}
	defer l.Close()
	got := make(chan *net.TCPConn, 1)
	go func() {
		c, err := l.AcceptTCP()
		if err != nil {
			close(got)
			return
		}
		got <- c
	}()
	a, err = net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
	if err != nil {
		panic("infrastructure: " + err.Error())
	}
	b = <-got
	if b == nil {
		panic("infrastructure: accept failed")
	}
	a.SetLinger(0)
	b.SetLinger(0)
	return a, b
}

// Cut is a place in a stream where something happens.
type Cut struct {
	At    int64         // after this many bytes
	Sleep time.Duration // pause
	End   bool          // close the connection instead of going on
	Flip  byte          // xor the next byte with this
}

// Pipe forwards one direction of a stream.
type Pipe struct {
	mu    sync.Mutex
	from  *net.TCPConn
	to    *net.TCPConn
	cuts  []Cut
	base  int64 // stream position cuts are relative to
	pos   int64
	Delay time.Duration // added to every forwarded piece
}

// Program sets what happens to the bytes from now on.
func (p *Pipe) Program(cuts []Cut) {
	p.mu.Lock()
	p.base = p.pos
	p.cuts = append([]Cut{}, cuts...)
	p.mu.Unlock()
}

// Count is how many bytes went through since the start.
func (p *Pipe) Count() int64 { p.mu.Lock(); defer p.mu.Unlock(); return p.pos }

func (p *Pipe) run() {
	defer p.to.CloseWrite()
	defer p.from.CloseRead()
	buf := make([]byte, 1<<16)
	for {
		n, err := p.from.Read(buf)
		data := buf[:n]
		if p.Delay > 0 && n > 0 {
			time.Sleep(p.Delay)
		}
		for len(data) > 0 {
			p.mu.Lock()
			k := len(data)
			var c *Cut
			for len(p.cuts) > 0 && p.cuts[0].At+p.base < p.pos {
				p.cuts = p.cuts[1:]
			}
			if len(p.cuts) > 0 {
				if d := p.cuts[0].At + p.base - p.pos; d < int64(k) {
					k = int(d)
					x := p.cuts[0]
					c = &x
					p.cuts = p.cuts[1:]
				}
			}
			p.pos += int64(k)
			p.mu.Unlock()
			if k > 0 {
				if _, e := p.to.Write(data[:k]); e != nil {
					return
				}
			}
			data = data[k:]
			if c != nil {
				if c.End {
					return
				}
				data[0] ^= c.Flip
				time.Sleep(c.Sleep)
			}
		}
		if err != nil {
			return
		}
	}
}

// Link is a connection between two ends through two pipes.
type Link struct {
	A, B   *net.TCPConn
	AB, BA *Pipe
	ma, mb *net.TCPConn
}

// NewLink makes a connection; call Start once delays are set.
func NewLink() *Link {
	a, ma := Pair()
	mb, b := Pair()
	return &Link{A: a, B: b, ma: ma, mb: mb,
		AB: &Pipe{from: ma, to: mb}, BA: &Pipe{from: mb, to: ma}}
}

func (l *Link) Start() {
	go l.AB.run()
	go l.BA.run()
}

// Sever closes the middle.
func (l *Link) Sever() {
	l.ma.Close()
	l.mb.Close()
}

// Close everything.
func (l *Link) Close() {
	l.Sever()
	l.A.Close()
	l.B.Close()
}

// Conns shakes hands on both ends; a is the initiator. Nil if it fails.
func (l *Link) Conns(idA, idB string) (a, b *prot.Conn) {
	return Shake(l.A, l.B, idA, idB)
}

// Shake makes protocol connections of two ends, a being the initiator.
func Shake(ca, cb *net.TCPConn, idA, idB string) (a, b *prot.Conn) {
	done := make(chan *prot.Conn, 1)
	go func() { done <- prot.NewConn(prot.NewParams(idB, false, false), cb) }()
	a = prot.NewConn(prot.NewParams(idA, true, false), ca)
	b = <-done
	return a, b
}

// Cuts draws places to split a stream of about n bytes.
func Cuts(t *pbt.T, n int64, marks []int64) []Cut {
	var out []Cut
	at := int64(0)
	k := 0
	switch t.Weighted(3, 4, 3) {
	case 1:
		k = t.Range(1, 12)
	case 2: // a stretch of single bytes
		at = int64(t.Draw(uint64(n) + 1))
		if len(marks) > 0 && t.Bool() {
			at = pbt.Pick(t, marks) - int64(t.Intn(3))
		}
		for i := 0; i < t.Range(2, 40); i++ {
			out = append(out, Cut{At: at + int64(i), Sleep: time.Duration(t.Intn(2)) * 300 * time.Microsecond})
		}
		return out
	}
	for i := 0; i < k; i++ {
		p := int64(t.Draw(uint64(n) + 1))
		if len(marks) > 0 && t.Bool() {
			p = pbt.Pick(t, marks) + int64(t.Intn(5)) - 1
		}
		out = append(out, Cut{At: p, Sleep: time.Duration(t.Intn(3)) * time.Millisecond})
	}
	for i := range out {
		for j := i; j > 0 && out[j].At < out[j-1].At; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// Raw reads until the other side closes, at most d.
func Raw(c *net.TCPConn, d time.Duration) ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(d))
	defer c.SetReadDeadline(time.Time{})
	return io.ReadAll(c)
}
