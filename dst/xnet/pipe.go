// net.Pipe of the standard library, on the simulator's primitives.

package xnet

import (
	"io"
	"net"
	"os"
	"time"
	dst_rt "verif.local/dst/rt"
	dst_xsync "verif.local/dst/xsync"
	dst_xtime "verif.local/dst/xtime"
)

type pipeDeadline struct {
	mu     dst_xsync.Mutex
	timer  *dst_xtime.Timer
	cancel chan struct{}
}

func makePipeDeadline() pipeDeadline {
	dst_rt.Y()
	return pipeDeadline{cancel: make(chan struct{})}
}

func (d *pipeDeadline) set(t time.Time) {
	dst_rt.Y()
	d.mu.Lock()
	dst_rt.Y()
	defer d.mu.Unlock()
	dst_rt.Y()

	if d.timer != nil && !d.timer.Stop() {
		dst_rt.Y()
		dst_rt.Recv(d.cancel)
	}
	dst_rt.Y()
	d.timer = nil
	dst_rt.Y()

	closed := isClosedChan(d.cancel)
	dst_rt.Y()
	if t.IsZero() {
		dst_rt.Y()
		if closed {
			dst_rt.Y()
			d.cancel = make(chan struct{})
		}
		dst_rt.Y()
		return
	}
	dst_rt.Y()

	if dur := dst_xtime.Until(t); dur > 0 {
		dst_rt.Y()
		if closed {
			dst_rt.Y()
			d.cancel = make(chan struct{})
		}
		dst_rt.Y()
		d.timer = dst_xtime.AfterFunc(dur, func() {
			dst_rt.Y()
			dst_rt.Close(d.cancel)
		})
		dst_rt.Y()
		return
	}
	dst_rt.Y()

	if !closed {
		dst_rt.Y()
		dst_rt.Close(d.cancel)
	}
}

func (d *pipeDeadline) wait() chan struct{} {
	dst_rt.Y()
	d.mu.Lock()
	dst_rt.Y()
	defer d.mu.Unlock()
	dst_rt.Y()
	return d.cancel
}

func isClosedChan(c <-chan struct{}) bool {
	dst_rt.Y()
	{
		dst_c2 := c
		dst_sel1 := dst_rt.Select(true, dst_rt.RecvCase(dst_c2))
		switch dst_sel1.I {
		case 0:
			dst_rt.Y()
			return true
		default:
			dst_rt.Y()

			return false
		}
	}

}

type pipeAddr struct{}

func (pipeAddr) Network() string { dst_rt.Y(); return "pipe" }
func (pipeAddr) String() string  { dst_rt.Y(); return "pipe" }

type pipe struct {
	wrMu dst_xsync.Mutex

	rdRx <-chan []byte
	rdTx chan<- int

	wrTx chan<- []byte
	wrRx <-chan int

	once       dst_xsync.Once
	localDone  chan struct{}
	remoteDone <-chan struct{}

	readDeadline  pipeDeadline
	writeDeadline pipeDeadline
}

func Pipe() (net.Conn, net.Conn) {
	dst_rt.Y()
	cb1 := make(chan []byte)
	dst_rt.Y()
	cb2 := make(chan []byte)
	dst_rt.Y()
	cn1 := make(chan int)
	dst_rt.Y()
	cn2 := make(chan int)
	dst_rt.Y()
	done1 := make(chan struct{})
	dst_rt.Y()
	done2 := make(chan struct{})
	dst_rt.Y()

	p1 := &pipe{
		rdRx: cb1, rdTx: cn1,
		wrTx: cb2, wrRx: cn2,
		localDone: done1, remoteDone: done2,
		readDeadline:  makePipeDeadline(),
		writeDeadline: makePipeDeadline(),
	}
	dst_rt.Y()
	p2 := &pipe{
		rdRx: cb2, rdTx: cn2,
		wrTx: cb1, wrRx: cn1,
		localDone: done2, remoteDone: done1,
		readDeadline:  makePipeDeadline(),
		writeDeadline: makePipeDeadline(),
	}
	dst_rt.Y()
	return p1, p2
}

func (*pipe) LocalAddr() net.Addr  { dst_rt.Y(); return pipeAddr{} }
func (*pipe) RemoteAddr() net.Addr { dst_rt.Y(); return pipeAddr{} }

func (p *pipe) Read(b []byte) (int, error) {
	dst_rt.Y()
	n, err := p.read(b)
	dst_rt.Y()
	if err != nil && err != io.EOF && err != io.ErrClosedPipe {
		dst_rt.Y()
		err = &net.OpError{Op: "read", Net: "pipe", Err: err}
	}
	dst_rt.Y()
	return n, err
}

func (p *pipe) read(b []byte) (n int, err error) {
	dst_rt.Y()
	switch {
	case isClosedChan(p.localDone):
		dst_rt.Y()
		return 0, io.ErrClosedPipe
	case isClosedChan(p.remoteDone):
		dst_rt.Y()
		return 0, io.EOF
	case isClosedChan(p.readDeadline.wait()):
		dst_rt.Y()
		return 0, os.ErrDeadlineExceeded
	}
	dst_rt.Y()
	{
		dst_c4 := p.rdRx
		dst_c5 := p.localDone
		dst_c6 := p.remoteDone
		dst_c7 := p.readDeadline.wait()
		dst_sel3 := dst_rt.Select(false, dst_rt.RecvCase(dst_c4), dst_rt.RecvCase(dst_c5), dst_rt.RecvCase(dst_c6), dst_rt.RecvCase(dst_c7))
		switch dst_sel3.I {
		case 0:
			bw := dst_rt.SelVal(dst_c4, dst_sel3)
			dst_rt.Y()
			nr := copy(b, bw)
			dst_rt.Y()
			dst_rt.SendTo(p.rdTx)(nr)
			dst_rt.Y()
			return nr, nil
		case 1:
			dst_rt.Y()

			return 0, io.ErrClosedPipe
		case 2:
			dst_rt.Y()

			return 0, io.EOF
		case 3:
			dst_rt.Y()

			return 0, os.ErrDeadlineExceeded
		default:
			panic("unreachable")
		}
	}

}

func (p *pipe) Write(b []byte) (int, error) {
	dst_rt.Y()
	n, err := p.write(b)
	dst_rt.Y()
	if err != nil && err != io.ErrClosedPipe {
		dst_rt.Y()
		err = &net.OpError{Op: "write", Net: "pipe", Err: err}
	}
	dst_rt.Y()
	return n, err
}

func (p *pipe) write(b []byte) (n int, err error) {
	dst_rt.Y()
	switch {
	case isClosedChan(p.localDone):
		dst_rt.Y()
		return 0, io.ErrClosedPipe
	case isClosedChan(p.remoteDone):
		dst_rt.Y()
		return 0, io.ErrClosedPipe
	case isClosedChan(p.writeDeadline.wait()):
		dst_rt.Y()
		return 0, os.ErrDeadlineExceeded
	}
	dst_rt.Y()

	p.wrMu.Lock()
	dst_rt.Y()
	defer p.wrMu.Unlock()
	dst_rt.Y()
	for once := true; once || len(b) > 0; once = false {
		dst_rt.Y()
		{
			dst_c9 := p.wrTx
			dst_s10 := dst_rt.SendCaseTo(dst_c9)(b)
			dst_c11 := p.localDone
			dst_c12 := p.remoteDone
			dst_c13 := p.writeDeadline.wait()
			dst_sel8 := dst_rt.Select(false, dst_s10, dst_rt.RecvCase(dst_c11), dst_rt.RecvCase(dst_c12), dst_rt.RecvCase(dst_c13))
			switch dst_sel8.I {
			case 0:
				dst_rt.Y()
				nw := dst_rt.Recv(p.wrRx)
				dst_rt.Y()
				b = b[nw:]
				dst_rt.Y()
				n += nw
			case 1:
				dst_rt.Y()

				return n, io.ErrClosedPipe
			case 2:
				dst_rt.Y()

				return n, io.ErrClosedPipe
			case 3:
				dst_rt.Y()

				return n, os.ErrDeadlineExceeded
			default:
				panic("unreachable")
			}
		}

	}
	dst_rt.Y()
	return n, nil
}

func (p *pipe) SetDeadline(t time.Time) error {
	dst_rt.Y()
	if isClosedChan(p.localDone) || isClosedChan(p.remoteDone) {
		dst_rt.Y()
		return io.ErrClosedPipe
	}
	dst_rt.Y()
	p.readDeadline.set(t)
	dst_rt.Y()
	p.writeDeadline.set(t)
	dst_rt.Y()
	return nil
}

func (p *pipe) SetReadDeadline(t time.Time) error {
	dst_rt.Y()
	if isClosedChan(p.localDone) || isClosedChan(p.remoteDone) {
		dst_rt.Y()
		return io.ErrClosedPipe
	}
	dst_rt.Y()
	p.readDeadline.set(t)
	dst_rt.Y()
	return nil
}

func (p *pipe) SetWriteDeadline(t time.Time) error {
	dst_rt.Y()
	if isClosedChan(p.localDone) || isClosedChan(p.remoteDone) {
		dst_rt.Y()
		return io.ErrClosedPipe
	}
	dst_rt.Y()
	p.writeDeadline.set(t)
	dst_rt.Y()
	return nil
}

func (p *pipe) Close() error {
	dst_rt.Y()
	p.once.Do(func() { dst_rt.Y(); dst_rt.Close(p.localDone) })
	dst_rt.Y()
	return nil
}
