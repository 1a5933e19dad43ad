// Package xio is io.Pipe of the standard library, on the simulator's primitives.
package xio

import (
	"io"
	dst_rt "verif.local/dst/rt"
	dst_xsync "verif.local/dst/xsync"
)

type onceError struct {
	dst_xsync.Mutex

	err error
}

func (a *onceError) Store(err error) {
	dst_rt.Y()
	a.Lock()
	dst_rt.Y()
	defer a.Unlock()
	dst_rt.Y()
	if a.err != nil {
		dst_rt.Y()
		return
	}
	dst_rt.Y()
	a.err = err
}
func (a *onceError) Load() error {
	dst_rt.Y()
	a.Lock()
	dst_rt.Y()
	defer a.Unlock()
	dst_rt.Y()
	return a.err
}

type pipe struct {
	wrMu dst_xsync.Mutex
	wrCh chan []byte
	rdCh chan int

	once dst_xsync.Once
	done chan struct{}
	rerr onceError
	werr onceError
}

func (p *pipe) read(b []byte) (n int, err error) {
	dst_rt.Y()
	{
		dst_c2 := p.done
		dst_sel1 := dst_rt.Select(true, dst_rt.RecvCase(dst_c2))
		switch dst_sel1.I {
		case 0:
			dst_rt.Y()
			return 0, p.readCloseError()
		default:
			dst_rt.Y()
		}
	}
	dst_rt.Y()
	{
		dst_c4 := p.wrCh
		dst_c5 := p.done
		dst_sel3 := dst_rt.Select(false, dst_rt.RecvCase(dst_c4), dst_rt.RecvCase(dst_c5))
		switch dst_sel3.I {
		case 0:
			bw := dst_rt.SelVal(dst_c4, dst_sel3)
			dst_rt.Y()
			nr := copy(b, bw)
			dst_rt.Y()
			dst_rt.SendTo(p.rdCh)(nr)
			dst_rt.Y()
			return nr, nil
		case 1:
			dst_rt.Y()

			return 0, p.readCloseError()
		default:
			panic("unreachable")
		}
	}

}

func (p *pipe) closeRead(err error) error {
	dst_rt.Y()
	if err == nil {
		dst_rt.Y()
		err = io.ErrClosedPipe
	}
	dst_rt.Y()
	p.rerr.Store(err)
	dst_rt.Y()
	p.once.Do(func() { dst_rt.Y(); dst_rt.Close(p.done) })
	dst_rt.Y()
	return nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	dst_rt.Y()
	{
		dst_c7 := p.done
		dst_sel6 := dst_rt.Select(true, dst_rt.RecvCase(dst_c7))
		switch dst_sel6.I {
		case 0:
			dst_rt.Y()
			return 0, p.writeCloseError()
		default:
			dst_rt.Y()

			p.wrMu.Lock()
			dst_rt.Y()
			defer p.wrMu.Unlock()
		}
	}
	dst_rt.Y()

	for once := true; once || len(b) > 0; once = false {
		dst_rt.Y()
		{
			dst_c9 := p.wrCh
			dst_s10 := dst_rt.SendCaseTo(dst_c9)(b)
			dst_c11 := p.done
			dst_sel8 := dst_rt.Select(false, dst_s10, dst_rt.RecvCase(dst_c11))
			switch dst_sel8.I {
			case 0:
				dst_rt.Y()
				nw := dst_rt.Recv(p.rdCh)
				dst_rt.Y()
				b = b[nw:]
				dst_rt.Y()
				n += nw
			case 1:
				dst_rt.Y()

				return n, p.writeCloseError()
			default:
				panic("unreachable")
			}
		}

	}
	dst_rt.Y()
	return n, nil
}

func (p *pipe) closeWrite(err error) error {
	dst_rt.Y()
	if err == nil {
		dst_rt.Y()
		err = io.EOF
	}
	dst_rt.Y()
	p.werr.Store(err)
	dst_rt.Y()
	p.once.Do(func() { dst_rt.Y(); dst_rt.Close(p.done) })
	dst_rt.Y()
	return nil
}

func (p *pipe) readCloseError() error {
	dst_rt.Y()
	rerr := p.rerr.Load()
	dst_rt.Y()
	if werr := p.werr.Load(); rerr == nil && werr != nil {
		dst_rt.Y()
		return werr
	}
	dst_rt.Y()
	return io.ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	dst_rt.Y()
	werr := p.werr.Load()
	dst_rt.Y()
	if rerr := p.rerr.Load(); werr == nil && rerr != nil {
		dst_rt.Y()
		return rerr
	}
	dst_rt.Y()
	return io.ErrClosedPipe
}

type PipeReader struct{ pipe }

func (r *PipeReader) Read(data []byte) (n int, err error) {
	dst_rt.Y()
	return r.pipe.read(data)
}

func (r *PipeReader) Close() error {
	dst_rt.Y()
	return r.CloseWithError(nil)
}

func (r *PipeReader) CloseWithError(err error) error {
	dst_rt.Y()
	return r.pipe.closeRead(err)
}

type PipeWriter struct{ r PipeReader }

func (w *PipeWriter) Write(data []byte) (n int, err error) {
	dst_rt.Y()
	return w.r.pipe.write(data)
}

func (w *PipeWriter) Close() error {
	dst_rt.Y()
	return w.CloseWithError(nil)
}

func (w *PipeWriter) CloseWithError(err error) error {
	dst_rt.Y()
	return w.r.pipe.closeWrite(err)
}

func Pipe() (*PipeReader, *PipeWriter) {
	dst_rt.Y()
	pw := &PipeWriter{r: PipeReader{pipe: pipe{
		wrCh: make(chan []byte),
		rdCh: make(chan int),
		done: make(chan struct{}),
	}}}
	dst_rt.Y()
	return &pw.r, pw
}
