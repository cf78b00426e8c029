// Package vpipe is io.Pipe for the scheduler.
package vpipe

import (
	"io"

	"github.com/fadhilkurnia/shamir/aaverif/vsync"
)

type pipe struct {
	wr, mu vsync.Mutex
	c      *vsync.Cond
	data   []byte
	full   bool
	rerr   error // set once the reader is closed
	werr   error // set once the writer is closed
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.c = vsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.full = b, true
	p.c.Broadcast()
	for p.full && p.rerr == nil && p.werr == nil {
		p.c.Wait()
	}
	n := len(b) - len(p.data)
	if p.full {
		p.full = false
		if p.rerr != nil {
			return n, p.rerr
		}
		return n, io.ErrClosedPipe
	}
	return n, nil
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if p.full {
			n := copy(b, p.data)
			if p.data = p.data[n:]; len(p.data) == 0 {
				p.full = false
				p.c.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.c.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.c.Broadcast()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.c.Broadcast()
	return nil
}
