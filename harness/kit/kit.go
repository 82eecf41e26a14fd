// Package kit has readers, writers and token sources with generated behaviour.
package kit

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/clipperhouse/jargon"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
	"verif/harness/model"
)

// Limit is more tokens than any case has; a stream that has more does not end.
const Limit = 5000000

// Collect reads all tokens with Next.
func Collect(s *jargon.TokenStream) ([]model.Tok, error) {
	toks, _, err := CollectTokens(s)
	return toks, err
}

// CollectTokens is Collect, with the tokens themselves.
func CollectTokens(s *jargon.TokenStream) ([]model.Tok, []*jargon.Token, error) {
	var toks []model.Tok
	var ptrs []*jargon.Token
	for len(toks) < Limit {
		t, err := s.Next()
		if err != nil {
			return toks, ptrs, err
		}
		if t == nil {
			return toks, ptrs, nil
		}
		toks = append(toks, model.Of(t))
		ptrs = append(ptrs, t)
	}
	return toks, ptrs, fmt.Errorf("stream does not end after %d tokens", Limit)
}

// Source is a stream of the given tokens; pulled, if not nil, counts those which were read.
func Source(toks []model.Tok, pulled *int) *jargon.TokenStream {
	i := 0
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(toks) {
			return nil, nil
		}
		t := toks[i]
		i++
		if pulled != nil {
			*pulled = i
		}
		return jargon.NewToken(t.S, t.Lemma), nil
	})
}

// SourceOf is a stream of existing tokens.
func SourceOf(toks []*jargon.Token) *jargon.TokenStream {
	i := 0
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(toks) {
			return nil, nil
		}
		i++
		return toks[i-1], nil
	})
}

// Chunks says how a Reader behaves.
type Chunks struct {
	Sizes   []int // of reads, cyclically; 0 is an empty read; none means as much as asked for
	WithEnd bool  // the last data comes with io.EOF or the error, not before it
}

// GenChunks draws a behaviour.
func GenChunks(t *rapid.T) Chunks {
	var c Chunks
	c.WithEnd = rapid.Bool().Draw(t, "withEnd")
	switch rapid.IntRange(0, 4).Draw(t, "chunks") {
	case 0:
	case 1:
		c.Sizes = []int{1}
	case 2:
		c.Sizes = []int{rapid.IntRange(2, 9).Draw(t, "size")}
	default:
		c.Sizes = rapid.SliceOfN(rapid.IntRange(0, 24), 0, 8).Draw(t, "sizes")
		// An io.Reader must not return 0, nil forever
		c.Sizes = append(c.Sizes, rapid.IntRange(1, 5).Draw(t, "lastsize"))
	}
	return c
}

// Reader serves data in chunks, then Err (or io.EOF).
type Reader struct {
	Data   []byte
	Chunks Chunks
	Err    error
	Grows  bool // after its end, there is more: the same again

	Served int
	Reads  int
	Ended  bool
}

func (r *Reader) end() error {
	r.Ended = true
	if r.Err != nil {
		return r.Err
	}
	if r.Grows {
		r.Served = 0
	}
	return io.EOF
}

// Read implements io.Reader.
func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	left := r.Data[r.Served:]
	if len(left) == 0 {
		return 0, r.end()
	}
	n := len(left)
	if s := r.Chunks.Sizes; len(s) > 0 {
		if size := s[(r.Reads-1)%len(s)]; size < n {
			n = size
		}
	}
	n = copy(p, left[:n])
	r.Served += n
	if r.Chunks.WithEnd && r.Served == len(r.Data) {
		return n, r.end()
	}
	return n, nil
}

// ErrFault is the error of faulty readers.
var ErrFault = errors.New("injected fault")

// Faults are errors by name, including some that readers commonly return, none of which is a normal end.
var Faults = map[string]error{
	"":            ErrFault,
	"unexpected":  io.ErrUnexpectedEOF,
	"closed pipe": io.ErrClosedPipe,
	"closed":      os.ErrClosed,
	"deadline":    os.ErrDeadlineExceeded,
	"canceled":    context.Canceled,
	"reset":       &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
	"path":        &os.PathError{Op: "read", Path: "/dev/x", Err: syscall.EIO},
	"wrapped eof": fmt.Errorf("connection lost: %w", io.EOF),
	"interrupted": syscall.EINTR,
	"again":       &os.PathError{Op: "read", Path: "/dev/x", Err: syscall.EAGAIN},
	"no progress": io.ErrNoProgress,
	"too long":    bufio.ErrTooLong,
	"buffer":      html.ErrBufferExceeded,
	"short":       io.ErrShortBuffer,
}

// GenFault draws the name of a fault.
func GenFault(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "", "unexpected", "closed pipe", "closed", "deadline", "canceled", "reset", "path", "wrapped eof", "interrupted", "again", "no progress", "too long", "buffer", "short"}).Draw(t, "fault")
}

// Mark makes lemmas of some tokens, by the bits of mask; they are as NewToken would make them.
func Mark(toks []model.Tok, mask uint64) []model.Tok {
	var out []model.Tok
	for i, t := range toks {
		if mask&(1<<(uint(i)%64)) != 0 {
			t = model.New(t.S, true)
		}
		out = append(out, t)
	}
	return out
}

// GenMask draws a mask for Mark.
func GenMask(t *rapid.T) uint64 {
	if rapid.IntRange(0, 2).Draw(t, "marked") > 0 {
		return 0
	}
	return rapid.Uint64().Draw(t, "mask")
}

// ErrWrite is the error of faulty writers.
var ErrWrite = errors.New("injected write fault")

// WriteErrs are errors of faulty writers, including some that writers commonly return.
var WriteErrs = []error{ErrWrite, io.ErrClosedPipe, io.ErrShortWrite, &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE},
	io.EOF, os.ErrClosed, &os.PathError{Op: "write", Path: "/tmp/x", Err: syscall.ENOSPC}, io.ErrUnexpectedEOF, fmt.Errorf("flush: %w", io.EOF)}

// Writer accepts Limit bytes, then fails; if Short, having accepted part of a write.
type Writer struct {
	Limit  int
	Short  bool
	Err    error // or ErrWrite
	Got    []byte
	Failed int // writes that failed
	After  int // writes after a failure
}

// Write implements io.Writer.
func (w *Writer) Write(p []byte) (int, error) {
	if w.Failed > 0 {
		w.After++
	}
	if w.Limit < 0 || len(w.Got)+len(p) <= w.Limit {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	w.Failed++
	n := 0
	if w.Short {
		n = w.Limit - len(w.Got)
		w.Got = append(w.Got, p[:n]...)
	}
	if w.Err != nil {
		return n, w.Err
	}
	return n, ErrWrite
}

// StringWriter is a Writer with WriteString and, as bufio.Writer, ReadFrom.
type StringWriter struct{ *Writer }

// WriteString implements io.StringWriter.
func (w StringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// WriteByte implements io.ByteWriter.
func (w StringWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

// ReadFrom implements io.ReaderFrom.
func (w StringWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(w.Writer, r)
}
