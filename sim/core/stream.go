package core

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"
)

// Chooser is a source of decisions: the run's, or a task's own.
type Chooser interface{ N(n int) int }

// How a reader splits what it delivers.
const (
	FragWhole = iota // as much as asked for
	FragOne          // one byte per call
	FragRand         // any number of bytes
	FragEmpty        // any number, with empty reads in between
	FragCount
)

// Reader is a simulated stream.
type Reader struct {
	C       Chooser
	Data    []byte
	Pos     int
	Frag    int
	DataEOF bool // deliver EOF together with the last bytes
	Mark    int  // a call that finds Pos >= Mark asks for more than it needs
	Asked   int  // how many calls did
	Calls   int
	Empty   int
	Steady  bool // no long series of empty reads: something in between would give up
	lull    int  // empty reads still to come
	lulled  bool

	FailAt   int // offset of the fault, -1: none
	Err      error
	Sticky   bool
	WithData bool
	Fired    int
	r        *R
}

func NewReader(r *R, data []byte) *Reader {
	return &Reader{C: r, Data: data, FailAt: -1, Mark: -1, r: r}
}

func (s *Reader) note(k string) {
	if s.r != nil {
		s.r.Fault(k)
	}
}

func (s *Reader) Read(p []byte) (int, error) {
	s.Calls++
	if len(p) == 0 {
		return 0, nil
	}
	if s.Mark >= 0 && s.Pos >= s.Mark {
		s.Asked++
	}
	end := len(s.Data)
	if s.FailAt >= 0 && (s.Sticky || s.Fired == 0) {
		if s.Pos >= s.FailAt {
			s.Fired++
			s.note("read-error")
			return 0, s.Err
		}
		if s.FailAt < end {
			end = s.FailAt
		}
	}
	if s.Pos >= end {
		if s.FailAt >= 0 && end == s.FailAt && s.Sticky {
			s.Fired++
			return 0, s.Err
		}
		return 0, io.EOF
	}
	n := end - s.Pos
	if n > len(p) {
		n = len(p)
	}
	switch s.Frag {
	case FragOne:
		if n > 1 {
			n = 1
			s.note("short-read")
		}
	case FragEmpty:
		if s.lull > 0 {
			s.lull--
			return 0, nil
		}
		if !s.Steady && !s.lulled && s.C.N(24) == 23 {
			s.lulled = true
			s.lull = []int{8, 31, 63, 99, 100, 127, 255, 1000}[s.C.N(8)]
			s.note("long-lull")
			return 0, nil
		}
		if s.Empty < 3 && s.C.N(3) == 2 {
			s.Empty++
			s.note("empty-read")
			return 0, nil
		}
		fallthrough
	case FragRand:
		// mostly short, sometimes everything
		k := n
		switch s.C.N(3) {
		case 0:
			k = 1 + s.C.N(n)
		case 1:
			k = 1 + s.C.N(min(n, 4))
		}
		if k < n {
			n = k
			s.note("short-read")
		}
	}
	s.Empty = 0
	copy(p, s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	if s.FailAt >= 0 && s.Pos == s.FailAt && s.WithData && (s.Sticky || s.Fired == 0 && n < len(p)) {
		s.Fired++
		s.note("read-error-with-data")
		return n, s.Err
	}
	if s.Pos == len(s.Data) && s.DataEOF && s.FailAt < 0 {
		s.note("data-with-eof")
		return n, io.EOF
	}
	return n, nil
}

// byteReader also offers ReadByte, as many real streams do.
type byteReader struct{ *Reader }

func (b byteReader) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := b.Read(p[:])
		if n == 1 {
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// lenReader also tells how much could be read without waiting, which is less than what will come.
type lenReader struct{ byteReader }

func (b lenReader) Len() int {
	n := len(b.Data) - b.Pos
	if n > 0 {
		n = b.C.N(n + 1)
	}
	return n
}
func (b lenReader) Buffered() int { return b.Len() }
func (b lenReader) Size() int64   { return int64(b.Len()) }

// Kinds of readers a caller may pass.
const (
	ReaderSim = iota
	ReaderSimByte
	ReaderBufio
	ReaderSimLen
	ReaderKinds
)

// As returns the stream as an io.Reader of the given kind.
func (s *Reader) As(kind int) io.Reader {
	switch kind {
	case ReaderSimByte:
		return byteReader{s}
	case ReaderSimLen:
		return lenReader{byteReader{s}}
	case ReaderBufio:
		s.Steady = true
		return bufio.NewReaderSize(s, 16)
	}
	return s
}

// StdReader returns one of the standard in-memory readers over data and a function giving what is left.
func StdReader(kind int, data []byte) (io.Reader, func() int) {
	switch kind % 4 {
	case 0:
		r := bytes.NewReader(data)
		return r, r.Len
	case 1:
		r := bytes.NewBuffer(append([]byte(nil), data...))
		return r, r.Len
	case 2:
		r := strings.NewReader(string(data))
		return r, r.Len
	default:
		b := bytes.NewReader(data)
		r := bufio.NewReader(b)
		return r, func() int { return r.Buffered() + b.Len() }
	}
}

// Writer is a simulated sink.
type Writer struct {
	C      Chooser
	Acc    []byte // what it has accepted
	FailAt int    // the write that contains this byte fails, -1: none
	Err    error
	Sticky bool
	Mode   int  // what it accepts of the failing write: 0 nothing, 1 up to the offset, 2 everything
	Silent bool // with mode 0 or 1: it only says how much it accepted, without an error
	Fired  int
	After  int // bytes offered after the failure, since it was last cleared
	Calls  int
	Hook   func()
	r      *R
}

func NewWriter(r *R) *Writer { return &Writer{C: r, FailAt: -1, r: r} }

func (s *Writer) Write(p []byte) (int, error) {
	s.Calls++
	if s.Hook != nil {
		s.Hook()
	}
	if s.Fired > 0 {
		s.After += len(p)
	}
	if s.FailAt >= 0 && len(p) > 0 && (s.Sticky && s.Fired > 0 || s.Fired == 0 && len(s.Acc)+len(p) > s.FailAt) {
		first := s.Fired == 0
		s.Fired++
		if s.r != nil {
			if s.Silent {
				s.r.Fault("short-write-without-error")
			} else {
				s.r.Fault([]string{"write-error", "short-write", "write-error-after-accept"}[s.Mode])
			}
		}
		n := 0
		if first {
			switch s.Mode {
			case 1:
				n = s.FailAt - len(s.Acc)
			case 2:
				n = len(p)
			}
		}
		s.Acc = append(s.Acc, p[:n]...)
		if s.Silent {
			return n, nil
		}
		return n, s.Err
	}
	s.Acc = append(s.Acc, p...)
	return len(p), nil
}

// byteWriter also offers WriteByte and WriteString.
type byteWriter struct{ *Writer }

func (b byteWriter) WriteByte(c byte) error {
	_, err := b.Write([]byte{c})
	return err
}
func (b byteWriter) WriteString(s string) (int, error) { return b.Write([]byte(s)) }

func (s *Writer) As(kind int) io.Writer {
	if kind == 1 {
		return byteWriter{s}
	}
	return s
}

// IOErr is an injected error.
type IOErr struct {
	What      string
	IsTimeout bool
	IsTemp    bool
}

func (e *IOErr) Error() string   { return e.What }
func (e *IOErr) Timeout() bool   { return e.IsTimeout }
func (e *IOErr) Temporary() bool { return e.IsTemp }

// PickErr chooses an error for a failing stream.
func PickErr(c Chooser) error {
	switch c.N(10) {
	case 0:
		return &IOErr{What: "connection reset by peer"}
	case 1:
		return &IOErr{What: "i/o timeout", IsTimeout: true, IsTemp: true}
	case 2:
		return &IOErr{What: "resource temporarily unavailable", IsTemp: true}
	case 3:
		return io.ErrUnexpectedEOF
	case 4:
		return io.ErrClosedPipe
	case 5:
		return syscall.ENOSPC
	case 6:
		return fmt.Errorf("read tcp: %w", io.EOF)
	case 7:
		return syscall.EINTR
	case 8:
		return io.ErrNoProgress
	default:
		return errors.New("EOF")
	}
}

// Same reports whether err is, or wraps, want.
func Same(err, want error) bool { return err == want || errors.Is(err, want) }
