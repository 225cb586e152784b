//go:build go1.21

// Package rnd puts the randomness source of the process under the harness's control: every party
// draws from its own deterministic, recorded stream.
package rnd

import (
	"crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"io"
	"sync"
)

// Stream is a deterministic stream of bytes that remembers what it gave out.
type Stream struct {
	Label string
	Out   []byte // everything handed out so far

	// Short makes every read return at most this many bytes.
	Short int
	// Script, if not nil, decides how many bytes read number i returns out of want (and whether it
	// fails instead).
	Script func(i, want int) (n int, err error)
	Reads  int
	buf    []byte
	blk    uint64
}

// New makes a stream.
func New(label string) *Stream { return &Stream{Label: label} }

// Bytes returns the first n bytes a stream with this label hands out.
func Bytes(label string, n int) []byte {
	s := New(label)
	b := make([]byte, n)
	io.ReadFull(s, b)
	return b
}

func (s *Stream) Read(p []byte) (int, error) {
	n := len(p)
	if s.Short > 0 && n > s.Short {
		n = s.Short
	}
	i := s.Reads
	s.Reads++
	if s.Script != nil {
		m, err := s.Script(i, len(p))
		if err != nil {
			return 0, err
		}
		if m < n {
			n = m
		}
	}
	for len(s.buf) < n {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], s.blk)
		s.blk++
		h := sha512.Sum512(append([]byte(s.Label+"|"), b[:]...))
		s.buf = append(s.buf, h[:]...)
	}
	copy(p[:n], s.buf[:n])
	s.Out = append(s.Out, s.buf[:n]...)
	s.buf = s.buf[n:]
	return n, nil
}

// ErrNone is returned when code draws randomness while no stream is installed.
var ErrNone = errors.New("rnd: randomness drawn outside a step")

var (
	mu  sync.Mutex
	cur io.Reader
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if cur == nil {
		return fallback.Read(p)
	}
	return cur.Read(p)
}

var fallback = New("fallback")

func init() { rand.Reader = reader{} }

// Use installs the stream for the calls that follow.
func Use(s io.Reader) {
	mu.Lock()
	cur = s
	mu.Unlock()
}

// Fixed makes a stream that begins with the given bytes.
func Fixed(label string, prefix []byte) *Stream {
	return &Stream{Label: label, buf: append([]byte(nil), prefix...)}
}
