// Package rand models the system's random source: every byte is an input, and
// a read can be made to fail.
package rand

import (
	"errors"
	"io"

	"github.com/coniks-sys/coniks-go/internal/verifsym"
)

type reader struct{}

// Reader is the random source.
var Reader io.Reader = reader{}

// FailAt makes the read with this number fail (counting from 0; negative: none).
var FailAt = -1

// Chunk, when positive, bounds the number of bytes a single read delivers.
var Chunk = 0

// Reads counts the reads so far.
var Reads = 0

// Drawn records every block of bytes delivered.
var Drawn [][]byte

var errRand = errors.New("random source failed")

func (reader) Read(b []byte) (int, error) {
	n := Reads
	Reads++
	if n == FailAt {
		return 0, errRand
	}
	k := len(b)
	if Chunk > 0 && k > Chunk {
		k = Chunk
	}
	r := verifsym.Bytes("rand", k)
	copy(b, r)
	Drawn = append(Drawn, r)
	return k, nil
}

// Read fills b from Reader.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }
