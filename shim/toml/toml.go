// Package toml models the configuration format: what the contents of a file
// decode to, and whether they decode, is up to the harness.
package toml

import (
	"errors"
	"io"

	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
)

// MetaData is unused.
type MetaData struct{}

// IsDefined reports nothing.
func (md *MetaData) IsDefined(key ...string) bool { return false }

// Primitive is unused.
type Primitive struct{}

// OnDecode says what contents decode to.
var OnDecode = func(data string, v interface{}) error { return errors.New("toml: not valid") }

// OnEncode says what a value encodes to.
var OnEncode = func(v interface{}) ([]byte, error) { return []byte("toml"), nil }

// DecodeFile decodes a file.
func DecodeFile(fpath string, v interface{}) (MetaData, error) {
	b, err := os.ReadFile(fpath)
	if err != nil {
		return MetaData{}, err
	}
	return MetaData{}, OnDecode(string(b), v)
}

// Decode decodes contents.
func Decode(data string, v interface{}) (MetaData, error) { return MetaData{}, OnDecode(data, v) }

// Unmarshal decodes contents.
func Unmarshal(b []byte, v interface{}) error { return OnDecode(string(b), v) }

// DecodeReader decodes contents.
func DecodeReader(r io.Reader, v interface{}) (MetaData, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return MetaData{}, err
	}
	return MetaData{}, OnDecode(string(b), v)
}

// Encoder writes values.
type Encoder struct {
	Indent string
	w      io.Writer
}

// NewEncoder returns an encoder.
func NewEncoder(w io.Writer) *Encoder { return &Encoder{w: w} }

// Encode writes a value.
func (e *Encoder) Encode(v interface{}) error {
	b, err := OnEncode(v)
	if err != nil {
		return err
	}
	_, err = e.w.Write(b)
	return err
}
