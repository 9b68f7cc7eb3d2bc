// Package ioutil goes to the modelled file system.
package ioutil

import (
	"io"

	"github.com/coniks-sys/coniks-go/internal/verifsym/os"
)

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}

// TempDir creates a directory.
func TempDir(dir, pattern string) (string, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	return os.MkdirTemp(dir, pattern)
}

// TempFile creates a file.
func TempFile(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	return os.CreateTemp(dir, pattern)
}

// ReadAll reads everything.
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
