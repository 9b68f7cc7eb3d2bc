// Package terminal models an interactive terminal: the lines typed are given
// by the harness and what is printed is kept.
package terminal

import (
	"errors"
	"io"
)

// The terminal.
var (
	Lines    []string // typed, then the end of input
	Next     func(i int) (string, bool)
	Out      []byte
	RawErr   error
	Raw      bool // in raw mode
	Restored int
	reads    int
)

// State is a terminal state.
type State struct{ raw bool }

// Terminal is a terminal.
type Terminal struct{ prompt string }

// MakeRaw puts the terminal into raw mode.
func MakeRaw(fd int) (*State, error) {
	if RawErr != nil {
		return nil, RawErr
	}
	s := &State{Raw}
	Raw = true
	return s, nil
}

// Restore restores the terminal.
func Restore(fd int, s *State) error {
	if s == nil {
		return errors.New("terminal: no state")
	}
	Raw = s.raw
	Restored++
	return nil
}

// GetState returns the state.
func GetState(fd int) (*State, error) { return &State{Raw}, nil }

// IsTerminal reports true.
func IsTerminal(fd int) bool { return true }

// GetSize returns a size.
func GetSize(fd int) (int, int, error) { return 80, 24, nil }

// NewTerminal returns a terminal.
func NewTerminal(c io.ReadWriter, prompt string) *Terminal { return &Terminal{prompt} }

// SetPrompt sets the prompt.
func (t *Terminal) SetPrompt(p string) { t.prompt = p }

// SetSize does nothing.
func (t *Terminal) SetSize(w, h int) error { return nil }

// ReadLine returns the next line typed.
func (t *Terminal) ReadLine() (string, error) {
	i := reads
	reads++
	if Next != nil {
		if s, ok := Next(i); ok {
			return s, nil
		}
		return "", io.EOF
	}
	if i < len(Lines) {
		return Lines[i], nil
	}
	return "", io.EOF
}

// Write prints.
func (t *Terminal) Write(b []byte) (int, error) {
	Out = append(Out, b...)
	return len(b), nil
}
