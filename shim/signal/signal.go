// Package signal models signal delivery: the harness sends the signals.
package signal

import "os"

// Reg is one registration.
type Reg struct {
	C    chan<- os.Signal
	Sigs []os.Signal
}

// Regs lists the registrations.
var Regs []Reg

// Notify registers c.
func Notify(c chan<- os.Signal, sig ...os.Signal) { Regs = append(Regs, Reg{c, sig}) }

// Stop removes the registrations of c.
func Stop(c chan<- os.Signal) {
	var n []Reg
	for _, r := range Regs {
		if r.C != c {
			n = append(n, r)
		}
	}
	Regs = n
}

// Ignore does nothing.
func Ignore(sig ...os.Signal) {}

// Reset does nothing.
func Reset(sig ...os.Signal) {}

// Send delivers s the way the runtime does: without blocking.
func Send(s os.Signal) bool {
	ok := false
	for _, r := range Regs {
		for _, x := range r.Sigs {
			if x == s {
				select {
				case r.C <- s:
					ok = true
				default:
				}
			}
		}
	}
	return ok
}
