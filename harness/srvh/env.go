package srvh

import (
	"syscall"

	"github.com/coniks-sys/coniks-go/internal/verifsym/signal"
	"github.com/coniks-sys/coniks-go/internal/verifsym/time"
)

// fire makes the i-th timer expire.
func fire(i int) bool { return time.Timers[i].Fire() }

// reload asks for a reload of the configuration.
func reload() bool { return signal.Send(syscall.SIGUSR2) }
