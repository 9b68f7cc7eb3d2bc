package verifsym

import (
	"runtime"
	"time"
)

func yield() {
	runtime.Gosched()
	time.Sleep(200 * time.Microsecond)
}
