package main

import "sync"

type codeTable struct {
	mu sync.Mutex
	m  map[string]int
}

func newCodeTable() *codeTable { return &codeTable{m: map[string]int{}} }

// codeOf numbers constructor names (unique over the whole run).
func codeOf(n string) int {
	codes.mu.Lock()
	defer codes.mu.Unlock()
	if v, ok := codes.m[n]; ok {
		return v
	}
	v := len(codes.m) + 1
	codes.m[n] = v
	return v
}
