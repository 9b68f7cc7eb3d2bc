package kvh

import (
	"bytes"

	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/storage/kv"
)

// less is the byte-wise lexicographic order, spelled out.
func less(a, b []byte) bool {
	r := len(a) < len(b)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0; i-- {
		r = vs.Or(a[i] < b[i], vs.And(a[i] == b[i], r))
	}
	return r
}

// PrefixRange: BytesPrefix contains exactly the keys with the prefix.
func PrefixRange() {
	n := 4
	if vs.Thorough() {
		n = 7
	}
	prefix := vs.Bytes("prefix", vs.Choose("plen", n+1))
	key := vs.Bytes("key", vs.Choose("klen", n+2))
	orig := append([]byte(nil), prefix...)
	rg := kv.BytesPrefix(prefix)
	vs.Assert(bytes.Equal(prefix, orig), "the prefix is left alone")
	vs.Assert(rg != nil, "a range is returned")
	in := vs.Not(less(key, rg.Start))
	if rg.Limit != nil {
		in = vs.And(in, less(key, rg.Limit))
		vs.Cover("limited")
	} else {
		all := true
		for _, b := range prefix {
			all = vs.And(all, b == 0xff)
		}
		vs.Assert(all, "no limit only for an all-0xff prefix")
		vs.Cover("unlimited")
	}
	has := len(key) >= len(prefix)
	for i := range prefix {
		if i < len(key) {
			has = vs.And(has, key[i] == prefix[i])
		}
	}
	vs.Assert(vs.Iff(in, has), "the range contains a key iff it has the prefix")
	if has {
		vs.Cover("inside")
	} else {
		vs.Cover("outside")
	}
	// the limit is its own memory: changing the prefix later does not move it
	if rg.Limit != nil && len(prefix) > 0 {
		l := append([]byte(nil), rg.Limit...)
		lim := kv.IncrementKey(prefix)
		vs.Assert(bytes.Equal(lim, l), "IncrementKey is a function of the prefix")
		prefix[0] ^= 0x55
		vs.Assert(bytes.Equal(rg.Limit, l), "the limit does not share memory with the prefix")
	}
	vs.Observe("limit", rg.Limit)
}
