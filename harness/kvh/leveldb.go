package kvh

import (
	"bytes"
	"errors"

	vs "github.com/coniks-sys/coniks-go/internal/verifsym"
	"github.com/coniks-sys/coniks-go/internal/verifsym/leveldb"
	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
)

type foreign struct{ n int }

func (f *foreign) Reset()                { f.n++ }
func (f *foreign) Put(key, value []byte) { f.n++ }
func (f *foreign) Delete(key []byte)     { f.n++ }

func blob(name string) []byte {
	n := vs.Choose(name+"len", 4)
	if n == 3 {
		return nil
	}
	return vs.Bytes(name, n)
}

// Passthrough: every operation of the adapter on the store.
func Passthrough() {
	store := &leveldb.DB{}
	if vs.Choose("fails", 2) == 1 {
		store.Err = errors.New("store error")
		vs.Cover("failing store")
	}
	store.Result = blob("result")
	db := leveldbkv.Wrap(store)
	vs.Assert(len(store.Calls) == 0, "wrapping calls nothing")
	key, val := blob("key"), blob("value")
	k0, v0 := append([]byte(nil), key...), append([]byte(nil), val...)
	one := func(op string) leveldb.Call {
		vs.Assert(len(store.Calls) == 1, op+" reaches the store exactly once")
		c := store.Calls[0]
		vs.Assert(c.Op == op, "the operation is "+op)
		return c
	}
	switch vs.Choose("op", 8) {
	case 0:
		err := db.Put(key, val)
		c := one("put")
		vs.Assert(bytes.Equal(c.Key, k0) && bytes.Equal(c.Value, v0), "put passes key and value unchanged")
		vs.Assert(c.Sync, "put is synced")
		vs.Assert(err == store.Err, "put returns the store's error")
		vs.Cover("put")
	case 1:
		err := db.Delete(key)
		c := one("delete")
		vs.Assert(bytes.Equal(c.Key, k0), "delete passes the key unchanged")
		vs.Assert(c.Sync, "delete is synced")
		vs.Assert(err == store.Err, "delete returns the store's error")
		vs.Cover("delete")
	case 2:
		r, err := db.Get(key)
		c := one("get")
		vs.Assert(bytes.Equal(c.Key, k0), "get passes the key unchanged")
		vs.Assert(bytes.Equal(r, store.Result) && (r == nil) == (store.Result == nil), "get returns the store's value")
		vs.Assert(err == store.Err, "get returns the store's error")
		vs.Cover("get")
	case 3:
		b := db.NewBatch()
		type op struct {
			put      bool
			key, val []byte
		}
		var want []op
		n := vs.Choose("ops", 4)
		if vs.Choose("reset", 2) == 1 {
			b.Put(val, key)
			b.Reset()
		}
		for i := 0; i < n; i++ {
			tag := string(rune('0' + i))
			k := vs.Bytes("bkey"+tag, 1)
			if i == 0 {
				k = key
			}
			if vs.Choose("delete"+tag, 2) == 1 {
				b.Delete(k)
				want = append(want, op{key: k})
				continue
			}
			v := val
			if i > 0 {
				v = vs.Bytes("bval"+tag, i-1)
			}
			b.Put(k, v)
			want = append(want, op{true, k, v})
		}
		vs.Assert(len(store.Calls) == 0, "filling a batch writes nothing")
		err := db.Write(b)
		c := one("write")
		vs.Assert(c.Sync, "batch write is synced")
		vs.Assert(err == store.Err, "batch write returns the store's error")
		vs.Assert(c.Batch != nil && len(c.Batch.Ops) == n, "the batch holds what was put in")
		for i, o := range c.Batch.Ops {
			vs.Assert((o.Op == "put") == want[i].put && bytes.Equal(o.Key, want[i].key), "batched operation unchanged")
			vs.Assert(!want[i].put || bytes.Equal(o.Value, want[i].val), "batched value unchanged")
		}
		vs.Cover("batch")
	case 4:
		err := db.Write(&foreign{})
		vs.Assert(err != nil, "a foreign batch is an error")
		vs.Assert(len(store.Calls) == 0, "a foreign batch writes nothing")
		vs.Cover("foreign")
	case 5:
		vs.Assert(db.Write(nil) != nil, "a nil batch is an error")
		vs.Assert(len(store.Calls) == 0, "a nil batch writes nothing")
	case 6:
		if vs.Choose("range", 2) == 0 {
			db.NewIterator(nil)
			vs.Assert(one("iterate").Slice == nil, "no range iterates over everything")
		} else {
			db.NewIterator(&kv.Range{Start: key, Limit: val})
			c := one("iterate")
			vs.Assert(c.Slice != nil, "the range is passed")
			vs.Assert(bytes.Equal(c.Slice.Start, k0) && bytes.Equal(c.Slice.Limit, v0), "the range is passed unchanged")
			vs.Assert((c.Slice.Limit == nil) == (val == nil), "no limit stays no limit")
		}
		vs.Cover("iterate")
	case 7:
		vs.Assert(db.ErrNotFound() == leveldb.ErrNotFound, "not-found is the store's error value")
		vs.Assert(db.Close() == store.Err, "close returns the store's error")
		one("close")
		vs.Cover("close")
	}
	vs.Assert(bytes.Equal(key, k0) && bytes.Equal(val, v0), "arguments are left alone")
}
