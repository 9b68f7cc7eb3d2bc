// Package leveldb models the store: it records every call with its arguments
// and options, and answers from what the harness prepares.
package leveldb

import (
	"errors"

	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
)

var (
	ErrNotFound         = errors.New("leveldb: not found")
	ErrReadOnly         = errors.New("leveldb: read-only mode")
	ErrSnapshotReleased = errors.New("leveldb: snapshot released")
	ErrIterReleased     = errors.New("leveldb: iterator released")
	ErrClosed           = errors.New("leveldb: closed")
)

// Call is one recorded call.
type Call struct {
	Op         string
	Key, Value []byte
	Batch      *Batch
	Sync       bool
	NoMerge    bool
	Slice      *util.Range
}

// DB is the store.
type DB struct {
	Calls  []Call
	Err    error  // returned by every operation
	Result []byte // returned by Get
}

// Last is the database most recently opened.
var Last *DB

// OpenErr makes OpenFile fail.
var OpenErr error

func OpenFile(path string, o *opt.Options) (*DB, error) {
	if OpenErr != nil {
		return nil, OpenErr
	}
	Last = &DB{}
	return Last, nil
}

func (db *DB) rec(c Call, wo *opt.WriteOptions) error {
	if wo != nil {
		c.Sync = wo.Sync
		c.NoMerge = wo.NoWriteMerge
	}
	db.Calls = append(db.Calls, c)
	return db.Err
}

func (db *DB) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	return db.Result, db.rec(Call{Op: "get", Key: key}, nil)
}

func (db *DB) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	return db.Result != nil, db.rec(Call{Op: "has", Key: key}, nil)
}

func (db *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	return db.rec(Call{Op: "put", Key: key, Value: value}, wo)
}

func (db *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	return db.rec(Call{Op: "delete", Key: key}, wo)
}

func (db *DB) Write(b *Batch, wo *opt.WriteOptions) error {
	return db.rec(Call{Op: "write", Batch: b}, wo)
}

func (db *DB) Close() error { return db.rec(Call{Op: "close"}, nil) }

func (db *DB) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	db.rec(Call{Op: "iterate", Slice: slice}, nil)
	return nil
}

// Batch is a list of writes.
type Batch struct {
	Ops []Call
}

func (b *Batch) Put(key, value []byte) {
	b.Ops = append(b.Ops, Call{Op: "put", Key: append([]byte(nil), key...), Value: append([]byte(nil), value...)})
}

func (b *Batch) Delete(key []byte) {
	b.Ops = append(b.Ops, Call{Op: "delete", Key: append([]byte(nil), key...)})
}

func (b *Batch) Reset()   { b.Ops = nil }
func (b *Batch) Len() int { return len(b.Ops) }
