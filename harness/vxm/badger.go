// Package vxm holds models that replace external services while the engine runs a harness.
// Natively the real service is used.
package vxm

import (
	"sort"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

type ent struct {
	val []byte
	ttl time.Duration // 0: never
	at  time.Duration // model clock at the write
}
type mdb struct{ m map[string]*ent }
type mtxn struct {
	db        *mdb
	update    bool
	done      bool
	pend      map[string]*ent // nil entry: deleted
	pendOrder []string
	iterators int // open iterators
}
type mitem struct {
	key []byte
	val []byte
}
type miter struct {
	txn  *mtxn
	keys []string
	pos  int

	prefix string
	shut   bool
	item   *mitem // item handed out at pos
}

var (
	dbs     = map[*badger.DB]*mdb{}
	txns    = map[*badger.Txn]*mtxn{}
	items   = map[*badger.Item]*mitem{}
	iters   = map[*badger.Iterator]*miter{}
	ttls    = map[*badger.Entry]time.Duration{}
	elapsed time.Duration
	// Writes counts committed key writes.
	Writes int
)

// OpenDB returns an empty in-memory database.
func OpenDB() *badger.DB {
	if vx.Symbolic() {
		db := &badger.DB{}
		dbs[db] = &mdb{m: map[string]*ent{}}
		return db
	}
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		panic(err)
	}
	return db
}

// Advance moves the database clock.
func Advance(db *badger.DB, d time.Duration) {
	if vx.Symbolic() {
		elapsed += d
		return
	}
	type kv struct {
		k, v []byte
		x    uint64
	}
	var l []kv
	db.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			l = append(l, kv{it.Item().KeyCopy(nil), v, it.Item().ExpiresAt()})
		}
		return nil
	})
	db.Update(func(t *badger.Txn) error {
		for _, e := range l {
			if e.x != 0 {
				n := badger.NewEntry(e.k, e.v)
				if s := uint64(d / time.Second); e.x > s {
					n.ExpiresAt = e.x - s
				} else {
					n.ExpiresAt = 1
				}
				if err := t.SetEntry(n); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

// TTL reports the lifetime a key was stored with.
func TTL(db *badger.DB, key []byte) (ttl time.Duration, expires, found bool) {
	if vx.Symbolic() {
		e := dbs[db].m[string(key)]
		if e == nil {
			return 0, false, false
		}
		return e.ttl, e.ttl != 0, true
	}
	db.View(func(t *badger.Txn) error {
		it, err := t.Get(key)
		if err != nil {
			return nil
		}
		found = true
		if x := it.ExpiresAt(); x != 0 {
			expires = true
			ttl = time.Until(time.Unix(int64(x), 0)).Round(time.Second)
		}
		return nil
	})
	return
}

// Keys lists the stored keys in order.
func Keys(db *badger.DB) []string {
	var r []string
	db.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			r = append(r, string(it.Item().KeyCopy(nil)))
		}
		return nil
	})
	return r
}

// KV is a stored record.
type KV struct {
	Key, Val string
	TTL      time.Duration
	Expires  bool
}

// Dump lists the live records in a fixed order.
func Dump(db *badger.DB) []KV {
	var r []KV
	if vx.Symbolic() {
		for k, e := range dbs[db].m {
			if live(e) {
				r = append(r, KV{k, string(e.val), e.ttl, e.ttl != 0})
			}
		}
		return r
	}
	for _, k := range Keys(db) {
		ttl, x, _ := TTL(db, []byte(k))
		r = append(r, KV{k, string(Raw(db, k)), ttl, x})
	}
	return r
}

// Raw returns a stored value.
func Raw(db *badger.DB, key string) []byte {
	var r []byte
	db.View(func(t *badger.Txn) error {
		it, err := t.Get([]byte(key))
		if err == nil {
			r, _ = it.ValueCopy(nil)
		}
		return nil
	})
	return r
}

// Put stores a value without expiry.
func Put(db *badger.DB, key string, val []byte) {
	err := db.Update(func(t *badger.Txn) error { return t.Set([]byte(key), val) })
	if err != nil {
		panic(err)
	}
}

//vx:redirect (*github.com/dgraph-io/badger/v4.DB).NewTransaction
func dbNewTransaction(db *badger.DB, update bool) *badger.Txn {
	d := dbs[db]
	if d == nil {
		panic("vxm: unknown database")
	}
	t := &badger.Txn{}
	txns[t] = &mtxn{db: d, update: update, pend: map[string]*ent{}}
	return t
}

//vx:redirect (*github.com/dgraph-io/badger/v4.DB).View
func dbView(db *badger.DB, fn func(*badger.Txn) error) error {
	t := dbNewTransaction(db, false)
	defer txnDiscard(t)
	return fn(t)
}

//vx:redirect (*github.com/dgraph-io/badger/v4.DB).Update
func dbUpdate(db *badger.DB, fn func(*badger.Txn) error) error {
	t := dbNewTransaction(db, true)
	defer txnDiscard(t)
	if err := fn(t); err != nil {
		return err
	}
	return txnCommit(t)
}

var opened = map[string]*badger.DB{}

// OpenDir opens the database in a directory.
func OpenDir(dir string) *badger.DB {
	o := badger.DefaultOptions(dir)
	o.Logger = nil
	db, err := badger.Open(o)
	if err != nil {
		panic(err)
	}
	return db
}

//vx:redirect github.com/dgraph-io/badger/v4.DefaultOptions
func defaultOptions(dir string) badger.Options { return badger.Options{Dir: dir, ValueDir: dir} }

//vx:redirect github.com/dgraph-io/badger/v4.Open
func open(o badger.Options) (*badger.DB, error) {
	db, ok := opened[o.Dir]
	if !ok {
		db = &badger.DB{}
		dbs[db] = &mdb{m: map[string]*ent{}}
		opened[o.Dir] = db
	}
	return db, nil
}

//vx:redirect (*github.com/dgraph-io/badger/v4.DB).Close
func dbClose(db *badger.DB) error { return nil }

func live(e *ent) bool {
	return e != nil && (e.ttl == 0 || elapsed-e.at < e.ttl)
}

func (t *mtxn) get(k string) *ent {
	if t.update {
		if e, ok := t.pend[k]; ok {
			return e
		}
	}
	return t.db.m[k]
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).Get
func txnGet(txn *badger.Txn, key []byte) (*badger.Item, error) {
	t := txns[txn]
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if t.done {
		return nil, badger.ErrDiscardedTxn
	}
	e := t.get(string(key))
	if !live(e) {
		return nil, badger.ErrKeyNotFound
	}
	it := &badger.Item{}
	items[it] = &mitem{key: append([]byte{}, key...), val: e.val}
	return it, nil
}

func (t *mtxn) check(key []byte) error {
	switch {
	case !t.update:
		return badger.ErrReadOnlyTxn
	case t.done:
		return badger.ErrDiscardedTxn
	case len(key) == 0:
		return badger.ErrEmptyKey
	}
	return nil
}

func (t *mtxn) put(k string, e *ent) {
	if _, ok := t.pend[k]; !ok {
		t.pendOrder = append(t.pendOrder, k)
	}
	t.pend[k] = e
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).Set
func txnSet(txn *badger.Txn, key, val []byte) error {
	t := txns[txn]
	if err := t.check(key); err != nil {
		return err
	}
	t.put(string(key), &ent{val: append([]byte{}, val...), at: elapsed})
	return nil
}

//vx:redirect github.com/dgraph-io/badger/v4.NewEntry
func newEntry(key, value []byte) *badger.Entry { return &badger.Entry{Key: key, Value: value} }

//vx:redirect (*github.com/dgraph-io/badger/v4.Entry).WithTTL
func entryWithTTL(e *badger.Entry, dur time.Duration) *badger.Entry {
	ttls[e] = dur
	return e
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).SetEntry
func txnSetEntry(txn *badger.Txn, e *badger.Entry) error {
	t := txns[txn]
	if err := t.check(e.Key); err != nil {
		return err
	}
	n := &ent{val: append([]byte{}, e.Value...), at: elapsed}
	if d, ok := ttls[e]; ok {
		n.ttl = d
		if d == 0 {
			n.ttl = -1 // expires in the second it was written
		}
	}
	t.put(string(e.Key), n)
	return nil
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).Delete
func txnDelete(txn *badger.Txn, key []byte) error {
	t := txns[txn]
	if err := t.check(key); err != nil {
		return err
	}
	t.put(string(key), nil)
	return nil
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).Commit
func txnCommit(txn *badger.Txn) error {
	t := txns[txn]
	if len(t.pendOrder) == 0 {
		txnDiscard(txn)
		return nil
	}
	if t.done {
		return badger.ErrDiscardedTxn
	}
	for _, k := range t.pendOrder {
		e := t.pend[k]
		if e == nil {
			delete(t.db.m, k)
		} else {
			t.db.m[k] = e
		}
		Writes++
	}
	txnDiscard(txn)
	return nil
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).Discard
func txnDiscard(txn *badger.Txn) {
	t := txns[txn]
	if t.done {
		return
	}
	if t.iterators > 0 {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	t.done = true
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Item).ValueCopy
func itemValueCopy(it *badger.Item, dst []byte) ([]byte, error) {
	return append(dst[:0], items[it].val...), nil
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Item).Value
func itemValue(it *badger.Item, fn func([]byte) error) error {
	return fn(append([]byte{}, items[it].val...))
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Item).Key
func itemKey(it *badger.Item) []byte { return items[it].key }

//vx:redirect (*github.com/dgraph-io/badger/v4.Item).KeyCopy
func itemKeyCopy(it *badger.Item, dst []byte) []byte { return append(dst[:0], items[it].key...) }

//vx:redirect (*github.com/dgraph-io/badger/v4.Txn).NewIterator
func txnNewIterator(txn *badger.Txn, opt badger.IteratorOptions) *badger.Iterator {
	t := txns[txn]
	if t.done {
		panic(badger.ErrDiscardedTxn)
	}
	if t.update && t.iterators > 0 {
		panic("Only one iterator can be active at one time, for a RW txn.")
	}
	if opt.Reverse {
		panic("vxm: reverse iteration is not modelled")
	}
	t.iterators++
	var keys []string
	for k, e := range t.db.m {
		if _, over := t.pend[k]; !over && live(e) {
			keys = append(keys, k)
		}
	}
	for _, k := range t.pendOrder {
		if live(t.pend[k]) {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	it := &badger.Iterator{}
	iters[it] = &miter{txn: t, keys: keys, pos: len(keys), prefix: string(opt.Prefix)}
	return it
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).Rewind
func iterRewind(it *badger.Iterator) { iterSeek(it, nil) }

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).Seek
func iterSeek(it *badger.Iterator, key []byte) {
	x := iters[it]
	k := string(key)
	if k == "" {
		k = x.prefix
	}
	x.leave()
	x.pos = 0
	for x.pos < len(x.keys) && x.keys[x.pos] < k {
		x.pos++
	}
}

func hasPrefix(k, p string) bool { return len(k) >= len(p) && k[:len(p)] == p }

// leave gives up the item at the current position: its memory is reused.
func (x *miter) leave() {
	if x.item != nil {
		for i := range x.item.key {
			x.item.key[i] ^= 0xff
		}
		x.item = nil
	}
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).Valid
func iterValid(it *badger.Iterator) bool {
	x := iters[it]
	return x.pos < len(x.keys) && hasPrefix(x.keys[x.pos], x.prefix)
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).ValidForPrefix
func iterValidForPrefix(it *badger.Iterator, p []byte) bool {
	return iterValid(it) && hasPrefix(iters[it].keys[iters[it].pos], string(p))
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).Next
func iterNext(it *badger.Iterator) {
	iters[it].leave()
	iters[it].pos++
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).Item
func iterItem(it *badger.Iterator) *badger.Item {
	x := iters[it]
	if x.item == nil {
		k := x.keys[x.pos]
		x.item = &mitem{key: []byte(k), val: x.txn.get(k).val}
	}
	i := &badger.Item{}
	items[i] = x.item
	return i
}

//vx:redirect (*github.com/dgraph-io/badger/v4.Iterator).Close
func iterClose(it *badger.Iterator) {
	x := iters[it]
	if !x.shut {
		x.shut = true
		x.leave()
		x.txn.iterators--
	}
}
