// Package zzfalsify searches for concrete inputs on which the code under /repo breaks a property.
// It is laid over the repository with go test -overlay, uses public functions only, and writes the
// failing input it finds to $FALSIFY_OUT.  It never decides that a property holds.
package zzfalsify

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
)

// C is one case: a log of what was done, replayed from (seed, number).
type C struct {
	*rand.Rand
	log []string
	dir string
}

type failure struct{ msg string }

func (c *C) logf(f string, a ...interface{}) { c.log = append(c.log, fmt.Sprintf(f, a...)) }
func (c *C) fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var scratch string

func TestMain(m *testing.M) {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "falsify")
	if err != nil {
		d, err = os.MkdirTemp("", "falsify")
	}
	if err != nil {
		panic(err)
	}
	scratch = d
	code := m.Run()
	os.RemoveAll(d)
	os.Exit(code)
}

func report(prop, kind string, seed int64, n int, msg string, log []string) {
	first := msg
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	fmt.Printf("FALSIFIED\t%s\t%s case %d seed %d: %s\n", prop, kind, n, seed, first)
	if p := os.Getenv("FALSIFY_OUT"); p != "" {
		f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err == nil {
			fmt.Fprintf(f, "property %s: failing input found (%s, case %d, seed %d)\n%s\n", prop, kind, n, seed, msg)
			for _, l := range log {
				fmt.Fprintf(f, "  %s\n", l)
			}
			f.Close()
		}
	}
}

// run tries cases until one fails, max is reached or the time is used up.
func run(t *testing.T, prop, kind string, max int, f func(c *C)) {
	seed := int64(envInt("VERIF_SEED", 1))
	secs := envInt("FALSIFY_SECS", 10)
	max *= envInt("FALSIFY_MULT", 1)
	h := fnv.New64a()
	h.Write([]byte(prop + kind))
	start := time.Now()
	n := 0
	for ; n < max && time.Since(start) < time.Duration(secs)*time.Second; n++ {
		c := &C{Rand: rand.New(rand.NewSource(seed*1000003 + int64(h.Sum64()>>1) + int64(n)*7919))}
		c.dir = filepath.Join(scratch, fmt.Sprintf("%s-%s-%d", prop, kind, n))
		os.MkdirAll(c.dir, 0o700)
		done := make(chan string, 1)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(failure); ok {
						done <- x.msg
					} else {
						done <- fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					}
				}
			}()
			f(c)
			done <- ""
		}()
		var msg string
		select {
		case msg = <-done:
		case <-time.After(100 * time.Second):
			msg = "the call does not return (deadlock)"
		}
		if msg != "" {
			report(prop, kind, seed, n, msg, c.log)
			t.Errorf("%s: %s", prop, msg)
			return
		}
		os.RemoveAll(c.dir)
	}
	fmt.Printf("TRIED\t%s\t%s\t%d\n", prop, kind, n)
}

func (c *C) bytesFrom(alpha []byte, min, max int) []byte {
	n := min + c.Intn(max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[c.Intn(len(alpha))]
	}
	return b
}

var alpha = []byte{0x00, 0x01, 'a', 'b', 'd', 0xfe, 0xff}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// ---- an independent reference store with fault injection and resource tracking

type memStore struct {
	m          map[string][]byte
	readerErr  error
	writerErr  error
	execErr    error
	batchErr   error
	events     []string
	nr, ni     int
	open       map[string]bool
	closedTwice []string
	execs      int
	closed     int
}

func newMem() *memStore { return &memStore{m: map[string][]byte{}, open: map[string]bool{}} }

func (s *memStore) opened(k string) { s.open[k] = true; s.events = append(s.events, "open "+k) }
func (s *memStore) close(k string) {
	if !s.open[k] {
		s.closedTwice = append(s.closedTwice, k)
	}
	delete(s.open, k)
	s.events = append(s.events, "close "+k)
}
func (s *memStore) Close() error { s.closed++; return nil }
func (s *memStore) Reader() (store.KVReader, error) {
	if s.readerErr != nil {
		return nil, s.readerErr
	}
	r := &memReader{s: s, m: map[string][]byte{}, name: fmt.Sprintf("reader%d", s.nr)}
	s.nr++
	for k, v := range s.m {
		r.m[k] = v
	}
	s.opened(r.name)
	return r, nil
}
func (s *memStore) Writer() (store.KVWriter, error) {
	if s.writerErr != nil {
		return nil, s.writerErr
	}
	return &memWriter{s}, nil
}

type memReader struct {
	s     *memStore
	m     map[string][]byte
	name  string
	iters int
}

func (r *memReader) Get(k []byte) ([]byte, error) {
	if v, ok := r.m[string(k)]; ok {
		return append([]byte{}, v...), nil
	}
	return nil, nil
}
func (r *memReader) MultiGet(keys [][]byte) ([][]byte, error) { return store.MultiGet(r, keys) }
func (r *memReader) Close() error {
	for k := range r.s.open {
		if strings.HasPrefix(k, "iter of "+r.name+" ") {
			r.s.events = append(r.s.events, "early close of "+r.name)
			r.s.closedTwice = append(r.s.closedTwice, r.name+" closed before its iterator")
		}
	}
	r.s.close(r.name)
	return nil
}

type memIter struct {
	s    *memStore
	keys []string
	m    map[string][]byte
	pos  int
	name string
	kb   []byte
	vb   []byte
}

func (r *memReader) iter(f func(k string) bool) *memIter {
	if !r.s.open[r.name] {
		panic(failure{"iterator requested from a closed reader"})
	}
	it := &memIter{s: r.s, m: r.m, name: fmt.Sprintf("iter of %s #%d", r.name, r.iters)}
	r.iters++
	for k := range r.m {
		if f(k) {
			it.keys = append(it.keys, k)
		}
	}
	sort.Strings(it.keys)
	r.s.opened(it.name)
	it.load()
	return it
}
func (it *memIter) load() {
	// the bytes returned earlier are no longer valid
	for i := range it.kb {
		it.kb[i] = 0xAA
	}
	for i := range it.vb {
		it.vb[i] = 0xAA
	}
	if it.pos < len(it.keys) {
		it.kb = append(it.kb[:0], it.keys[it.pos]...)
		it.vb = append(it.vb[:0], it.m[it.keys[it.pos]]...)
	}
}
func (it *memIter) Seek(k []byte) {
	it.pos = sort.SearchStrings(it.keys, string(k))
	it.load()
}
func (it *memIter) Next() { it.pos++; it.load() }
func (it *memIter) Valid() bool {
	return it.pos < len(it.keys) && it.s.open[it.name]
}
func (it *memIter) Key() []byte {
	if !it.Valid() {
		return nil
	}
	return it.kb
}
func (it *memIter) Value() []byte {
	if !it.Valid() {
		return nil
	}
	return it.vb
}
func (it *memIter) Current() ([]byte, []byte, bool) { return it.Key(), it.Value(), it.Valid() }
func (it *memIter) Close() error {
	it.s.close(it.name)
	for i := range it.kb {
		it.kb[i] = 0xAA
	}
	return nil
}
func (r *memReader) PrefixIterator(p []byte) store.KVIterator {
	p = clone(p)
	return r.iter(func(k string) bool { return strings.HasPrefix(k, string(p)) })
}
func (r *memReader) RangeIterator(s, e []byte) store.KVIterator {
	s, end, has := clone(s), string(e), e != nil
	return r.iter(func(k string) bool { return k >= string(s) && (!has || k < end) })
}

type memWriter struct{ s *memStore }
type memOp struct {
	k, v string
	del  bool
}
type memBatch struct {
	s   *memStore
	ops []memOp
}

func (w *memWriter) NewBatch() store.KVBatch { return &memBatch{s: w.s} }
func (w *memWriter) NewBatchEx(o store.KVBatchOptions) ([]byte, store.KVBatch, error) {
	return make([]byte, o.TotalBytes), w.NewBatch(), nil
}
func (w *memWriter) ExecuteBatch(b store.KVBatch) error {
	w.s.execs++
	if w.s.execErr != nil {
		return w.s.execErr
	}
	for _, o := range b.(*memBatch).ops {
		if o.del {
			delete(w.s.m, o.k)
		} else {
			w.s.m[o.k] = []byte(o.v)
		}
	}
	return nil
}
func (w *memWriter) Close() error         { return nil }
func (b *memBatch) Set(k, v []byte)       { b.ops = append(b.ops, memOp{k: string(k), v: string(v)}) }
func (b *memBatch) Delete(k []byte)       { b.ops = append(b.ops, memOp{k: string(k), del: true}) }
func (b *memBatch) Merge(k, v []byte)     { panic(failure{"unexpected merge"}) }
func (b *memBatch) Reset()                { b.ops = nil }
func (b *memBatch) Close() error          { return nil }

var errInjected = errors.New("injected failure")

// leak reports readers and iterators left open, closed twice or in the wrong order.
func (s *memStore) leak() string {
	if len(s.open) > 0 {
		var o []string
		for k := range s.open {
			o = append(o, k)
		}
		sort.Strings(o)
		return fmt.Sprintf("left open: %v (events %v)", o, s.events)
	}
	if len(s.closedTwice) > 0 {
		return fmt.Sprintf("closed more than once or out of order: %v (events %v)", s.closedTwice, s.events)
	}
	return ""
}

// ---- the real engines

type engine struct {
	name string
	open func(dir string, mo store.MergeOperator) (store.KVStore, error)
	disk bool
}

var engines = []engine{
	{"gtreap", func(dir string, mo store.MergeOperator) (store.KVStore, error) {
		return gtreap.New(mo, map[string]interface{}{"path": ""})
	}, false},
	{"boltdb", func(dir string, mo store.MergeOperator) (store.KVStore, error) {
		return boltdb.New(mo, map[string]interface{}{"path": filepath.Join(dir, "bolt"), "nosync": true})
	}, true},
	{"goleveldb", func(dir string, mo store.MergeOperator) (store.KVStore, error) {
		return goleveldb.New(mo, map[string]interface{}{"path": filepath.Join(dir, "ldb"), "create_if_missing": true})
	}, true},
	{"badger", func(dir string, mo store.MergeOperator) (store.KVStore, error) {
		return badger.New(mo, map[string]interface{}{"path": filepath.Join(dir, "badger")})
	}, true},
}

func (c *C) open(e engine, mo store.MergeOperator) store.KVStore {
	s, err := e.open(c.dir, mo)
	if err != nil {
		c.fail("%s: open failed: %v", e.name, err)
	}
	return s
}

func (c *C) writer(s store.KVStore) store.KVWriter {
	w, err := s.Writer()
	if err != nil {
		c.fail("Writer: %v", err)
	}
	return w
}

func (c *C) reader(s store.KVStore) store.KVReader {
	r, err := s.Reader()
	if err != nil {
		c.fail("Reader: %v", err)
	}
	return r
}

// put stores one record, outside of what is being tested.
func (c *C) put(s store.KVStore, m map[string]string) {
	w := c.writer(s)
	b := w.NewBatch()
	for k, v := range m {
		b.Set([]byte(k), []byte(v))
	}
	if err := w.ExecuteBatch(b); err != nil {
		c.fail("loading the store failed: %v", err)
	}
}

// same compares the store content with the model on every key of the universe.
func (c *C) same(s store.KVStore, m map[string]string, univ map[string]bool) {
	r := c.reader(s)
	defer r.Close()
	c.sameReader(r, m, univ)
}

func (c *C) sameReader(r store.KVReader, m map[string]string, univ map[string]bool) {
	var ks []string
	for k := range univ {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v, err := r.Get([]byte(k))
		if err != nil {
			c.fail("Get(%q): %v", k, err)
		}
		want, ok := m[k]
		if ok && (v == nil || string(v) != want) {
			c.fail("Get(%q) = %s, want %q", k, show(v), want)
		}
		if !ok && v != nil {
			c.fail("Get(%q) = %q, want absent", k, v)
		}
	}
}

func show(b []byte) string {
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%q", b)
}

func eqIDs(a [][]byte, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sortIDs(a [][]byte) [][]byte {
	r := append([][]byte{}, a...)
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i], r[j]) < 0 })
	return r
}

func uniq(a [][]byte) [][]byte {
	r := sortIDs(a)
	var o [][]byte
	for i, x := range r {
		if i == 0 || !bytes.Equal(x, r[i-1]) {
			o = append(o, x)
		}
	}
	return o
}
