package zzfalsify

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unsafe"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/akhenakh/oureadb/store/null"
	"github.com/boltdb/bolt"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

func init() {
	// badger logs to stderr
	if os.Getenv("FALSIFY_QUIET") != "" {
		if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stderr = f
		}
	}
}

// mop concatenates; it fails for operands containing '!', and combines neighbours now and then.
type mop struct {
	partial int // 0 never, 1 always, 2 sometimes
	calls   []string
	hold    [][]byte
}

func (m *mop) Name() string { return "concat" }
func (m *mop) FullMerge(key, ex []byte, ops [][]byte) ([]byte, bool) {
	o := []byte("absent")
	if ex != nil {
		o = append([]byte("was:"), ex...)
	}
	o = append(o, '(')
	o = append(o, key...)
	o = append(o, ')')
	for _, x := range ops {
		if bytes.IndexByte(x, '!') >= 0 {
			return nil, false
		}
		o = append(o, x...)
	}
	m.calls = append(m.calls, string(key))
	return o, true
}
func (m *mop) PartialMerge(key, l, r []byte) ([]byte, bool) {
	ok := m.partial == 1
	if m.partial == 2 {
		ok = crc32.ChecksumIEEE(append(append(append([]byte{}, key...), l...), r...))&1 == 0
	}
	if !ok {
		return nil, false
	}
	return append(append([]byte{}, l...), r...), true
}

func mergeWant(key string, ex *string, ops []string) string {
	o := "absent"
	if ex != nil {
		o = "was:" + *ex
	}
	return o + "(" + key + ")" + strings.Join(ops, "")
}

var keyAlpha = []byte{'a', 'b', 'c', 0xff, 0x00}

func (c *C) key() []byte { return c.bytesFrom(keyAlpha, 1, 3) }
func (c *C) val() []byte {
	switch c.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return c.bytesFrom(alpha, 0, 5)
}

func (c *C) content() (map[string]string, map[string]bool) {
	m, u := map[string]string{}, map[string]bool{}
	for i := c.Intn(10); i > 0; i-- {
		m[string(c.key())] = string(c.val())
	}
	for k := range m {
		u[k] = true
	}
	return m, u
}

func (c *C) engine(disk int) engine {
	// the disk engines take longer to open
	if c.Intn(disk) > 0 {
		return engines[0]
	}
	return engines[c.Intn(len(engines))]
}

func TestC09(t *testing.T) {
	run(t, "C09", "batch", 150, func(c *C) {
		e := c.engine(3)
		mo := &mop{partial: c.Intn(3)}
		s := c.open(e, mo)
		defer func() { s.Close() }()
		m, u := c.content()
		c.put(s, m)
		c.logf("engine %s content %q", e.name, m)
		for round := 0; round < 3; round++ {
			w := c.writer(s)
			b := w.NewBatch()
			next := map[string]string{}
			for k, v := range m {
				next[k] = v
			}
			merged := map[string][]string{}
			setK := map[string]bool{}
			fail := c.Intn(2) == 0
			empty := false
			// merges first in the model; keys are either merged or set
			for i := 1 + c.Intn(4); i > 0; i-- {
				k := string(c.key())
				u[k] = true
				op := "x" + string(c.val())
				op = strings.ReplaceAll(op, "!", "?")
				if i == 1 && fail {
					op = "!"
				}
				merged[k] = append(merged[k], op)
				b.Merge([]byte(k), []byte(op))
				c.logf("merge %q %q", k, op)
			}
			for i := c.Intn(6); i > 0; i-- {
				k := string(c.key())
				if c.Intn(8) == 0 && !fail {
					switch c.Intn(3) {
					case 0:
						k = ""
					case 1:
						k = strings.Repeat("k", 32769)
					default:
						k = strings.Repeat("k", 70000)
					}
					empty = true
				}
				if merged[k] != nil {
					continue
				}
				u[k] = true
				setK[k] = true
				if c.Intn(3) == 0 {
					b.Delete([]byte(k))
					delete(next, k)
					c.logf("delete %q", trunc(k))
				} else {
					v := c.val()
					b.Set([]byte(k), v)
					next[k] = string(v)
					c.logf("set %q %q", trunc(k), v)
				}
			}
			for k, ops := range merged {
				var ex *string
				if v, ok := m[k]; ok {
					ex = &v
				}
				next[k] = mergeWant(k, ex, ops)
			}
			err := w.ExecuteBatch(b)
			c.logf("execute: %v", err)
			if fail && err == nil {
				c.fail("%s: a batch with a failing merge succeeded", e.name)
			}
			if err == nil {
				m = next
			} else if !fail && !empty {
				c.fail("%s: ExecuteBatch: %v", e.name, err)
			}
			b.Close()
			if c.Intn(2) == 0 {
				w.Close()
			}
			c.same(s, m, u)
		}
		// the store is still usable
		w := c.writer(s)
		b := w.NewBatch()
		b.Set([]byte("a"), []byte("after"))
		if err := w.ExecuteBatch(b); err != nil {
			c.fail("%s: a later batch fails: %v", e.name, err)
		}
		m["a"] = "after"
		u["a"] = true
		c.same(s, m, u)
		if e.disk {
			if err := s.Close(); err != nil {
				c.fail("%s: Close: %v", e.name, err)
			}
			s = c.open(e, mo)
			c.same(s, m, u)
		}
	})
}

// batches larger than what an engine takes at once
func TestC09Large(t *testing.T) {
	next := 0
	run(t, "C09", "large", 4, func(c *C) {
		e := engines[len(engines)-1-next%len(engines)]
		next++
		s := c.open(e, &mop{})
		defer s.Close()
		w := c.writer(s)
		b := w.NewBatch()
		key := func(i int) []byte { return []byte(fmt.Sprintf("k%07d", i)) }
		n := 150000 + c.Intn(5000)
		for i := 0; i < n; i++ {
			b.Set(key(i), []byte("v"))
		}
		// most engines refuse one of these
		if c.Intn(2) == 0 {
			b.Set(nil, []byte("v"))
		} else {
			b.Delete(bytes.Repeat([]byte("k"), 70000))
		}
		c.logf("engine %s: %d sets and one refused operation", e.name, n)
		err := w.ExecuteBatch(b)
		b.Close()
		r := c.reader(s)
		defer r.Close()
		for _, i := range []int{0, 1, n / 2, n - 1} {
			v, gerr := r.Get(key(i))
			if gerr != nil || (err != nil) != (v == nil) {
				c.fail("%s: ExecuteBatch of %d operations: %v, but Get(%q) = %s, %v", e.name, n+1, err, key(i), show(v), gerr)
			}
		}
	})
}

func trunc(s string) string {
	if len(s) > 20 {
		return fmt.Sprintf("%s… (%d bytes)", s[:20], len(s))
	}
	return s
}

type foreign struct{}

func (foreign) Set(k, v []byte)   {}
func (foreign) Delete(k []byte)   {}
func (foreign) Merge(k, v []byte) {}
func (foreign) Reset()            {}
func (foreign) Close() error      { return nil }

func TestC10(t *testing.T) {
	run(t, "C10", "batch", 150, func(c *C) {
		e := c.engine(3)
		s := c.open(e, &mop{})
		defer s.Close()
		m, u := c.content()
		c.put(s, m)
		c.logf("engine %s content %q", e.name, m)
		for round := 0; round < 3; round++ {
			w := c.writer(s)
			b := w.NewBatch()
			if c.Intn(2) == 0 {
				n := c.Intn(20)
				buf, bx, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: n, NumSets: 2})
				if err != nil || len(buf) != n {
					c.fail("NewBatchEx: %d bytes, %v", len(buf), err)
				}
				b = bx
			}
			for i := c.Intn(10); i > 0; i-- {
				k := c.key()
				u[string(k)] = true
				if c.Intn(3) == 0 {
					b.Delete(k)
					delete(m, string(k))
					c.logf("delete %q", k)
				} else {
					v := c.val()
					b.Set(k, v)
					m[string(k)] = string(v)
					c.logf("set %q %s", k, show(v))
				}
			}
			if err := w.ExecuteBatch(b); err != nil {
				c.fail("%s: ExecuteBatch: %v", e.name, err)
			}
			c.same(s, m, u)
			if err := w.ExecuteBatch(foreign{}); err == nil {
				c.fail("%s: a foreign batch was accepted", e.name)
			}
			c.same(s, m, u)
		}
		// nothing but the expected keys
		r := c.reader(s)
		it := r.RangeIterator([]byte{}, nil)
		n := 0
		for ; it.Valid(); it.Next() {
			n++
		}
		it.Close()
		r.Close()
		if n != len(m) {
			c.fail("%s: %d records, want %d", e.name, n, len(m))
		}
	})
}

type fakeReader struct {
	store.KVReader
	m     map[string]string
	failK string
}

func (f *fakeReader) Get(k []byte) ([]byte, error) {
	if string(k) == f.failK {
		return nil, errInjected
	}
	if v, ok := f.m[string(k)]; ok {
		return []byte(v), nil
	}
	return nil, nil
}

func TestC11(t *testing.T) {
	run(t, "C11", "snapshot", 150, func(c *C) {
		e := c.engine(3)
		s := c.open(e, &mop{})
		closed := false
		defer func() {
			if !closed {
				s.Close()
			}
		}()
		m, u := c.content()
		c.put(s, m)
		type rd struct {
			r store.KVReader
			m map[string]string
		}
		var rs []rd
		if e.name == "boltdb" {
			// a writer that has to remap the file waits for the open readers: make room first
			w := c.writer(s)
			for i := 0; i < 2; i++ {
				b := w.NewBatch()
				for j := 0; j < 40; j++ {
					k := []byte(fmt.Sprintf("grow%d", j))
					if i == 0 {
						b.Set(k, make([]byte, 8000))
					} else {
						b.Delete(k)
					}
				}
				if err := w.ExecuteBatch(b); err != nil {
					c.fail("ExecuteBatch: %v", err)
				}
			}
		}
		for round := 0; round < 3; round++ {
			cp := map[string]string{}
			for k, v := range m {
				cp[k] = v
			}
			rs = append(rs, rd{c.reader(s), cp})
			c.logf("engine %s reader on %q", e.name, cp)
			w := c.writer(s)
			b := w.NewBatch()
			for i := c.Intn(5); i > 0; i-- {
				k := string(c.key())
				u[k] = true
				if c.Intn(3) == 0 {
					b.Delete([]byte(k))
					delete(m, k)
				} else {
					m[k] = string(c.val()) + "n"
					b.Set([]byte(k), []byte(m[k]))
				}
			}
			if err := w.ExecuteBatch(b); err != nil {
				c.fail("ExecuteBatch: %v", err)
			}
			for _, x := range rs {
				c.sameReader(x.r, x.m, u)
			}
		}
		for _, x := range rs {
			// MultiGet
			var keys [][]byte
			for i := c.Intn(5); i > 0; i-- {
				keys = append(keys, c.key())
			}
			vs, err := x.r.MultiGet(keys)
			if err != nil || len(vs) != len(keys) {
				c.fail("%s: MultiGet(%q) = %q, %v", e.name, keys, vs, err)
			}
			for i, k := range keys {
				v, ok := x.m[string(k)]
				if ok && (vs[i] == nil || string(vs[i]) != v) || !ok && vs[i] != nil {
					c.fail("%s: MultiGet(%q)[%d] = %s, store has %q %v", e.name, keys, i, show(vs[i]), v, ok)
				}
			}
			// owned copies
			for k, v := range x.m {
				b, _ := x.r.Get([]byte(k))
				for i := range b {
					b[i] ^= 0xff
				}
				for i := range vs {
					for j := range vs[i] {
						vs[i][j] ^= 0xff
					}
				}
				b2, err := x.r.Get([]byte(k))
				if err != nil || b2 == nil || string(b2) != v {
					c.fail("%s: Get(%q) = %s %v after the caller changed an earlier result, want %q", e.name, k, show(b2), err, v)
				}
			}
			if err := x.r.Close(); err != nil {
				c.fail("%s: reader Close: %v", e.name, err)
			}
		}
		// engine errors are reported
		r := c.reader(s)
		switch e.name {
		case "goleveldb":
			s.Close()
			closed = true
		case "badger":
			r.Close()
		default:
			r.Close()
			return
		}
		for k := range u {
			v, err := r.Get([]byte(k))
			if err == nil {
				c.fail("%s: Get(%q) on a closed engine = %s without error", e.name, k, show(v))
			}
			if _, err := r.MultiGet([][]byte{[]byte(k)}); err == nil {
				c.fail("%s: MultiGet on a closed engine reports no error", e.name)
			}
		}
		if closed {
			if r, err := s.Reader(); err == nil || r != nil {
				c.fail("%s: Reader on a closed store = %v, %v", e.name, r, err)
			}
		}
	})
	run(t, "C11", "multiget", 100, func(c *C) {
		f := &fakeReader{m: map[string]string{}, failK: "none at all"}
		for i := c.Intn(6); i > 0; i-- {
			f.m[string(c.key())] = string(c.val())
		}
		var keys [][]byte
		for i := c.Intn(6); i > 0; i-- {
			keys = append(keys, c.key())
		}
		bad := false
		if len(keys) > 0 && c.Intn(2) == 0 {
			f.failK = string(keys[c.Intn(len(keys))])
			bad = true
		}
		c.logf("store %q keys %q failing %q", f.m, keys, f.failK)
		vs, err := store.MultiGet(f, keys)
		if bad {
			if err == nil {
				c.fail("MultiGet hid an error: %q", vs)
			}
			return
		}
		if err != nil || len(vs) != len(keys) {
			c.fail("MultiGet = %q, %v", vs, err)
		}
		for i, k := range keys {
			v, ok := f.m[string(k)]
			if ok != (vs[i] != nil) || string(vs[i]) != v {
				c.fail("MultiGet[%d] (%q) = %s, want %q %v", i, k, show(vs[i]), v, ok)
			}
		}
	})
}

// walk compares an iterator with the sorted list of its keys.
func (c *C) walk(what string, it store.KVIterator, keys []string, m map[string]string, seek func() []byte) {
	pos := 0
	at := func(op string) {
		valid := pos < len(keys)
		if it.Valid() != valid {
			c.fail("%s after %s: Valid() = %v, want %v (position %d of %q)", what, op, it.Valid(), valid, pos, keys)
		}
		k, v, ok := it.Current()
		if ok != valid {
			c.fail("%s after %s: Current() reports %v, want %v", what, op, ok, valid)
		}
		if !valid {
			return
		}
		if string(k) != keys[pos] || string(v) != m[keys[pos]] {
			c.fail("%s after %s: Current() = %q %q, want %q %q", what, op, k, v, keys[pos], m[keys[pos]])
		}
		if string(it.Key()) != keys[pos] || string(it.Value()) != m[keys[pos]] {
			c.fail("%s after %s: Key/Value = %q %q, want %q %q", what, op, it.Key(), it.Value(), keys[pos], m[keys[pos]])
		}
	}
	at("creation")
	for i := 0; i < 12; i++ {
		if pos < len(keys) && c.Intn(3) > 0 {
			it.Next()
			pos++
			c.logf("Next")
			at("Next")
		} else {
			t := seek()
			c.logf("Seek %q", t)
			it.Seek(t)
			pos = sort.SearchStrings(keys, string(t))
			at(fmt.Sprintf("Seek(%q)", t))
		}
	}
	if err := it.Close(); err != nil {
		c.fail("%s: Close: %v", what, err)
	}
}

func sorted(m map[string]string, f func(k string) bool) []string {
	var o []string
	for k := range m {
		if f(k) {
			o = append(o, k)
		}
	}
	sort.Strings(o)
	return o
}

// mutate writes after the reader was opened.
func (c *C) mutate(s store.KVStore) {
	w := c.writer(s)
	b := w.NewBatch()
	for i := c.Intn(6); i > 0; i-- {
		if c.Intn(2) == 0 {
			b.Delete(c.key())
		} else {
			b.Set(c.key(), []byte("later"))
		}
	}
	if err := w.ExecuteBatch(b); err != nil {
		c.fail("ExecuteBatch: %v", err)
	}
}

func (c *C) iterCase(f func(s store.KVStore, r store.KVReader, name string, m map[string]string)) {
	e := c.engine(2)
	s := c.open(e, &mop{})
	defer s.Close()
	m := map[string]string{}
	for i := c.Intn(14); i > 0; i-- {
		m[string(c.key())] = string(c.val())
	}
	c.put(s, m)
	c.logf("engine %s content %q", e.name, m)
	for i := 0; i < 6; i++ {
		r := c.reader(s)
		f(s, r, e.name, m)
		r.Close()
	}
}

func TestC12(t *testing.T) {
	run(t, "C12", "prefix", 150, func(c *C) {
		c.iterCase(func(s store.KVStore, r store.KVReader, name string, m map[string]string) {
			p := c.bytesFrom(keyAlpha, 0, 2)
			c.logf("prefix %q", p)
			cp := m
			it := r.PrefixIterator(clone(p))
			c.walk(name+" PrefixIterator", it, sorted(cp, func(k string) bool { return strings.HasPrefix(k, string(p)) }), cp, func() []byte {
				k := c.bytesFrom(keyAlpha, 0, 3)
				if c.Intn(2) == 0 {
					k = append(clone(p), k...)
				}
				return k
			})
		})
	})
	run(t, "C12", "snapshot", 60, func(c *C) {
		e := c.engine(2)
		s := c.open(e, &mop{})
		defer s.Close()
		m := map[string]string{}
		for i := c.Intn(14); i > 0; i-- {
			m[string(c.key())] = string(c.val())
		}
		c.put(s, m)
		r := c.reader(s)
		defer r.Close()
		if e.name == "boltdb" {
			// an open read transaction may have to wait for the file to grow
			return
		}
		c.mutate(s)
		p := c.bytesFrom(keyAlpha, 0, 2)
		c.logf("engine %s content %q prefix %q, then changed", e.name, m, p)
		c.walk(e.name+" PrefixIterator", r.PrefixIterator(clone(p)), sorted(m, func(k string) bool { return strings.HasPrefix(k, string(p)) }), m, func() []byte { return c.key() })
	})
}

func TestC13(t *testing.T) {
	run(t, "C13", "range", 150, func(c *C) {
		c.iterCase(func(s store.KVStore, r store.KVReader, name string, m map[string]string) {
			a := c.bytesFrom(keyAlpha, 0, 3)
			b := c.bytesFrom(keyAlpha, 1, 3)
			if c.Intn(4) == 0 {
				b = nil
			} else if bytes.Compare(a, b) > 0 {
				a, b = b, a
			}
			if len(b) == 0 {
				b = nil
			}
			if b != nil && c.Intn(3) == 0 && len(m) > 0 {
				ks := sorted(m, func(string) bool { return true })
				a, b = []byte(ks[c.Intn(len(ks))]), []byte(ks[c.Intn(len(ks))])
				if bytes.Compare(a, b) > 0 {
					a, b = b, a
				}
			}
			c.logf("range %q %s", a, show(b))
			it := r.RangeIterator(clone(a), clone(b))
			c.walk(name+" RangeIterator", it, sorted(m, func(k string) bool { return k >= string(a) && (b == nil || k < string(b)) }), m, func() []byte { return c.bytesFrom(keyAlpha, 0, 3) })
		})
	})
}

func TestC14(t *testing.T) {
	run(t, "C14", "copies", 120, func(c *C) {
		e := c.engine(3)
		s := c.open(e, &mop{partial: c.Intn(3)})
		defer s.Close()
		m, u := c.content()
		c.put(s, m)
		c.logf("engine %s content %q", e.name, m)
		w := c.writer(s)
		b := w.NewBatch()
		merged := map[string][]string{}
		merges := map[string]bool{}
		buf, vbuf := make([]byte, 3), make([]byte, 8)
		queue := func(keep bool) {
			for i := c.Intn(8); i > 0; i-- {
				k, v := c.key(), c.val()
				k = append(buf[:0], k...)
				if v != nil {
					v = append(vbuf[:0], v...)
				}
				u[string(k)] = true
				isMerge := int(crc32.ChecksumIEEE(k))%3 == 0
				if isMerge {
					c.logf("merge %q %q", k, v)
					b.Merge(k, v)
					if keep {
						merged[string(k)] = append(merged[string(k)], string(v))
					}
					merges[string(k)] = true
				} else if c.Intn(3) == 0 {
					c.logf("delete %q", k)
					b.Delete(k)
					if keep {
						delete(m, string(k))
					}
				} else {
					c.logf("set %q %s", k, show(v))
					b.Set(k, v)
					if keep {
						m[string(k)] = string(v)
					}
				}
				for j := range buf {
					buf[j] = 'a'
				}
				for j := range vbuf {
					vbuf[j] = '#'
				}
			}
		}
		if c.Intn(2) == 0 {
			queue(false)
			c.logf("Reset")
			b.Reset()
		}
		queue(true)
		for k, ops := range merged {
			var ex *string
			if v, ok := m[k]; ok {
				ex = &v
			}
			m[k] = mergeWant(k, ex, ops)
		}
		if err := w.ExecuteBatch(b); err != nil {
			c.fail("%s: ExecuteBatch: %v", e.name, err)
		}
		c.same(s, m, u)
		// reuse after execution and reset
		if c.Intn(2) == 0 {
			b.Reset()
			if err := w.ExecuteBatch(b); err != nil {
				c.fail("%s: ExecuteBatch of a reset batch: %v", e.name, err)
			}
			c.same(s, m, u)
		}
	})
}

func TestC15(t *testing.T) {
	run(t, "C15", "merge", 150, func(c *C) {
		e := c.engine(3)
		mo := &mop{partial: c.Intn(3)}
		s := c.open(e, mo)
		defer s.Close()
		m, u := c.content()
		c.put(s, m)
		c.logf("engine %s partial %d content %q", e.name, mo.partial, m)
		for round := 0; round < 2; round++ {
			w := c.writer(s)
			b := w.NewBatch()
			merged := map[string][]string{}
			for i := c.Intn(10); i > 0; i-- {
				k, v := string(c.key()), strings.ReplaceAll(string(c.val()), "!", "?")
				u[k] = true
				if c.Intn(5) == 0 && merged[k] == nil && e.name != "goleveldb" {
					// another key is set
					kk := k + "s"
					u[kk] = true
					b.Set([]byte(kk), []byte(v))
					if merged[kk] == nil {
						m[kk] = v
					}
					continue
				}
				if len(k) == 3 {
					k = k[:2]
					u[k] = true
				}
				b.Merge([]byte(k), []byte(v))
				merged[k] = append(merged[k], v)
				c.logf("merge %q %q", k, v)
			}
			skip := false
			for k := range merged {
				if _, ok := m[k]; ok && strings.HasSuffix(k, "s") {
					skip = true
				}
			}
			if skip {
				return
			}
			for k, ops := range merged {
				var ex *string
				if v, ok := m[k]; ok {
					ex = &v
				}
				m[k] = mergeWant(k, ex, ops)
			}
			if err := w.ExecuteBatch(b); err != nil {
				c.fail("%s: ExecuteBatch: %v", e.name, err)
			}
			c.same(s, m, u)
		}
	})
	run(t, "C15", "emulated", 150, func(c *C) {
		mo := &mop{partial: c.Intn(3)}
		em := store.NewEmulatedMerge(mo)
		want := map[string]string{}
		n := map[string]int{}
		for i := c.Intn(12); i > 0; i-- {
			k, v := c.bytesFrom([]byte("ab"), 0, 1), c.bytesFrom([]byte("xyz"), 1, 2)
			em.Merge(clone(k), clone(v))
			want[string(k)] += string(v)
			n[string(k)]++
			c.logf("merge %q %q", k, v)
		}
		if len(em.Merges) != len(want) {
			c.fail("merges %q, want %q", em.Merges, want)
		}
		for k, ops := range em.Merges {
			if string(bytes.Join(ops, nil)) != want[k] {
				c.fail("operands of %q are %q, want %q in order", k, ops, want[k])
			}
			if mo.partial == 0 && len(ops) != n[k] || mo.partial == 1 && len(ops) != 1 {
				c.fail("operands of %q: %d, %d were added (partial %d)", k, len(ops), n[k], mo.partial)
			}
		}
	})
}

func TestC23(t *testing.T) {
	run(t, "C23", "compact", 60, func(c *C) {
		e := engines[1+c.Intn(2)]
		s := c.open(e, &mop{})
		defer s.Close()
		m, u := map[string]string{}, map[string]bool{}
		for i := c.Intn(60); i > 0; i-- {
			k := "d" + string(c.bytesFrom(alpha, 0, 2))
			if c.Intn(4) == 0 {
				k = string(c.bytesFrom(alpha, 1, 2))
			}
			v := []string{"\x00", "\x00", "\x00", "", "\x00\x00", "\x01", "x"}[c.Intn(7)]
			m[k] = v
			u[k] = true
		}
		c.put(s, m)
		n := 1 + c.Intn(6)
		if c.Intn(3) == 0 {
			n = 100
		}
		c.logf("engine %s content %q batch size %d", e.name, m, n)
		var err error
		if c.Intn(4) == 0 {
			err = s.(interface{ Compact() error }).Compact()
		} else {
			err = s.(interface{ CompactWithBatchSize(int) error }).CompactWithBatchSize(n)
		}
		if err != nil {
			c.fail("%s: compaction failed: %v", e.name, err)
		}
		for k, v := range m {
			if strings.HasPrefix(k, "d") && v == "\x00" {
				delete(m, k)
			}
		}
		c.same(s, m, u)
	})
}

// field finds a value of type T inside x, whatever its name is.
func field(x interface{}, dst interface{}) (ok bool) {
	wt := reflect.TypeOf(dst).Elem()
	seen := map[uintptr]bool{}
	var find func(v reflect.Value, d int) bool
	find = func(v reflect.Value, d int) bool {
		if d > 4 {
			return false
		}
		if v.Type() == wt && v.CanAddr() {
			reflect.ValueOf(dst).Elem().Set(reflect.NewAt(wt, unsafe.Pointer(v.UnsafeAddr())).Elem())
			return true
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return false
			}
			seen[v.Pointer()] = true
			return find(v.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if find(v.Field(i), d+1) {
					return true
				}
			}
		}
		return false
	}
	return find(reflect.ValueOf(x), 0)
}

func TestC24(t *testing.T) {
	type cfg = map[string]interface{}
	run(t, "C24", "config", 40, func(c *C) {
		p := filepath.Join(c.dir, "db")
		for _, bad := range []cfg{{}, {"path": ""}, {"path": 7}, {"path": nil}, nil} {
			for n, f := range map[string]func() (store.KVStore, error){
				"boltdb":    func() (store.KVStore, error) { return boltdb.New(nil, bad) },
				"goleveldb": func() (store.KVStore, error) { return goleveldb.New(nil, bad) },
				"badger":    func() (store.KVStore, error) { return badger.New(nil, bad) },
			} {
				if s, err := f(); err == nil || s != nil {
					c.fail("%s with configuration %v gives %v, %v", n, bad, s, err)
				}
			}
			if _, ok := bad["path"].(string); !ok {
				if s, err := gtreap.New(nil, bad); err == nil || s != nil {
					c.fail("gtreap with configuration %v gives %v, %v", bad, s, err)
				}
			}
		}
		if s, err := gtreap.New(nil, cfg{"path": "x"}); err == nil || s != nil {
			c.fail("gtreap with a path gives %v, %v", s, err)
		}
		if s, err := gtreap.New(nil, cfg{"path": ""}); err != nil || s == nil {
			c.fail("gtreap gives %v, %v", s, err)
		}
		// boltdb
		bc := cfg{"path": p}
		bucket, nosync, fill := "bleve", false, bolt.DefaultFillPercent
		if c.Intn(2) == 0 {
			bucket = []string{"b1", "other"}[c.Intn(2)]
			bc["bucket"] = bucket
		}
		if c.Intn(2) == 0 {
			nosync = c.Intn(2) == 0
			bc["nosync"] = nosync
		}
		if c.Intn(2) == 0 {
			fill = []float64{0.3, 0.75, 1}[c.Intn(3)]
			bc["fillPercent"] = fill
		}
		if c.Intn(2) == 0 {
			bc["read_only"] = false
		}
		c.logf("boltdb %v", bc)
		s, err := boltdb.New(&mop{}, bc)
		if err != nil {
			c.fail("boltdb.New(%v): %v", bc, err)
		}
		var db *bolt.DB
		ok := field(s, &db)
		if ok && db.NoSync != nosync {
			c.fail("boltdb.New(%v): NoSync is %v", bc, db.NoSync)
		}
		if ok && db.IsReadOnly() {
			c.fail("boltdb.New(%v) is read only", bc)
		}
		var f float64
		if field(s, &f) && f != fill {
			c.fail("boltdb.New(%v): fill percentage %v", bc, f)
		}
		c.put(s, map[string]string{"k": "v"})
		s.Close()
		raw, err := bolt.Open(p, 0600, &bolt.Options{ReadOnly: true})
		if err != nil {
			c.fail("bolt.Open: %v", err)
		}
		raw.View(func(tx *bolt.Tx) error {
			b := tx.Bucket([]byte(bucket))
			if b == nil || string(b.Get([]byte("k"))) != "v" {
				raw.Close()
				c.fail("boltdb.New(%v): the record is not in bucket %q", bc, bucket)
			}
			return nil
		})
		raw.Close()
		// read only
		bc["read_only"] = true
		s, err = boltdb.New(&mop{}, bc)
		if err != nil {
			c.fail("boltdb.New(%v): %v", bc, err)
		}
		w, err := s.Writer()
		if err == nil {
			b := w.NewBatch()
			b.Set([]byte("k"), []byte("w"))
			if w.ExecuteBatch(b) == nil {
				s.Close()
				c.fail("boltdb.New(%v) accepts writes", bc)
			}
		}
		r := c.reader(s)
		if v, _ := r.Get([]byte("k")); string(v) != "v" {
			c.fail("boltdb read only: Get = %q", v)
		}
		r.Close()
		s.Close()
		if s, err := boltdb.New(&mop{}, cfg{"path": c.dir}); err == nil || s != nil {
			c.fail("boltdb.New on a directory gives %v, %v", s, err)
		}
		os.WriteFile(filepath.Join(c.dir, "junk"), bytes.Repeat([]byte("junk"), 5000), 0o600)
		if s, err := boltdb.New(&mop{}, cfg{"path": filepath.Join(c.dir, "junk")}); err == nil || s != nil {
			c.fail("boltdb.New on a junk file gives %v, %v", s, err)
		}
		// goleveldb
		lp := filepath.Join(c.dir, "ldb")
		lc := cfg{"path": lp}
		if s, err := goleveldb.New(&mop{}, cfg{"path": lp, "create_if_missing": false}); err == nil || s != nil {
			c.fail("goleveldb without create_if_missing gives %v, %v on a missing path", s, err)
		}
		want := opt.Options{}
		ints := []struct {
			n string
			p *int
		}{{"write_buffer_size", &want.WriteBuffer}, {"block_size", &want.BlockSize}, {"block_restart_interval", &want.BlockRestartInterval}, {"lru_cache_capacity", &want.BlockCacheCapacity}}
		for _, x := range ints {
			if c.Intn(2) == 0 {
				*x.p = 1024 * (1 + c.Intn(40))
				if x.n == "block_restart_interval" {
					*x.p = 1 + c.Intn(30)
				}
				lc[x.n] = float64(*x.p)
			}
		}
		if c.Intn(2) == 0 {
			lc["create_if_missing"] = true
		}
		if c.Intn(2) == 0 {
			lc["bloom_filter_bits_per_key"] = float64(10)
		}
		if c.Intn(2) == 0 {
			want.ErrorIfExist = true
			lc["error_if_exists"] = true
		}
		c.logf("goleveldb %v", lc)
		s, err = goleveldb.New(&mop{}, lc)
		if err != nil {
			c.fail("goleveldb.New(%v): %v", lc, err)
		}
		var o opt.Options
		if field(s, &o) {
			if o.WriteBuffer != want.WriteBuffer || o.BlockSize != want.BlockSize || o.BlockRestartInterval != want.BlockRestartInterval || o.BlockCacheCapacity != want.BlockCacheCapacity || o.ErrorIfExist != want.ErrorIfExist || o.ErrorIfMissing || o.ReadOnly || (o.Filter != nil) != (lc["bloom_filter_bits_per_key"] != nil) {
				c.fail("goleveldb.New(%v) opened the engine with %+v", lc, o)
			}
		}
		var wo *opt.WriteOptions
		if field(s, &wo) && !wo.GetSync() {
			c.fail("goleveldb.New(%v) does not sync its writes", lc)
		}
		c.put(s, map[string]string{"k": "v"})
		s.Close()
		s, err = goleveldb.New(&mop{}, lc)
		if want.ErrorIfExist {
			if err == nil || s != nil {
				c.fail("goleveldb.New(%v) on an existing database gives %v, %v", lc, s, err)
			}
			delete(lc, "error_if_exists")
		} else {
			if err != nil {
				c.fail("goleveldb.New(%v) again: %v", lc, err)
			}
			s.Close()
		}
		lc["read_only"] = true
		s, err = goleveldb.New(&mop{}, lc)
		if err != nil {
			c.fail("goleveldb.New(%v): %v", lc, err)
		}
		w = c.writer(s)
		b := w.NewBatch()
		b.Set([]byte("k"), []byte("w"))
		if w.ExecuteBatch(b) == nil {
			s.Close()
			c.fail("goleveldb.New(%v) accepts writes", lc)
		}
		s.Close()
		// badger
		if c.Intn(4) == 0 {
			bp := filepath.Join(c.dir, "bad", "ger")
			s, err = badger.New(&mop{}, cfg{"path": bp})
			if err != nil {
				c.fail("badger.New: %v", err)
			}
			c.put(s, map[string]string{"k": "v"})
			if st, err := os.Stat(bp); err != nil || !st.IsDir() {
				c.fail("badger does not store in its path")
			}
			if s2, err := badger.New(&mop{}, cfg{"path": bp}); err == nil || s2 != nil {
				c.fail("badger.New on a locked database gives %v, %v", s2, err)
			}
			s.Close()
			fp := filepath.Join(c.dir, "file")
			os.WriteFile(fp, []byte("x"), 0o600)
			if s2, err := badger.New(&mop{}, cfg{"path": fp}); err == nil || s2 != nil {
				c.fail("badger.New on a file gives %v, %v", s2, err)
			}
			if s2, err := badger.New(&mop{}, cfg{"path": filepath.Join(fp, "sub")}); err == nil || s2 != nil {
				c.fail("badger.New below a file gives %v, %v", s2, err)
			}
		}
	})
}

var _ = leveldb.ErrNotFound

func TestC25(t *testing.T) {
	run(t, "C25", "null", 30, func(c *C) {
		s, err := null.New(&mop{}, nil)
		if err != nil || s == nil {
			c.fail("null.New: %v", err)
		}
		w := c.writer(s)
		for i := 0; i < 3; i++ {
			b := w.NewBatch()
			for j := c.Intn(4); j > 0; j-- {
				b.Set(c.key(), c.val())
				b.Merge(c.key(), c.val())
				b.Delete(c.key())
			}
			if c.Intn(3) == 0 {
				b.Reset()
			}
			if err := w.ExecuteBatch(b); err != nil {
				c.fail("ExecuteBatch: %v", err)
			}
			if err := b.Close(); err != nil {
				c.fail("batch Close: %v", err)
			}
			n := c.Intn(10)
			buf, b2, err := w.NewBatchEx(store.KVBatchOptions{TotalBytes: n})
			if err != nil || len(buf) != n || b2 == nil {
				c.fail("NewBatchEx: %d bytes %v", len(buf), err)
			}
			if err := w.ExecuteBatch(b2); err != nil {
				c.fail("ExecuteBatch: %v", err)
			}
		}
		if err := w.Close(); err != nil {
			c.fail("writer Close: %v", err)
		}
		r := c.reader(s)
		for i := 0; i < 5; i++ {
			k := c.key()
			if v, err := r.Get(k); v != nil || err != nil {
				c.fail("Get(%q) = %s, %v", k, show(v), err)
			}
		}
		for n := 0; n < 4; n++ {
			keys := make([][]byte, n)
			for i := range keys {
				keys[i] = c.key()
			}
			vs, err := r.MultiGet(keys)
			if err != nil || len(vs) != n {
				c.fail("MultiGet of %d keys: %d results, %v", n, len(vs), err)
			}
			for _, v := range vs {
				if v != nil {
					c.fail("MultiGet found %q", v)
				}
			}
		}
		for _, it := range []store.KVIterator{r.PrefixIterator(c.key()), r.RangeIterator(c.key(), nil), r.PrefixIterator(nil)} {
			for i := 0; i < 4; i++ {
				k, v, ok := it.Current()
				if ok || it.Valid() || it.Key() != nil || it.Value() != nil || k != nil || v != nil {
					c.fail("an iterator of the null store is valid: %q %q %v", k, v, ok)
				}
				if c.Intn(2) == 0 {
					it.Next()
				} else {
					it.Seek(c.key())
				}
			}
			if err := it.Close(); err != nil {
				c.fail("iterator Close: %v", err)
			}
		}
		if err := r.Close(); err != nil {
			c.fail("reader Close: %v", err)
		}
		if err := s.Close(); err != nil {
			c.fail("store Close: %v", err)
		}
	})
}
