package zzfalsify

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
	spb "github.com/golang/protobuf/ptypes/struct"
)

func be(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b
}

func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

func (c *C) leaf() s2.CellID {
	switch c.Intn(4) {
	case 0:
		return s2.CellIDFromFacePosLevel(c.Intn(6), 0, 30)
	case 1:
		return s2.CellIDFromFacePosLevel(c.Intn(6), ^uint64(0)>>3, 30)
	default:
		return s2.CellIDFromFacePosLevel(c.Intn(6), c.Uint64()>>3, 30)
	}
}
func (c *C) id() []byte { return c.bytesFrom(alpha, 1, 3+c.Intn(12)) }
func (c *C) prefix() []byte {
	if c.Intn(6) == 0 {
		return []byte{}
	}
	return c.bytesFrom(alpha, 0, 3)
}

// noise adds records which belong to no cell of the index.
func (c *C) noise(s *memStore, p []byte) {
	for i := c.Intn(4); i > 0; i-- {
		k := c.bytesFrom(alpha, 1, 20)
		if !bytes.HasPrefix(k, p) {
			s.m[string(k)] = []byte{}
		}
	}
}

func toB(ids []index.GeoID) [][]byte {
	var o [][]byte
	for _, i := range ids {
		o = append(o, []byte(i))
	}
	return o
}

func (c *C) neighbours(cell s2.CellID) []s2.CellID {
	o := []s2.CellID{cell, cell, cell, cell.NextWrap(), cell.PrevWrap(), cell.NextWrap().NextWrap()}
	if cell.Level() > 0 {
		o = append(o, cell.Parent(cell.Level()-1))
	}
	if cell.Level() < 30 {
		o = append(o, cell.ChildBegin(), cell.Children()[3])
	}
	return o
}

func recs(s *memStore) string {
	var ks []string
	for k := range s.m {
		ks = append(ks, fmt.Sprintf("%x", k))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (c *C) sharedOrMem(s *memStore) store.KVStore {
	// the reference store reuses its buffers; now and then use a real engine instead
	if c.Intn(4) > 0 {
		return s
	}
	e := engines[c.Intn(3)]
	k := c.open(e, nil)
	m := map[string]string{}
	for x, v := range s.m {
		m[x] = string(v)
	}
	c.put(k, m)
	c.logf("engine %s", e.name)
	return k
}

func TestC01(t *testing.T) {
	run(t, "C01", "cellquery", 400, func(c *C) {
		s := newMem()
		p := c.prefix()
		cell := c.leaf().Parent(c.Intn(31))
		level := cell.Level()
		for i := c.Intn(12); i > 0; i-- {
			nb := c.neighbours(cell)
			s.m[string(cat(p, be(uint64(nb[c.Intn(len(nb))])), c.id()))] = []byte{}
		}
		// numbers next to the cell's own, which need not be cells, and mutated keys
		for i := c.Intn(4); i > 0; i-- {
			u := uint64(cell) + uint64(c.Intn(5)) - 2
			if c.Intn(3) == 0 {
				u = uint64(cell) ^ 1<<uint(c.Intn(64))
			}
			id := c.bytesFrom(alpha, 1, 2)
			if len(p) > 0 && c.Intn(2) == 0 {
				id = p[:1+c.Intn(len(p))]
			}
			s.m[string(cat(p, be(u), id))] = []byte{}
		}
		c.noise(s, p)
		var want [][]byte
		k := cat(p, be(uint64(cell)))
		var ks []string
		for r := range s.m {
			if strings.HasPrefix(r, string(k)) && len(r) > len(k) {
				ks = append(ks, r)
			}
		}
		sort.Strings(ks)
		for _, r := range ks {
			want = append(want, []byte(r[len(k):]))
		}
		c.logf("prefix %x level %d cell %x records %s", p, level, uint64(cell), recs(s))
		st := c.sharedOrMem(s)
		idx := index.NewS2FlatIdx(st, clone(p), level)
		got, err := idx.GeoIdsAtCell(cell)
		if err != nil {
			c.fail("GeoIdsAtCell failed: %v", err)
		}
		if !eqIDs(toB(got), want) {
			c.fail("GeoIdsAtCell = %x, want %x", toB(got), want)
		}
		for _, o := range c.neighbours(cell) {
			if o.Level() != level {
				if r, err := idx.GeoIdsAtCell(o); err == nil {
					c.fail("a cell of level %d was answered (%x) by an index of level %d", o.Level(), toB(r), level)
				}
			}
		}
		st.Close()
	})
}

func TestC02(t *testing.T) {
	run(t, "C02", "cellquery", 400, func(c *C) {
		s := newMem()
		p := c.prefix()
		cell := c.leaf().Parent(c.Intn(31))
		lo, hi := uint64(cell.RangeMin()), uint64(cell.RangeMax())
		cand := []uint64{lo, hi, lo - 2, hi + 2, lo + 2, hi - 2, lo - 4, hi + 4, lo - 1, hi + 1}
		for i := c.Intn(12); i > 0; i-- {
			x := cand[c.Intn(len(cand))]
			if c.Intn(3) == 0 {
				x = lo + c.Uint64()%(hi-lo+1)
			}
			if x&1 == 0 {
				x |= 1 // leaves only
			}
			s.m[string(cat(p, be(x), c.id()))] = []byte{}
		}
		c.noise(s, p)
		var ks []string
		for r := range s.m {
			if len(r) > len(p)+8 && strings.HasPrefix(r, string(p)) {
				x := binary.BigEndian.Uint64([]byte(r)[len(p):])
				if x >= lo && x <= hi {
					ks = append(ks, r)
				}
			}
		}
		sort.Strings(ks)
		var want [][]byte
		for _, r := range ks {
			want = append(want, []byte(r[len(p)+8:]))
		}
		c.logf("prefix %x cell %x leaves %x..%x records %s", p, uint64(cell), lo, hi, recs(s))
		st := c.sharedOrMem(s)
		got, err := index.NewS2PointIdx(st, clone(p)).GeoIdsAtCell(cell)
		if err != nil {
			c.fail("GeoIdsAtCell failed: %v", err)
		}
		if !eqIDs(toB(got), want) {
			c.fail("GeoIdsAtCell = %x, want %x", toB(got), want)
		}
		st.Close()
	})
}

func (c *C) latlng() (float64, float64) {
	switch c.Intn(8) {
	case 0:
		return 90 - c.Float64()*0.5, c.Float64()*360 - 180
	case 1:
		return -90 + c.Float64()*0.5, c.Float64()*360 - 180
	case 2:
		return c.Float64()*180 - 90, 180 - c.Float64()*0.01
	case 3:
		return c.Float64()*180 - 90, -180 + c.Float64()*0.01
	default:
		return c.Float64()*170 - 85, c.Float64()*360 - 180
	}
}

func TestC03(t *testing.T) {
	run(t, "C03", "radius", 60, func(c *C) {
		s := newMem()
		p := c.prefix()
		lat, lng := c.latlng()
		radius := math.Pow(10, c.Float64()*6)
		center := s2.PointFromLatLng(s2.LatLngFromDegrees(lat, lng))
		ang := radius / 40075017 * 2 * math.Pi
		// same area formula, radius from the centre
		lim := 2 * math.Asin(math.Sqrt(ang*ang/4))
		type ent struct {
			c  s2.CellID
			id string
		}
		var es []ent
		for i := 0; i < 60; i++ {
			f := []float64{0.2, 0.7, 0.95, 0.999, 1.001, 1.05, 1.5, 3}[c.Intn(8)]
			az := c.Float64() * 2 * math.Pi
			d := f * ang
			x := center.Ortho()
			y := center.Cross(x)
			v := center.Mul(math.Cos(d)).Add(x.Mul(math.Sin(d) * math.Cos(az))).Add(y.Mul(math.Sin(d) * math.Sin(az)))
			es = append(es, ent{s2.CellIDFromLatLng(s2.LatLngFromPoint(s2.Point{Vector: v.Normalize()})), fmt.Sprintf("id%d", i)})
		}
		for _, e := range es {
			s.m[string(cat(p, be(uint64(e.c)), []byte(e.id)))] = []byte{}
		}
		c.logf("prefix %x lat %v lng %v radius %v records %s", p, lat, lng, radius, recs(s))
		got, err := index.NewS2PointIdx(s, clone(p)).GeoIdsRadiusQuery(lat, lng, radius)
		if err != nil {
			c.fail("GeoIdsRadiusQuery: %v", err)
		}
		n := map[string]int{}
		for _, g := range got {
			n[string(g)]++
		}
		for _, e := range es {
			d := float64(center.Distance(e.c.Point()))
			if math.Abs(d-lim) < 1e-7*lim+2e-9 {
				continue
			}
			want := 0
			if d < lim {
				want = 1
			}
			if n[e.id] != want {
				c.fail("entry %s at distance %.9g of radius %.9g returned %d times", e.id, d, lim, n[e.id])
			}
		}
		if m := s.leak(); m != "" {
			c.fail("%s", m)
		}
	})
	run(t, "C03", "rect", 60, func(c *C) {
		s := newMem()
		p := c.prefix()
		bllat, bllng := c.latlng()
		h := math.Pow(10, c.Float64()*3.5-2)
		w := math.Pow(10, c.Float64()*4-2)
		urlat := math.Min(90, bllat+h)
		urlng := bllng + math.Min(w, 170)
		if urlng > 180 {
			urlng -= 360
		}
		width := math.Mod(urlng-bllng+360, 360)
		type ent struct {
			c  s2.CellID
			id string
		}
		var es []ent
		for i := 0; i < 60; i++ {
			fx := []float64{-0.3, -0.001, 0.001, 0.3, 0.5, 0.999, 1.001, 1.2}[c.Intn(8)]
			fy := []float64{-0.3, -0.001, 0.001, 0.3, 0.5, 0.999, 1.001, 1.2}[c.Intn(8)]
			la := math.Max(-90, math.Min(90, bllat+fy*(urlat-bllat)))
			es = append(es, ent{s2.CellIDFromLatLng(s2.LatLngFromDegrees(la, bllng+fx*width).Normalized()), fmt.Sprintf("id%d", i)})
		}
		for _, e := range es {
			s.m[string(cat(p, be(uint64(e.c)), []byte(e.id)))] = []byte{}
		}
		c.logf("prefix %x ur %v %v bl %v %v records %s", p, urlat, urlng, bllat, bllng, recs(s))
		got, err := index.NewS2PointIdx(s, clone(p)).GeoIdsRectQuery(urlat, urlng, bllat, bllng)
		if err != nil {
			c.fail("GeoIdsRectQuery: %v", err)
		}
		n := map[string]int{}
		for _, g := range got {
			n[string(g)]++
		}
		for _, e := range es {
			ll := s2.LatLngFromPoint(e.c.Point())
			la, lo := ll.Lat.Degrees(), ll.Lng.Degrees()
			off := math.Mod(lo-bllng+720, 360)
			eps := 1e-7
			if math.Abs(la-bllat) < eps || math.Abs(la-urlat) < eps || off < eps || math.Abs(off-width) < eps || off > 360-eps || math.Abs(la) > 90-1e-5 {
				continue
			}
			want := 0
			if la > bllat && la < urlat && off < width {
				want = 1
			}
			if n[e.id] != want {
				c.fail("entry %s at %v,%v returned %d times, want %d", e.id, la, lo, n[e.id], want)
			}
		}
		if m := s.leak(); m != "" {
			c.fail("%s", m)
		}
	})
}

func (c *C) nano() int64 {
	switch c.Intn(8) {
	case 0:
		return 0
	case 1:
		return -1 - int64(c.Intn(3))
	case 2:
		return math.MaxInt64 - int64(c.Intn(2))
	case 3:
		return math.MinInt64 + int64(c.Intn(2))
	case 4:
		return -c.Int63()
	default:
		return 1500000000000000000 + int64(c.Intn(5))
	}
}

type timeRec struct {
	cell s2.CellID
	t    int64
	id   []byte
}

func timeWant(rs []timeRec, cell s2.CellID, from, to int64) [][]byte {
	var in []timeRec
	for _, r := range rs {
		if r.cell == cell && r.t > to && r.t <= from {
			in = append(in, r)
		}
	}
	sort.Slice(in, func(i, j int) bool {
		if in[i].t != in[j].t {
			return in[i].t > in[j].t
		}
		return bytes.Compare(in[i].id, in[j].id) < 0
	})
	var o [][]byte
	for i, r := range in {
		if i > 0 && in[i-1].t == r.t && bytes.Equal(in[i-1].id, r.id) {
			continue
		}
		o = append(o, r.id)
	}
	return o
}

func TestC04(t *testing.T) {
	run(t, "C04", "window", 400, func(c *C) {
		s := newMem()
		p := c.prefix()
		cell := c.leaf().Parent(c.Intn(31))
		var rs []timeRec
		for i := c.Intn(14); i > 0; i-- {
			nb := c.neighbours(cell)
			r := timeRec{nb[c.Intn(len(nb))], c.nano(), c.id()}
			rs = append(rs, r)
			s.m[string(cat(p, be(uint64(r.cell)), be(uint64(math.MaxInt64-r.t)), r.id))] = []byte{}
		}
		c.noise(s, p)
		a, b := c.nano(), c.nano()
		if len(rs) > 0 && c.Intn(2) == 0 {
			a = rs[c.Intn(len(rs))].t
		}
		if len(rs) > 0 && c.Intn(2) == 0 {
			b = rs[c.Intn(len(rs))].t
		}
		if a < b && c.Intn(8) > 0 {
			a, b = b, a
		}
		want := timeWant(rs, cell, a, b)
		c.logf("prefix %x cell %x from %d to %d records %s", p, uint64(cell), a, b, recs(s))
		st := c.sharedOrMem(s)
		idx := index.NewS2FlatTimeIdx(st, clone(p), cell.Level())
		got, err := idx.GeoTimeIdsAtCell(cell, time.Unix(0, a), time.Unix(0, b))
		if err != nil {
			c.fail("GeoTimeIdsAtCell failed: %v", err)
		}
		if !eqIDs(toB(got), want) {
			c.fail("GeoTimeIdsAtCell = %x, want %x", toB(got), want)
		}
		for _, o := range c.neighbours(cell) {
			if o.Level() != cell.Level() {
				if r, err := idx.GeoTimeIdsAtCell(o, time.Unix(0, a), time.Unix(0, b)); err == nil {
					c.fail("a cell of level %d was answered (%x) by an index of level %d", o.Level(), toB(r), cell.Level())
				}
			}
		}
		st.Close()
	})
}

func (c *C) checkUnion(what string, got []index.GeoID, err error, want [][]byte) {
	if err != nil {
		c.fail("%s failed: %v", what, err)
	}
	g := sortIDs(toB(got))
	if !eqIDs(g, uniq(want)) {
		c.fail("%s = %x, want %x", what, g, uniq(want))
	}
}

func TestC05(t *testing.T) {
	run(t, "C05", "nested", 200, func(c *C) {
		s := newMem()
		p := c.prefix()
		l := c.leaf()
		mid := l.Parent(c.Intn(31))
		var cells []s2.CellID
		for i := c.Intn(5); i > 0; i-- {
			x := []s2.CellID{l, mid, mid.NextWrap(), mid.RangeMin(), mid.RangeMax()}[c.Intn(5)]
			cells = append(cells, x.Parent(c.Intn(x.Level()+1)))
		}
		var want [][]byte
		for i := c.Intn(10); i > 0; i-- {
			x := []s2.CellID{l, mid, mid.NextWrap(), mid.PrevWrap()}[c.Intn(4)]
			lf := []s2.CellID{x.RangeMin(), x.RangeMax(), l}[c.Intn(3)]
			id := c.id()
			s.m[string(cat(p, be(uint64(lf)), id))] = []byte{}
			for _, y := range cells {
				if y.Contains(lf) {
					want = append(want, id)
				}
			}
		}
		c.logf("prefix %x cells %x point %s", p, cells, recs(s))
		got, err := index.NewS2PointIdx(s, p).GeoIdsAtCells(cells)
		c.checkUnion("point GeoIdsAtCells", got, err, want)
	})
	run(t, "C05", "cells", 300, func(c *C) {
		s := newMem()
		p := c.prefix()
		level := c.Intn(31)
		base := c.leaf().Parent(level)
		cells := []s2.CellID{}
		all := []s2.CellID{base, base.NextWrap(), base.NextWrap().NextWrap(), base.PrevWrap()}
		for i := c.Intn(5); i > 0; i-- {
			cells = append(cells, all[c.Intn(len(all))])
		}
		ids := [][]byte{c.id(), c.id(), c.id()}
		flat, tm := newMem(), newMem()
		var rs []timeRec
		var fw, pw [][]byte
		in := func(x s2.CellID) bool {
			for _, y := range cells {
				if x == y {
					return true
				}
			}
			return false
		}
		for i := c.Intn(14); i > 0; i-- {
			cl, id := all[c.Intn(4)], ids[c.Intn(3)]
			flat.m[string(cat(p, be(uint64(cl)), id))] = []byte{}
			if in(cl) {
				fw = append(fw, id)
			}
			lf := []s2.CellID{cl.RangeMin(), cl.RangeMax()}[c.Intn(2)]
			s.m[string(cat(p, be(uint64(lf)), id))] = []byte{}
			if in(cl) {
				pw = append(pw, id)
			}
			r := timeRec{cl, c.nano(), id}
			rs = append(rs, r)
			tm.m[string(cat(p, be(uint64(r.cell)), be(uint64(math.MaxInt64-r.t)), r.id))] = []byte{}
		}
		a, b := c.nano(), c.nano()
		if a < b {
			a, b = b, a
		}
		var tw [][]byte
		for _, x := range cells {
			tw = append(tw, timeWant(rs, x, a, b)...)
		}
		c.logf("prefix %x cells %x from %d to %d flat %s point %s time %s", p, cells, a, b, recs(flat), recs(s), recs(tm))
		fi := index.NewS2FlatIdx(flat, p, level)
		pi := index.NewS2PointIdx(s, p)
		ti := index.NewS2FlatTimeIdx(tm, p, level)
		got, err := fi.GeoIdsAtCells(cells)
		c.checkUnion("flat GeoIdsAtCells", got, err, fw)
		got, err = pi.GeoIdsAtCells(cells)
		c.checkUnion("point GeoIdsAtCells", got, err, pw)
		got, err = ti.GeoTimeIdsAtCells(cells, time.Unix(0, a), time.Unix(0, b))
		c.checkUnion("GeoTimeIdsAtCells", got, err, tw)
		// any failing single query fails the union
		if level > 0 {
			bad := append(append([]s2.CellID{}, cells...), base.Parent(level-1))
			i := c.Intn(len(bad))
			bad[i], bad[len(bad)-1] = bad[len(bad)-1], bad[i]
			if _, err := fi.GeoIdsAtCells(bad); err == nil {
				c.fail("flat GeoIdsAtCells(%x) with a cell of another level did not fail", bad)
			}
			if _, err := ti.GeoTimeIdsAtCells(bad, time.Unix(0, a), time.Unix(0, b)); err == nil {
				c.fail("GeoTimeIdsAtCells(%x) with a cell of another level did not fail", bad)
			}
		}
		if len(cells) > 0 {
			flat.readerErr, s.readerErr, tm.readerErr = errInjected, errInjected, errInjected
			if _, err := fi.GeoIdsAtCells(cells); err == nil {
				c.fail("flat GeoIdsAtCells hid a reader failure")
			}
			if _, err := pi.GeoIdsAtCells(cells); err == nil {
				c.fail("point GeoIdsAtCells hid a reader failure")
			}
			if _, err := ti.GeoTimeIdsAtCells(cells, time.Unix(0, a), time.Unix(0, b)); err == nil {
				c.fail("GeoTimeIdsAtCells hid a reader failure")
			}
		}
	})
	run(t, "C05", "regions", 60, func(c *C) {
		p := c.prefix()
		level := 4 + c.Intn(9)
		lat, lng := c.latlng()
		if math.Abs(lat) > 80 {
			lat /= 2
		}
		if math.Abs(lng) > 170 {
			lng /= 2
		}
		size := 10000000 / math.Pow(2, float64(level)) // metres, about one cell
		radius := size * (0.2 + 3*c.Float64())
		ang := radius / 40075017 * 2 * math.Pi
		cap := s2.CapFromCenterArea(s2.PointFromLatLng(s2.LatLngFromDegrees(lat, lng)), math.Pi*ang*ang)
		cov := (&s2.RegionCoverer{MinLevel: level, MaxLevel: level}).Covering(cap)
		dl := ang * 180 / math.Pi
		rect := s2.RectFromLatLng(s2.LatLngFromDegrees(lat-dl, lng-dl)).AddPoint(s2.LatLngFromDegrees(lat+dl, lng+dl))
		rcov := (&s2.RegionCoverer{MinLevel: level, MaxLevel: level}).Covering(rect)
		flat, tm := newMem(), newMem()
		var fw, tw, rw [][]byte
		inU := func(u s2.CellUnion, x s2.CellID) bool {
			for _, y := range u {
				if x == y {
					return true
				}
			}
			return false
		}
		for i, x := range append(append(s2.CellUnion{}, cov...), rcov...) {
			for _, y := range []s2.CellID{x, x.NextWrap()} {
				id := []byte(fmt.Sprintf("id%d", i))
				flat.m[string(cat(p, be(uint64(y)), id))] = []byte{}
				tt := int64(1000 + i%7)
				tm.m[string(cat(p, be(uint64(y)), be(uint64(math.MaxInt64-tt)), id))] = []byte{}
				if inU(cov, y) {
					fw = append(fw, id)
					if tt > 1002 && tt <= 1005 {
						tw = append(tw, id)
					}
				}
				if inU(rcov, y) && tt > 1002 && tt <= 1005 {
					rw = append(rw, id)
				}
			}
		}
		c.logf("prefix %x level %d lat %v lng %v radius %v rect +-%v", p, level, lat, lng, radius, dl)
		got, err := index.NewS2FlatIdx(flat, p, level).GeoIdsRadiusQuery(lat, lng, radius)
		c.checkUnion("flat GeoIdsRadiusQuery", got, err, fw)
		ti := index.NewS2FlatTimeIdx(tm, p, level)
		got, err = ti.GeoTimeIdsRadiusQuery(time.Unix(0, 1005), time.Unix(0, 1002), lat, lng, radius)
		c.checkUnion("GeoTimeIdsRadiusQuery", got, err, tw)
		got, err = ti.GeoTimeIdsRectQuery(time.Unix(0, 1005), time.Unix(0, 1002), lat+dl, lng+dl, lat-dl, lng-dl)
		c.checkUnion("GeoTimeIdsRectQuery", got, err, rw)
	})
}

// object makes a well formed object of a few kilometres.
func (c *C) object() *geodata.GeoData {
	lat, lng := c.Float64()*120-60, c.Float64()*300-150
	pt := func() []float64 { return []float64{lng + c.Float64()*0.2, lat + c.Float64()*0.2} }
	sq := func() []float64 {
		la, lo, d := lat+c.Float64()*0.1, lng+c.Float64()*0.1, 0.01+c.Float64()*0.1
		co := []float64{lo, la, lo + d, la, lo + d, la + d, lo, la + d}
		if c.Intn(2) == 0 {
			co = []float64{lo, la, lo, la + d, lo + d, la + d, lo + d, la}
		}
		if c.Intn(2) == 0 {
			co = append(co, co[0], co[1])
		}
		return co
	}
	g := &geodata.Geometry{}
	switch c.Intn(4) {
	case 0:
		g.Type = geodata.Geometry_POINT
		g.Coordinates = pt()
	case 1:
		g.Type = geodata.Geometry_POLYGON
		g.Coordinates = sq()
	case 2:
		g.Type = geodata.Geometry_LINESTRING
		g.Coordinates = cat64(pt(), pt(), pt())
	default:
		g.Type = geodata.Geometry_MULTIPOLYGON
		g.Geometries = []*geodata.Geometry{{Type: geodata.Geometry_POLYGON, Coordinates: sq()}, {Type: geodata.Geometry_POLYGON, Coordinates: sq()}}
	}
	return &geodata.GeoData{Geometry: g, Properties: map[string]*spb.Value{"a": {Kind: &spb.Value_StringValue{StringValue: "x"}}}}
}

func cat64(a ...[]float64) []float64 {
	var o []float64
	for _, x := range a {
		o = append(o, x...)
	}
	return o
}

func (c *C) badObject() *geodata.GeoData {
	g := &geodata.Geometry{}
	switch c.Intn(5) {
	case 0:
		return &geodata.GeoData{}
	case 1:
		g.Type = geodata.Geometry_POINT
		g.Coordinates = make([]float64, c.Intn(2))
	case 2:
		g.Type = geodata.Geometry_POLYGON
		g.Coordinates = []float64{1, 2, 3, 4, 5}[:c.Intn(6)]
	case 3:
		g.Type = geodata.Geometry_LINESTRING
		g.Coordinates = []float64{1, 2, 3, 4, 5}[:1+2*c.Intn(3)]
	default:
		g.Type = geodata.Geometry_Type(7)
		g.Coordinates = []float64{1, 2}
	}
	return &geodata.GeoData{Geometry: g}
}

func gdString(g *geodata.GeoData) string { return fmt.Sprintf("%v %v", g.Geometry, g.Properties) }

func snap(s *memStore) map[string]string {
	m := map[string]string{}
	for k, v := range s.m {
		m[k] = string(v)
	}
	return m
}

func (c *C) sameMem(what string, s *memStore, want map[string]string) {
	for k, v := range want {
		g, ok := s.m[k]
		if !ok {
			c.fail("%s: record %x is missing", what, k)
		}
		if string(g) != v {
			c.fail("%s: record %x holds %x instead of %x", what, k, g, v)
		}
	}
	for k := range s.m {
		if _, ok := want[k]; !ok {
			c.fail("%s: unexpected record %x", what, k)
		}
	}
}

func refCover(gd *geodata.GeoData, level int) (s2.CellUnion, error) {
	return (&geodata.GeoData{Geometry: gd.Geometry}).Cover(&s2.RegionCoverer{MinLevel: level, MaxLevel: level})
}

func TestC06(t *testing.T) {
	run(t, "C06", "index", 200, func(c *C) {
		p := c.prefix()
		level := 5 + c.Intn(9)
		gd := c.object()
		id := index.GeoID(c.id())
		tm := c.nano()
		cov, err := refCover(gd, level)
		if err != nil {
			return
		}
		c.logf("prefix %x level %d id %x time %d object %s", p, level, id, tm, gdString(gd))
		pre := func() *memStore {
			s := newMem()
			for i := c.Intn(4); i > 0; i-- {
				s.m[string(c.bytesFrom(alpha, 1, 12))] = []byte("v")
			}
			if len(cov) > 0 && c.Intn(2) == 0 {
				s.m[string(cat(p, be(uint64(cov[0]))))+"zz"] = []byte("v")
			}
			return s
		}
		check := func(what string, s *memStore, do func() error, add []string) {
			want := snap(s)
			bad := c.Intn(4)
			switch bad {
			case 1:
				s.writerErr = errInjected
			case 2:
				s.execErr = errInjected
			}
			err := do()
			if bad == 1 || bad == 2 {
				if err == nil {
					c.fail("%s reported success although the store failed", what)
				}
				c.sameMem(what+" after a failure", s, want)
				return
			}
			if err != nil {
				c.fail("%s failed: %v", what, err)
			}
			for _, k := range add {
				want[k] = ""
			}
			c.sameMem(what, s, want)
			if s.execs != 1 {
				c.fail("%s used %d batches", what, s.execs)
			}
		}
		var fk, tk []string
		for _, x := range cov {
			fk = append(fk, string(cat(p, be(uint64(x)), id)))
			tk = append(tk, string(cat(p, be(uint64(x)), be(uint64(math.MaxInt64-tm)), id)))
		}
		s := pre()
		fi := index.NewS2FlatIdx(s, p, level)
		check("GeoIndex", s, func() error { return fi.GeoIndex(gd, id) }, fk)
		if s.writerErr == nil && s.execErr == nil {
			for _, x := range cov {
				ids, err := fi.GeoIdsAtCell(x)
				if err != nil || !contains(ids, id) {
					c.fail("id %x not returned for cell %x of its cover: %x %v", id, uint64(x), toB(ids), err)
				}
			}
		}
		s = pre()
		ti := index.NewS2FlatTimeIdx(s, p, level)
		check("GeoTimeIndex", s, func() error { return ti.GeoTimeIndex(gd, time.Unix(0, tm), id) }, tk)
		if s.writerErr == nil && s.execErr == nil && tm > math.MinInt64 && len(s.m) == len(tk) {
			for _, x := range cov {
				ids, err := ti.GeoTimeIdsAtCell(x, time.Unix(0, tm), time.Unix(0, tm-1))
				if err != nil || !contains(ids, id) {
					c.fail("id %x not returned for cell %x of its cover: %x %v", id, uint64(x), toB(ids), err)
				}
			}
		}
		// points
		lat, lng := c.latlng()
		leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
		pk := string(cat(p, be(uint64(leaf)), id))
		s = pre()
		pi := index.NewS2PointIdx(s, p)
		var key []byte
		check("PointIndex", s, func() (err error) { key, err = pi.PointIndex(lat, lng, id); return }, []string{pk})
		if s.writerErr == nil && s.execErr == nil && string(key) != pk {
			c.fail("PointIndex returned key %x, want %x", key, pk)
		}
		if k := pi.PointKey(lat, lng, id); string(k) != pk {
			c.fail("PointKey returned %x, want %x", k, pk)
		}
		s = pre()
		pi = index.NewS2PointIdx(s, p)
		pgd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		check("GeoPointIndex", s, func() (err error) { key, err = pi.GeoPointIndex(pgd, id); return }, []string{pk})
		if k, err := pi.GeoPointKey(pgd, id); err != nil || string(k) != pk {
			c.fail("GeoPointKey returned %x %v, want %x", k, err, pk)
		}
		// refused
		s = pre()
		want := snap(s)
		bo := c.badObject()
		if index.NewS2FlatIdx(s, p, level).GeoIndex(gd, nil) == nil || index.NewS2FlatIdx(s, p, level).GeoIndex(gd, index.GeoID{}) == nil {
			c.fail("GeoIndex accepted an empty id")
		}
		if index.NewS2FlatTimeIdx(s, p, level).GeoTimeIndex(gd, time.Unix(0, tm), nil) == nil {
			c.fail("GeoTimeIndex accepted an empty id")
		}
		if _, err := index.NewS2PointIdx(s, p).PointIndex(lat, lng, nil); err == nil {
			c.fail("PointIndex accepted an empty id")
		}
		if _, err := index.NewS2PointIdx(s, p).GeoPointIndex(pgd, nil); err == nil {
			c.fail("GeoPointIndex accepted an empty id")
		}
		for _, o := range []*geodata.GeoData{bo, {Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}}, {Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING}}} {
			if err := index.NewS2FlatIdx(s, p, level).GeoIndex(o, id); err == nil {
				c.fail("GeoIndex accepted %s", gdString(o))
			}
			if err := index.NewS2FlatTimeIdx(s, p, level).GeoTimeIndex(o, time.Unix(0, tm), id); err == nil {
				c.fail("GeoTimeIndex accepted %s", gdString(o))
			}
		}
		for _, o := range []*geodata.GeoData{{}, {Geometry: &geodata.Geometry{Coordinates: []float64{1}}}, {Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{1, 2, 3, 4}}}, {Geometry: &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: []float64{1, 2, 3, 4, 5, 2}}}} {
			if _, err := index.NewS2PointIdx(s, p).GeoPointIndex(o, id); err == nil {
				c.fail("GeoPointIndex accepted %s", gdString(o))
			}
			if _, err := index.NewS2PointIdx(s, p).GeoPointKey(o, id); err == nil {
				c.fail("GeoPointKey accepted %s", gdString(o))
			}
		}
		c.sameMem("after refused calls", s, want)
	})
}

func contains(ids []index.GeoID, id []byte) bool {
	for _, x := range ids {
		if bytes.Equal(x, id) {
			return true
		}
	}
	return false
}

func TestC07(t *testing.T) {
	run(t, "C07", "ownership", 150, func(c *C) {
		p := c.prefix()
		// spare capacity, so that an append to a caller's slice would be seen
		guard := func(b []byte) []byte {
			g := make([]byte, len(b), len(b)+40)
			copy(g, b)
			f := g[:cap(g)]
			for i := len(b); i < len(f); i++ {
				f[i] = 0x5c
			}
			return g
		}
		guarded := func(what string, g []byte, want []byte) {
			f := g[:cap(g)]
			if !bytes.Equal(g, want) {
				c.fail("%s was modified: %x, was %x", what, g, want)
			}
			for i := len(g); i < len(f); i++ {
				if f[i] != 0x5c {
					c.fail("memory behind %s was overwritten", what)
				}
			}
		}
		level := 5 + c.Intn(9)
		gp := guard(p)
		id := c.id()
		gid := guard(id)
		gd := c.object()
		gs := gdString(gd)
		cov, err := refCover(gd, level)
		if err != nil || len(cov) == 0 {
			return
		}
		lat, lng := c.latlng()
		tm := time.Unix(0, 1000)
		c.logf("prefix %x id %x level %d lat %v lng %v object %s", p, id, level, lat, lng, gs)
		s, ts, ps := newMem(), newMem(), newMem()
		fi := index.NewS2FlatIdx(s, gp, level)
		ti := index.NewS2FlatTimeIdx(ts, gp, level)
		pi := index.NewS2PointIdx(ps, gp)
		other := c.id()
		// id2 has the same length as id
		if err := fi.GeoIndex(gd, gid); err != nil {
			c.fail("GeoIndex: %v", err)
		}
		ti.GeoTimeIndex(gd, tm, gid)
		k1, _ := pi.PointIndex(lat, lng, gid)
		k2 := pi.PointKey(lat, lng, gid)
		pgd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		pgs := gdString(pgd)
		k3, _ := pi.GeoPointKey(pgd, gid)
		k4, _ := pi.GeoPointIndex(pgd, gid)
		leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
		pk := cat(p, be(uint64(leaf)), id)
		guarded("the prefix", gp, p)
		guarded("the id", gid, id)
		if gdString(gd) != gs || gdString(pgd) != pgs {
			c.fail("the object was modified: %s, was %s", gdString(gd), gs)
		}
		before := [3]map[string]string{snap(s), snap(ts), snap(ps)}
		for i := range gid {
			gid[i] ^= 0x33
		}
		for n, k := range [][]byte{k1, k2, k3, k4} {
			if !bytes.Equal(k, pk) {
				c.fail("returned key %d changed with the id: %x, want %x", n, k, pk)
			}
			for m, o := range [][]byte{k1, k2, k3, k4} {
				if m != n && len(k) > 0 && &o[0] == &k[0] {
					c.fail("two calls returned the same bytes")
				}
			}
		}
		for _, k := range [][]byte{k1, k2, k3, k4} {
			for i := range k[:cap(k)] {
				k[:cap(k)][i] = 0x77
			}
		}
		c.sameMem("flat store after the caller changed its id", s, before[0])
		c.sameMem("time store after the caller changed its id", ts, before[1])
		c.sameMem("point store after the caller changed its id and keys", ps, before[2])
		guarded("the prefix", gp, p)
		for i := range gid {
			gid[i] ^= 0x33
		}
		// queries
		fi.GeoIndex(gd, other)
		ti.GeoTimeIndex(gd, tm, other)
		pi.PointIndex(lat, lng, other)
		before = [3]map[string]string{snap(s), snap(ts), snap(ps)}
		cells := make([]s2.CellID, len(cov), len(cov)+4)
		copy(cells, cov)
		cs := fmt.Sprint(cells[:cap(cells)])
		lcells := []s2.CellID{leaf.Parent(10), leaf.Parent(12)}
		lcs := fmt.Sprint(lcells)
		calls := map[string]func() ([]index.GeoID, error){
			"flat GeoIdsAtCell":   func() ([]index.GeoID, error) { return fi.GeoIdsAtCell(cov[0]) },
			"flat GeoIdsAtCells":  func() ([]index.GeoID, error) { return fi.GeoIdsAtCells(cells) },
			"GeoTimeIdsAtCell":    func() ([]index.GeoID, error) { return ti.GeoTimeIdsAtCell(cov[0], time.Unix(0, 1000), time.Unix(0, 0)) },
			"GeoTimeIdsAtCells":   func() ([]index.GeoID, error) { return ti.GeoTimeIdsAtCells(cells, time.Unix(0, 1000), time.Unix(0, 0)) },
			"point GeoIdsAtCell":  func() ([]index.GeoID, error) { return pi.GeoIdsAtCell(leaf.Parent(10)) },
			"point GeoIdsAtCells": func() ([]index.GeoID, error) { return pi.GeoIdsAtCells(lcells) },
			"point radius":        func() ([]index.GeoID, error) { return pi.GeoIdsRadiusQuery(lat, lng, 1000) },
			"point rect":          func() ([]index.GeoID, error) { return pi.GeoIdsRectQuery(lat+0.1, lng+0.1, lat-0.1, lng-0.1) },
		}
		want := uniq([][]byte{id, other})
		for name, f := range calls {
			if strings.HasPrefix(name, "point r") && (math.Abs(lat) > 80 || math.Abs(lng) > 170) {
				continue
			}
			r1, err := f()
			if err != nil {
				c.fail("%s: %v", name, err)
			}
			if !eqIDs(sortIDs(toB(r1)), want) {
				c.fail("%s returned %x, want %x (bytes overwritten by the iterator?)", name, sortIDs(toB(r1)), want)
			}
			// appending to one id must not change another
			if len(r1) > 1 {
				for i := range r1 {
					_ = append(r1[i], 0x99, 0x99)
				}
				if !eqIDs(sortIDs(toB(r1)), want) {
					c.fail("%s: ids share memory: %x", name, toB(r1))
				}
			}
			for _, g := range r1 {
				for i := range g {
					g[i] = 0x55
				}
			}
			r2, err := f()
			if err != nil || !eqIDs(sortIDs(toB(r2)), want) {
				c.fail("%s after the caller changed earlier results: %x %v, want %x", name, toB(r2), err, want)
			}
		}
		c.sameMem("flat store after the caller changed results", s, before[0])
		c.sameMem("time store after the caller changed results", ts, before[1])
		c.sameMem("point store after the caller changed results", ps, before[2])
		guarded("the prefix", gp, p)
		if fmt.Sprint(cells[:cap(cells)]) != cs || fmt.Sprint(lcells) != lcs {
			c.fail("the cell list was modified")
		}
	})
	run(t, "C07", "engines", 16, func(c *C) {
		e := engines[c.Intn(len(engines))]
		s := c.open(e, nil)
		defer s.Close()
		p := c.prefix()
		lat, lng := c.latlng()
		pi := index.NewS2PointIdx(s, p)
		id, id2 := c.id(), c.id()
		c.logf("engine %s prefix %x ids %x %x at %v,%v", e.name, p, id, id2, lat, lng)
		leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
		k, err := pi.PointIndex(lat, lng, id)
		if err != nil {
			c.fail("PointIndex: %v", err)
		}
		for i := range k {
			k[i] = 0x44
		}
		r, err := pi.GeoIdsAtCell(leaf)
		if err != nil || len(r) != 1 || !bytes.Equal(r[0], id) {
			c.fail("GeoIdsAtCell = %x %v, want %x", toB(r), err, id)
		}
		pi.PointIndex(lat, lng, id2)
		for i := range r[0] {
			r[0][i] = 0x55
		}
		r, err = pi.GeoIdsAtCell(leaf)
		if want := uniq([][]byte{id, id2}); err != nil || !eqIDs(sortIDs(toB(r)), want) {
			c.fail("GeoIdsAtCell = %x %v, want %x", toB(r), err, want)
		}
	})
}

func TestC08(t *testing.T) {
	run(t, "C08", "resources", 200, func(c *C) {
		p := c.prefix()
		level := 8
		lat, lng := c.Float64()*120-60, c.Float64()*300-150
		leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
		cell := leaf.Parent(level)
		mk := func() *memStore {
			s := newMem()
			for i := c.Intn(5); i > 0; i-- {
				s.m[string(cat(p, be(uint64(cell)), be(uint64(math.MaxInt64-1000)), c.id()))] = []byte{}
				s.m[string(cat(p, be(uint64(leaf)), c.id()))] = []byte{}
			}
			return s
		}
		bad := c.Intn(3) // 0 fine, 1 reader failure, 2 malformed record
		cells := []s2.CellID{cell, cell.Parent(level), cell.NextWrap()}
		from, to := time.Unix(0, 1000), time.Unix(0, 0)
		gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
		calls := []struct {
			name string
			f    func(s *memStore) (interface{}, error)
			k    []byte
		}{
			{"flat GeoIdsAtCell", func(s *memStore) (interface{}, error) { return index.NewS2FlatIdx(s, p, level).GeoIdsAtCell(cell) }, cat(p, be(uint64(cell)))},
			{"flat GeoIdsAtCells", func(s *memStore) (interface{}, error) { return index.NewS2FlatIdx(s, p, level).GeoIdsAtCells(cells) }, cat(p, be(uint64(cell)))},
			{"flat GeoIdsRadiusQuery", func(s *memStore) (interface{}, error) {
				return index.NewS2FlatIdx(s, p, level).GeoIdsRadiusQuery(lat, lng, 1000)
			}, cat(p, be(uint64(cell)))},
			{"point GeoIdsAtCell", func(s *memStore) (interface{}, error) { return index.NewS2PointIdx(s, p).GeoIdsAtCell(cell) }, cat(p, be(uint64(leaf)))},
			{"point GeoIdsAtCells", func(s *memStore) (interface{}, error) { return index.NewS2PointIdx(s, p).GeoIdsAtCells(cells) }, cat(p, be(uint64(leaf)))},
			{"point GeoIdsRadiusQuery", func(s *memStore) (interface{}, error) { return index.NewS2PointIdx(s, p).GeoIdsRadiusQuery(lat, lng, 1000) }, cat(p, be(uint64(leaf)))},
			{"point GeoIdsRectQuery", func(s *memStore) (interface{}, error) {
				return index.NewS2PointIdx(s, p).GeoIdsRectQuery(lat+0.1, lng+0.1, lat-0.1, lng-0.1)
			}, cat(p, be(uint64(leaf)))},
			{"GeoTimeIdsAtCell", func(s *memStore) (interface{}, error) { return index.NewS2FlatTimeIdx(s, p, level).GeoTimeIdsAtCell(cell, from, to) }, cat(p, be(uint64(cell)), be(uint64(math.MaxInt64-500)))},
			{"GeoTimeIdsAtCells", func(s *memStore) (interface{}, error) { return index.NewS2FlatTimeIdx(s, p, level).GeoTimeIdsAtCells(cells, from, to) }, cat(p, be(uint64(cell)), be(uint64(math.MaxInt64-500)))},
			{"GeoTimeIdsRadiusQuery", func(s *memStore) (interface{}, error) {
				return index.NewS2FlatTimeIdx(s, p, level).GeoTimeIdsRadiusQuery(from, to, lat, lng, 1000)
			}, cat(p, be(uint64(cell)), be(uint64(math.MaxInt64-500)))},
			{"GeoTimeIdsRectQuery", func(s *memStore) (interface{}, error) {
				return index.NewS2FlatTimeIdx(s, p, level).GeoTimeIdsRectQuery(from, to, lat+0.1, lng+0.1, lat-0.1, lng-0.1)
			}, cat(p, be(uint64(cell)), be(uint64(math.MaxInt64-500)))},
		}
		for _, cl := range calls {
			s := mk()
			c.logf("%s mode %d lat %v lng %v prefix %x records %s", cl.name, bad, lat, lng, p, recs(s))
			switch bad {
			case 1:
				s.readerErr = errInjected
			case 2:
				s.m[string(cl.k)] = []byte{}
			}
			_, err := cl.f(s)
			if bad == 0 && err != nil {
				c.fail("%s: %v", cl.name, err)
			}
			if bad == 1 && (err == nil || !strings.Contains(err.Error(), errInjected.Error())) {
				c.fail("%s did not report the failing reader: %v", cl.name, err)
			}
			if m := s.leak(); m != "" {
				c.fail("%s: %s", cl.name, m)
			}
			if s.closed > 0 {
				c.fail("%s closed the store", cl.name)
			}
		}
		for _, m := range []int{0, 1, 2} {
			wr := []struct {
				name string
				f    func(s *memStore) error
			}{
				{"GeoIndex", func(s *memStore) error { return index.NewS2FlatIdx(s, p, level).GeoIndex(gd, []byte("x")) }},
				{"GeoTimeIndex", func(s *memStore) error { return index.NewS2FlatTimeIdx(s, p, level).GeoTimeIndex(gd, from, []byte("x")) }},
				{"PointIndex", func(s *memStore) error { _, err := index.NewS2PointIdx(s, p).PointIndex(lat, lng, []byte("x")); return err }},
				{"GeoPointIndex", func(s *memStore) error { _, err := index.NewS2PointIdx(s, p).GeoPointIndex(gd, []byte("x")); return err }},
			}
			for _, w := range wr {
				s := newMem()
				if m == 1 {
					s.writerErr = errInjected
				}
				if m == 2 {
					s.execErr = errInjected
				}
				err := w.f(s)
				if m == 0 && err != nil {
					c.fail("%s: %v", w.name, err)
				}
				if m > 0 && (err == nil || !strings.Contains(err.Error(), errInjected.Error())) {
					c.fail("%s did not report the store failure (mode %d): %v", w.name, m, err)
				}
				if x := s.leak(); x != "" {
					c.fail("%s: %s", w.name, x)
				}
			}
		}
	})
}
