package zzfalsify

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/gorilla/mux"
	geom "github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

func pointAt(lng, lat float64) s2.Point { return s2.PointFromLatLng(s2.LatLngFromDegrees(lat, lng)) }

func region(coords []float64, rev bool) *s2.Loop {
	var ps []s2.Point
	for i := 0; i+1 < len(coords); i += 2 {
		ps = append(ps, pointAt(coords[i], coords[i+1]))
	}
	if len(ps) > 1 && ps[0] == ps[len(ps)-1] {
		ps = ps[:len(ps)-1]
	}
	if rev {
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	l := s2.LoopFromPoints(ps)
	l.Normalize()
	return l
}

// star is a simple polygon around a centre, concave more often than not.
func (c *C) star(lng, lat, size float64) []float64 {
	n := 3 + c.Intn(8)
	var co []float64
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * (float64(i) + 0.8*c.Float64()) / float64(n)
		r := size * (0.3 + 0.7*c.Float64())
		co = append(co, lng+r*math.Cos(a), lat+r*math.Sin(a))
	}
	if c.Intn(2) == 0 {
		for i, j := 0, len(co)-2; i < j; i, j = i+2, j-2 {
			co[i], co[j] = co[j], co[i]
			co[i+1], co[j+1] = co[j+1], co[i+1]
		}
	}
	k := 2 * c.Intn(n)
	co = append(append([]float64{}, co[k:]...), co[:k]...)
	if c.Intn(2) == 0 {
		co = append(co, co[0], co[1])
	}
	return co
}

func eqCells(a, b []s2.CellID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func toks(cu []s2.CellID) string {
	var o []string
	for _, c := range cu {
		o = append(o, c.ToToken())
	}
	return strings.Join(o, ",")
}

func TestC16(t *testing.T) {
	run(t, "C16", "cover", 200, func(c *C) {
		lat, lng := c.Float64()*120-60, c.Float64()*300-150
		size := math.Pow(10, c.Float64()*3-2)
		lv := c.Intn(5) + int(math.Max(0, 5-math.Log2(size)))
		cov := s2.RegionCoverer{MinLevel: lv, MaxLevel: lv + c.Intn(4), MaxCells: c.Intn(12), LevelMod: c.Intn(3)}
		if c.Intn(8) == 0 {
			cov.MinLevel = 0
		}
		interior := c.Intn(3) == 0
		g := &geodata.Geometry{}
		gd := &geodata.GeoData{Geometry: g, Properties: map[string]*spb.Value{"k": {Kind: &spb.Value_BoolValue{BoolValue: true}}}}
		var want []s2.CellID
		var alt []s2.CellID
		add := func(r s2.Region, r2 s2.Region) {
			rc, rc2 := cov, cov
			if interior {
				want = append(want, rc.InteriorCovering(r)...)
				alt = append(alt, rc2.InteriorCovering(r2)...)
			} else {
				want = append(want, rc.Covering(r)...)
				alt = append(alt, rc2.Covering(r2)...)
			}
		}
		switch c.Intn(4) {
		case 0:
			g.Type = geodata.Geometry_POINT
			cov.MinLevel = c.Intn(34) - 1
			g.Coordinates = []float64{lng, lat, 7}[:2+c.Intn(2)]
			l := cov.MinLevel
			if l < 0 {
				l = 0
			}
			if l > 30 {
				l = 30
			}
			want = []s2.CellID{s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)).Parent(l)}
			alt = want
		case 1:
			g.Type = geodata.Geometry_POLYGON
			g.Coordinates = c.star(lng, lat, size)
			add(region(g.Coordinates, false), region(g.Coordinates, true))
		case 2:
			g.Type = geodata.Geometry_MULTIPOLYGON
			for i := c.Intn(4); i > 0; i-- {
				p := &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: c.star(lng+3*float64(i)*size, lat, size)}
				g.Geometries = append(g.Geometries, p)
				add(region(p.Coordinates, false), region(p.Coordinates, true))
			}
		default:
			g.Type = geodata.Geometry_LINESTRING
			var pl s2.Polyline
			for i := 2 + c.Intn(4); i > 0; i-- {
				x, y := lng+size*c.Float64(), lat+size*c.Float64()
				g.Coordinates = append(g.Coordinates, x, y)
				pl = append(pl, pointAt(x, y))
			}
			add(&pl, &pl)
		}
		before := gdString(gd)
		c.logf("coverer %+v interior %v object %s", cov, interior, before)
		rc := cov
		var got s2.CellUnion
		var err error
		switch {
		case interior:
			got, err = gd.InteriorCover(&rc)
		case c.Intn(2) == 0:
			got, err = gd.Cover(&rc)
		default:
			got, err = geodata.GeoDataToCoverCellUnion(gd, &rc)
		}
		if err != nil {
			c.fail("cover failed: %v", err)
		}
		if !eqCells(got, want) && !eqCells(got, alt) {
			// the order inside one part is the coverer's; compare as multisets before complaining
			a, b, d := append([]s2.CellID{}, got...), append([]s2.CellID{}, want...), append([]s2.CellID{}, alt...)
			for _, x := range [][]s2.CellID{a, b, d} {
				x := x
				sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
			}
			if !eqCells(a, b) && !eqCells(a, d) {
				c.fail("cover = %s, want %s", toks(got), toks(want))
			}
		}
		for _, x := range got {
			if !x.IsValid() || x.Level() < cov.MinLevel && cov.MinLevel <= 30 {
				c.fail("cover holds cell %x of level %d, minimum level %d", uint64(x), x.Level(), cov.MinLevel)
			}
		}
		if gdString(gd) != before {
			c.fail("the object was modified: %s, was %s", gdString(gd), before)
		}
	})
	run(t, "C16", "malformed", 200, func(c *C) {
		g := &geodata.Geometry{}
		gd := &geodata.GeoData{Geometry: g}
		bad := make([]float64, []int{0, 1, 2, 3, 4, 5, 7, 9}[c.Intn(8)])
		for i := range bad {
			bad[i] = c.Float64() * 20
		}
		good := []float64{0, 0, 1, 0, 1, 1}
		switch c.Intn(6) {
		case 0:
			gd.Geometry = nil
		case 1:
			g.Coordinates = bad[:c.Intn(2)*len(bad)/8]
		case 2:
			g.Type = geodata.Geometry_POLYGON
			g.Coordinates = bad
		case 3:
			g.Type = geodata.Geometry_MULTIPOLYGON
			g.Geometries = []*geodata.Geometry{{Coordinates: good}, {Coordinates: bad}, {Coordinates: good}}
			k := c.Intn(3)
			g.Geometries[1], g.Geometries[k] = g.Geometries[k], g.Geometries[1]
			if c.Intn(3) == 0 {
				g.Geometries[c.Intn(3)] = nil
			}
		case 4:
			g.Type = geodata.Geometry_LINESTRING
			g.Coordinates = append(bad, 3)
			if len(g.Coordinates)%2 == 0 {
				g.Coordinates = append(g.Coordinates, 3)
			}
		default:
			g.Type = geodata.Geometry_Type(4 + c.Intn(100))
			if c.Intn(2) == 0 {
				g.Type = -1
			}
			g.Coordinates = good
		}
		c.logf("object %s", gdString(gd))
		rc := s2.RegionCoverer{MinLevel: 3, MaxLevel: 5}
		for n, f := range map[string]func(*s2.RegionCoverer) (s2.CellUnion, error){
			"Cover": gd.Cover, "InteriorCover": gd.InteriorCover,
			"GeoDataToCoverCellUnion": func(r *s2.RegionCoverer) (s2.CellUnion, error) { return geodata.GeoDataToCoverCellUnion(gd, r) },
		} {
			if cu, err := f(&rc); err == nil {
				c.fail("%s accepts the malformed object: %s", n, toks(cu))
			}
		}
	})
}

func (c *C) flat(n, stride int) []float64 {
	o := make([]float64, n*stride)
	for i := range o {
		o[i] = math.Floor(c.Float64()*1000) / 8
	}
	return o
}

var layouts = []geom.Layout{geom.XY, geom.XYZ, geom.XYM, geom.XYZM}

func TestC17(t *testing.T) {
	run(t, "C17", "geometry", 200, func(c *C) {
		lay := layouts[c.Intn(4)]
		st := lay.Stride()
		var g geom.T
		var want []float64
		var typ geodata.Geometry_Type
		xy := func(f []float64) []float64 {
			o := []float64{}
			for i := 0; i < len(f); i += st {
				o = append(o, f[i], f[i+1])
			}
			return o
		}
		bad := false
		switch c.Intn(6) {
		case 0, 1:
			f := c.flat(1, st)
			g, want, typ = geom.NewPointFlat(lay, f), xy(f), geodata.Geometry_POINT
		case 2:
			f := c.flat(c.Intn(6), st)
			if len(f) > 0 && c.Intn(2) == 0 { // a closed line
				copy(f[len(f)-st:], f[:st])
			}
			g, want, typ = geom.NewLineStringFlat(lay, f), xy(f), geodata.Geometry_LINESTRING
		case 3, 4:
			n := c.Intn(4)
			var f []float64
			var ends []int
			for i := 0; i < n; i++ {
				r := c.flat(4, st)
				if c.Intn(2) == 0 {
					copy(r[len(r)-st:], r[:st])
				}
				f = append(f, r...)
				ends = append(ends, len(f))
				if i == 0 {
					want = xy(r)
				}
			}
			g, typ = geom.NewPolygonFlat(lay, f, ends), geodata.Geometry_POLYGON
		default:
			bad = true
			g = []geom.T{geom.NewMultiPointFlat(lay, c.flat(2, st)), geom.NewMultiPolygon(lay), geom.NewMultiLineString(lay), geom.NewGeometryCollection(), geom.NewLinearRingFlat(lay, c.flat(4, st)), nil}[c.Intn(6)]
		}
		var orig string
		if g != nil && !bad {
			orig = fmt.Sprint(g.FlatCoords())
		}
		old := &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{9, 9}}
		gd := &geodata.GeoData{Geometry: old}
		c.logf("%T layout %v %s", g, lay, orig)
		err := geodata.GeomToGeoData(g, gd)
		if bad {
			if err == nil {
				c.fail("GeomToGeoData accepts %T", g)
			}
			if gd.Geometry != old || fmt.Sprint(old) != fmt.Sprint(&geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{9, 9}}) {
				c.fail("GeomToGeoData changed the geometry although it failed")
			}
			return
		}
		if err != nil {
			c.fail("GeomToGeoData: %v", err)
		}
		if gd.Geometry == nil || gd.Geometry.Type != typ {
			c.fail("GeomToGeoData gives %v, want type %v", gd.Geometry, typ)
		}
		eq := func(a, b []float64) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i] != b[i] {
					return false
				}
			}
			return true
		}
		if !eq(gd.Geometry.Coordinates, want) {
			c.fail("GeomToGeoData gives coordinates %v, want %v", gd.Geometry.Coordinates, want)
		}
		if fmt.Sprint(g.FlatCoords()) != orig {
			c.fail("GeomToGeoData changed its argument")
		}
		back, err := geodata.GeoDataToGeom(gd)
		if err != nil {
			c.fail("GeoDataToGeom: %v", err)
		}
		if reflect.TypeOf(back) != reflect.TypeOf(g) || back.Layout() != geom.XY || !eq(back.FlatCoords(), want) {
			c.fail("GeoDataToGeom gives %T %v %v, want %T %v", back, back.Layout(), back.FlatCoords(), g, want)
		}
		if p, ok := back.(*geom.Polygon); ok && len(want) > 0 {
			if p.NumLinearRings() != 1 || !eq(p.LinearRing(0).FlatCoords(), want) {
				c.fail("GeoDataToGeom gives a polygon of %d rings", p.NumLinearRings())
			}
		}
		for _, ty := range []geodata.Geometry_Type{geodata.Geometry_MULTIPOLYGON, 17} {
			if b, err := geodata.GeoDataToGeom(&geodata.GeoData{Geometry: &geodata.Geometry{Type: ty, Coordinates: want}}); err == nil {
				c.fail("GeoDataToGeom accepts type %v: %v", ty, b)
			}
		}
		f := &geojson.Feature{Geometry: g, Properties: map[string]interface{}{"a": "b"}}
		gd2 := &geodata.GeoData{}
		if err := geodata.GeoJSONFeatureToGeoData(f, gd2); err != nil || gd2.Geometry == nil || gd2.Geometry.Type != typ || !eq(gd2.Geometry.Coordinates, want) || gd2.Properties["a"].GetStringValue() != "b" {
			c.fail("GeoJSONFeatureToGeoData gives %s, %v", gdString(gd2), err)
		}
	})
}

func valEq(v *spb.Value, x interface{}) bool {
	switch y := x.(type) {
	case bool:
		k, ok := v.GetKind().(*spb.Value_BoolValue)
		return ok && k.BoolValue == y
	case string:
		k, ok := v.GetKind().(*spb.Value_StringValue)
		return ok && k.StringValue == y
	case float64:
		k, ok := v.GetKind().(*spb.Value_NumberValue)
		return ok && math.Float64bits(k.NumberValue) == math.Float64bits(y)
	case int:
		k, ok := v.GetKind().(*spb.Value_NumberValue)
		return ok && k.NumberValue == float64(y)
	}
	return false
}

func (c *C) scalar() interface{} {
	switch c.Intn(6) {
	case 0:
		return c.Intn(2) == 0
	case 1:
		return string(c.bytesFrom([]byte("xyz"), 0, 3))
	case 2:
		return c.Intn(2000) - 1000
	case 3:
		return c.NormFloat64()
	case 4:
		return []float64{0, -0.5, math.MaxFloat64, math.Inf(1), 1e-300}[c.Intn(5)]
	}
	return nil
}

func TestC18(t *testing.T) {
	run(t, "C18", "properties", 300, func(c *C) {
		props := map[string]interface{}{}
		for i := c.Intn(6); i > 0; i-- {
			props[string(c.bytesFrom([]byte("abcd"), 0, 2))] = c.scalar()
		}
		bad := c.Intn(4) == 0
		if bad {
			props["bad"] = []interface{}{[]interface{}{1.0}, map[string]interface{}{"a": "b"}, int64(3), float32(1), []string{"x"}, uint(3), json.Number("3"), struct{}{}, &props}[c.Intn(9)]
		}
		gd := &geodata.GeoData{}
		old := map[string]interface{}{}
		if c.Intn(2) == 0 {
			gd.Properties = map[string]*spb.Value{}
			for i := c.Intn(4); i > 0; i-- {
				k, s := string(c.bytesFrom([]byte("abcd"), 0, 2)), "old"
				old[k] = s
				gd.Properties[k] = &spb.Value{Kind: &spb.Value_StringValue{StringValue: s}}
			}
		}
		c.logf("properties %v on %v", props, old)
		err := geodata.PropertiesToGeoData(&geojson.Feature{Properties: props}, gd)
		want := old
		if bad {
			if err == nil {
				c.fail("PropertiesToGeoData accepts %T", props["bad"])
			}
		} else {
			if err != nil {
				c.fail("PropertiesToGeoData: %v", err)
			}
			for k, v := range props {
				if v != nil {
					want[k] = v
				}
			}
		}
		if len(gd.Properties) != len(want) {
			c.fail("properties %v, want %v", gd.Properties, want)
		}
		for k, v := range want {
			if g, ok := gd.Properties[k]; !ok || !valEq(g, v) {
				c.fail("property %q is %v, want %v", k, g, v)
			}
		}
		back := geodata.PropertiesToJSONMap(gd.Properties)
		if len(back) != len(want) {
			c.fail("PropertiesToJSONMap gives %v, want %v", back, want)
		}
		for k, v := range want {
			if i, ok := v.(int); ok {
				v = float64(i)
			}
			if g, ok := back[k]; !ok || g != v {
				c.fail("PropertiesToJSONMap: %q is %v, want %v", k, g, v)
			}
		}
	})
}

func TestC19(t *testing.T) {
	run(t, "C19", "sets", 400, func(c *C) {
		pool := []s2.CellID{1, 3, 5, 0x1000, 1 << 63, ^s2.CellID(0), 7, 0}
		mk := func() s2.CellUnion {
			var o s2.CellUnion
			for i := c.Intn(7); i > 0; i-- {
				o = append(o, pool[c.Intn(len(pool))])
			}
			if o == nil && c.Intn(2) == 0 {
				o = s2.CellUnion{}
			}
			return append(make(s2.CellUnion, 0, len(o)+2), o...)
		}
		a := mk()
		var others []s2.CellUnion
		for i := c.Intn(4); i > 0; i-- {
			others = append(others, mk())
		}
		before := fmt.Sprint(len(a), a[:cap(a)], others)
		raw := fmt.Sprintf("%x %x", []s2.CellID(a), others)
		c.logf("lists %s", raw)
		set := map[s2.CellID]bool{}
		for _, u := range append([]s2.CellUnion{a}, others...) {
			for _, x := range u {
				set[x] = true
			}
		}
		var want []s2.CellID
		for x := range set {
			want = append(want, x)
		}
		sort.Slice(want, func(i, j int) bool { return uint64(want[i]) < uint64(want[j]) })
		if got := s2tools.CellUnionUnion(a, others...); !eqCells(got, want) {
			c.fail("CellUnionUnion = %x, want %x", []uint64(u64(got)), u64(want))
		}
		b := mk()
		c.logf("removed %x", u64(b))
		bb := fmt.Sprint(b)
		cnt := map[s2.CellID]int{}
		for _, x := range b {
			cnt[x]++
		}
		want = nil
		for _, x := range a {
			if cnt[x] > 0 {
				cnt[x]--
				continue
			}
			want = append(want, x)
		}
		if got := s2tools.CellUnionMissing(a, b); !eqCells(got, want) {
			c.fail("CellUnionMissing = %x, want %x", u64(got), u64(want))
		}
		if fmt.Sprint(len(a), a[:cap(a)], others) != before || fmt.Sprint(b) != bb {
			c.fail("an argument was modified: %s was %s", fmt.Sprint(len(a), a[:cap(a)], others), before)
		}
	})
}

func u64(a []s2.CellID) []uint64 {
	var o []uint64
	for _, x := range a {
		o = append(o, uint64(x))
	}
	return o
}

func refParse(s string) (uint64, bool) {
	if strings.Contains(s, "/") {
		if len(s) < 2 || s[0] < '0' || s[0] > '5' || s[1] != '/' || len(s) > 32 {
			return 0, false
		}
		pos := uint64(0)
		n := 0
		for i := 2; i < len(s); i++ {
			if s[i] < '0' || s[i] > '3' {
				return 0, false
			}
			pos = pos<<2 | uint64(s[i]-'0')
			n++
		}
		lsb := uint64(1) << uint(2*(30-n))
		return uint64(s[0]-'0')<<61 + pos*2*lsb + lsb, true
	}
	if len(s) <= 16 {
		if v, err := strconv.ParseUint(s, 16, 64); err == nil {
			if len(s) < 16 {
				v <<= uint(4 * (16 - len(s)))
			}
			if v != 0 {
				return v, true
			}
		}
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		return v, true
	}
	return 0, false
}

func TestC20(t *testing.T) {
	run(t, "C20", "parse", 3000, func(c *C) {
		var s string
		switch c.Intn(7) {
		case 0:
			s = strconv.Itoa(c.Intn(8)) + "/" + string(c.bytesFrom([]byte("0123"), 0, 32))
		case 1:
			s = strconv.Itoa(c.Intn(8)) + "/" + string(c.bytesFrom([]byte("0123456/ -+a\xff"), 0, 6))
		case 2:
			s = string(c.bytesFrom([]byte("0123/ 5-+\xc3\xa9"), 0, 5))
		case 3:
			s = string(c.bytesFrom([]byte("0123456789abcdefABCDEFxX"), 0, 18))
		case 4:
			s = strconv.FormatUint(c.Uint64()>>uint(c.Intn(64)), 10)
		case 5:
			s = string(c.bytesFrom([]byte("0123456789"), 0, 21))
		default:
			s = string(c.bytesFrom([]byte("0"), 0, 20)) + string(c.bytesFrom([]byte("0/1g_+-."), 0, 2))
		}
		want, ok := refParse(s)
		c.logf("text %q", s)
		got := s2tools.ParseCellID(s)
		if (got != nil) != ok || ok && uint64(*got) != want {
			if got == nil {
				c.fail("ParseCellID(%q) = nothing, want %x", s, want)
			}
			if !ok {
				c.fail("ParseCellID(%q) = %x, want nothing", s, uint64(*got))
			}
			c.fail("ParseCellID(%q) = %x, want %x", s, uint64(*got), want)
		}
	})
}

type fcJSON struct {
	Type     string
	Features []struct {
		Type       string
		Properties map[string]interface{}
		Geometry   struct {
			Type        string
			Coordinates json.RawMessage
		}
	}
}

func (c *C) checkCells(what string, b []byte, want []s2.CellID) {
	var fc fcJSON
	if err := json.Unmarshal(b, &fc); err != nil {
		c.fail("%s: %v in %q", what, err, b)
	}
	if fc.Type != "FeatureCollection" || len(fc.Features) != len(want) {
		c.fail("%s: %s of %d features, want %d (%s)", what, fc.Type, len(fc.Features), len(want), toks(want))
	}
	for i, f := range fc.Features {
		x := want[i]
		if f.Properties["id"] != x.ToToken() || f.Properties["uid"] != strconv.FormatUint(uint64(x), 10) || f.Properties["str"] != x.String() || f.Properties["level"] != float64(x.Level()) {
			c.fail("%s: feature %d has properties %v, want those of %s", what, i, f.Properties, x.ToToken())
		}
		var ring [][][]float64
		if err := json.Unmarshal(f.Geometry.Coordinates, &ring); err != nil || f.Geometry.Type != "Polygon" || len(ring) != 1 || len(ring[0]) != 5 {
			c.fail("%s: feature %d is %s %s", what, i, f.Geometry.Type, f.Geometry.Coordinates)
		}
		for j := 0; j < 5; j++ {
			ll := s2.LatLngFromPoint(s2.CellFromCellID(x).Vertex(j % 4))
			if len(ring[0][j]) != 2 || math.Abs(ring[0][j][0]-ll.Lng.Degrees()) > 1e-9 || math.Abs(ring[0][j][1]-ll.Lat.Degrees()) > 1e-9 {
				c.fail("%s: feature %d vertex %d is %v, want %v %v", what, i, j, ring[0][j], ll.Lng.Degrees(), ll.Lat.Degrees())
			}
		}
		if fmt.Sprint(ring[0][0]) != fmt.Sprint(ring[0][4]) {
			c.fail("%s: feature %d: the ring is not closed", what, i)
		}
	}
}

func TestC21(t *testing.T) {
	do := func(c *C, h http.Handler, method, url, body string) *httptest.ResponseRecorder {
		req := httptest.NewRequest(method, url, strings.NewReader(body))
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		return w
	}
	run(t, "C21", "cells", 300, func(c *C) {
		var want []s2.CellID
		var ts []string
		bad := false
		for i := 1 + c.Intn(4); i > 0; i-- {
			x := c.leaf().Parent(c.Intn(31))
			tok := x.ToToken()
			if c.Intn(8) == 0 {
				tok = []string{"", "X", "zz", "0", "ffffffffffffffff", "2", "47e66f47e66f47e66f", "g1"}[c.Intn(8)]
				bad = bad || !s2.CellIDFromToken(tok).IsValid()
				x = s2.CellIDFromToken(tok)
			}
			want = append(want, x)
			ts = append(ts, tok)
		}
		url := "/c?cells=" + strings.Join(ts, ",")
		if c.Intn(20) == 0 {
			url, bad = "/c", true
		}
		c.logf("GET %s", url)
		w := do(c, http.HandlerFunc(s2tools.S2CellQueryHandler), "GET", url, "")
		if bad {
			if w.Code != 400 || strings.Contains(w.Body.String(), "Feature") {
				c.fail("status %d body %.200q, want 400", w.Code, w.Body.String())
			}
			return
		}
		if w.Code != 200 {
			c.fail("status %d body %.200q, want 200", w.Code, w.Body.String())
		}
		c.checkCells("answer", w.Body.Bytes(), want)
	})
	run(t, "C21", "geojson", 300, func(c *C) {
		gd := c.object()
		for gd.Geometry.Type == geodata.Geometry_MULTIPOLYGON {
			gd = c.object()
		}
		b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
		if err != nil {
			c.fail("rendering: %v", err)
		}
		body := string(b)
		var fj struct{ Features []json.RawMessage }
		json.Unmarshal(b, &fj)
		bad := false
		lo := 3 + c.Intn(8)
		pv := []string{strconv.Itoa(lo), strconv.Itoa(lo + c.Intn(4)), strconv.Itoa(c.Intn(12))}
		switch c.Intn(10) {
		case 0:
			body, bad = []string{"", "{", "[]", "null", `{"type":"FeatureCollection","features":[]}`, `{"type":"FeatureCollection","features":[null]}`, `{"type":"FeatureCollection","features":[{"type":"Feature"}]}`, `{"type":"FeatureCollection","features":[{"type":"Feature","geometry":null,"properties":null}]}`, "5"}[c.Intn(9)], true
		case 1:
			body, bad = fmt.Sprintf(`{"type":"FeatureCollection","features":[%s,%s]}`, fj.Features[0], fj.Features[0]), true
		case 2:
			pv[c.Intn(3)], bad = []string{"-1", "x", "1.5", "99999999999999999999", "0x3", " 1"}[c.Intn(5)], true
		case 3:
			body, bad = `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}}]}`, true
		case 4:
			body, bad = strings.Replace(body, `"properties":{`, `"properties":{"list":[1],`, 1), true
		case 5:
			body, bad = `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[1,2],[3,4]]]}}]}`, true
		}
		var want s2.CellUnion
		if !bad {
			f := geojson.FeatureCollection{}
			if err := json.Unmarshal([]byte(body), &f); err != nil {
				c.fail("reading back: %v", err)
			}
			n := func(i int) int { v, _ := strconv.Atoi(pv[i]); return v }
			fc := f.Features[0].Geometry.FlatCoords()
			g := &geodata.GeoData{Geometry: &geodata.Geometry{Type: gd.Geometry.Type, Coordinates: fc}}
			want, err = g.Cover(&s2.RegionCoverer{MinLevel: n(0), MaxLevel: n(1), MaxCells: n(2)})
			if err != nil {
				return
			}
		}
		url := "/" + strings.Join([]string{pv[0], pv[1], strings.ReplaceAll(pv[2], " ", "%20")}, "/")
		m := mux.NewRouter()
		m.HandleFunc("/{min_level}/{max_level}/{max_cells}", s2tools.GeoJSONToCellHandler)
		if bad && c.Intn(6) == 0 && pv[0][0] != '-' {
			m = mux.NewRouter()
			m.HandleFunc("/{min_level}/{max_level}/{other}", s2tools.GeoJSONToCellHandler)
		}
		c.logf("POST %s %s", url, body)
		w := do(c, m, "POST", url, body)
		if bad {
			if w.Code != 400 || strings.Contains(w.Body.String(), "FeatureCollection\"") {
				c.fail("status %d body %.200q, want 400", w.Code, w.Body.String())
			}
			return
		}
		if w.Code != 200 {
			c.fail("status %d body %.200q, want 200", w.Code, w.Body.String())
		}
		c.checkCells("answer", w.Body.Bytes(), want)
	})
}

func TestC22(t *testing.T) {
	run(t, "C22", "cells", 200, func(c *C) {
		var cu s2.CellUnion
		for i := c.Intn(5); i > 0; i-- {
			cu = append(cu, c.leaf().Parent(c.Intn(31)))
		}
		c.logf("cells %s", toks(cu))
		b := s2tools.CellUnionToGeoJSON(cu)
		if len(cu) > 0 {
			c.checkCells("CellUnionToGeoJSON", b, cu)
		}
		if got := strings.Join(s2tools.CellUnionToTokens(cu), ","); got != toks(cu) || len(s2tools.CellUnionToTokens(cu)) != len(cu) {
			c.fail("CellUnionToTokens = %s, want %s", got, toks(cu))
		}
	})
	run(t, "C22", "objects", 200, func(c *C) {
		var gds []*geodata.GeoData
		allPts := true
		var pts [][]float64
		for i := c.Intn(5); i > 0; i-- {
			g := c.object()
			if c.Intn(2) == 0 {
				g.Geometry = &geodata.Geometry{Coordinates: []float64{math.Floor(c.Float64() * 100), math.Floor(c.Float64() * 50)}}
			}
			g.Properties = map[string]*spb.Value{}
			for j := c.Intn(3); j > 0; j-- {
				k := string(c.bytesFrom([]byte("ab"), 1, 2))
				switch c.Intn(3) {
				case 0:
					g.Properties[k] = &spb.Value{Kind: &spb.Value_BoolValue{BoolValue: c.Intn(2) == 0}}
				case 1:
					g.Properties[k] = &spb.Value{Kind: &spb.Value_NumberValue{NumberValue: float64(c.Intn(100))}}
				default:
					g.Properties[k] = &spb.Value{Kind: &spb.Value_StringValue{StringValue: string(c.bytesFrom([]byte("xy"), 0, 3))}}
				}
			}
			if g.Geometry.Type != geodata.Geometry_POINT {
				allPts = false
			} else {
				pts = append(pts, g.Geometry.Coordinates)
			}
			gds = append(gds, g)
			c.logf("object %s", gdString(g))
		}
		pairs := func(f []float64) [][]float64 {
			o := [][]float64{}
			for i := 0; i < len(f); i += 2 {
				o = append(o, f[i:i+2])
			}
			return o
		}
		js := func(x interface{}) string { b, _ := json.Marshal(x); return string(b) }
		norm := func(b json.RawMessage) string {
			var x interface{}
			json.Unmarshal(b, &x)
			return js(x)
		}
		props := func(i int, p map[string]interface{}) {
			if len(p) != len(gds[i].Properties) {
				c.fail("object %d has properties %v, want %v", i, p, gds[i].Properties)
			}
			for k, v := range p {
				if !valEq(gds[i].Properties[k], v) {
					c.fail("object %d property %q is %v, want %v", i, k, v, gds[i].Properties[k])
				}
			}
		}
		b, err := geodata.ToGeoJSONFeatureCollection(gds)
		if err != nil {
			c.fail("ToGeoJSONFeatureCollection: %v", err)
		}
		var fc fcJSON
		if err := json.Unmarshal(b, &fc); err != nil || fc.Type != "FeatureCollection" || len(fc.Features) != len(gds) {
			c.fail("ToGeoJSONFeatureCollection gives %d features of %d: %v", len(fc.Features), len(gds), err)
		}
		for i, f := range fc.Features {
			g := gds[i].Geometry
			var want interface{}
			typ := ""
			switch g.Type {
			case geodata.Geometry_POINT:
				typ, want = "Point", g.Coordinates
			case geodata.Geometry_LINESTRING:
				typ, want = "LineString", pairs(g.Coordinates)
			case geodata.Geometry_POLYGON:
				typ, want = "Polygon", [][][]float64{pairs(g.Coordinates)}
			default:
				typ = "MultiPolygon"
				w := [][][][]float64{}
				for _, p := range g.Geometries {
					w = append(w, [][][]float64{pairs(p.Coordinates)})
				}
				want = w
			}
			if f.Geometry.Type != typ || norm(f.Geometry.Coordinates) != norm([]byte(js(want))) {
				c.fail("feature %d is %s %s, want %s %s", i, f.Geometry.Type, f.Geometry.Coordinates, typ, js(want))
			}
			props(i, f.Properties)
		}
		b, err = geodata.PointsToGeoJSONPolyLines(gds)
		if !allPts {
			if err == nil {
				c.fail("PointsToGeoJSONPolyLines accepts other geometries than points: %s", b)
			}
			return
		}
		if err != nil {
			c.fail("PointsToGeoJSONPolyLines: %v", err)
		}
		if len(gds) == 0 {
			return
		}
		var f struct {
			Type       string
			Properties map[string]interface{}
			Geometry   struct {
				Type        string
				Coordinates json.RawMessage
			}
		}
		json.Unmarshal(b, &f)
		if f.Type != "Feature" || f.Geometry.Type != "LineString" || norm(f.Geometry.Coordinates) != norm([]byte(js(pts))) {
			c.fail("PointsToGeoJSONPolyLines gives %s, want the positions %s", b, js(pts))
		}
		props(0, f.Properties)
	})
}
