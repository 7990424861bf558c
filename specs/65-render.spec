# C22: rendering
# the last document turned into JSON: how many, which object, its text, whether it went well
ghost global jcalls: Int
ghost global jdoc: Int
ghost global jout: Bytes
ghost global jok: Bool

extern geojson.(*FeatureCollection).MarshalJSON(fc) (b, err)
  allocates
  fresh b
  modifies jcalls, jdoc, jout, jok
  ghostset jcalls := old(jcalls) + 1
  ghostset jdoc := ref(fc)
  ghostset jout := bytes(b)
  ghostset jok := err == nil

extern geojson.(*Feature).MarshalJSON(f) (b, err)
  allocates
  fresh b
  modifies jcalls, jdoc, jout, jok
  ghostset jcalls := old(jcalls) + 1
  ghostset jdoc := ref(f)
  ghostset jout := bytes(b)
  ghostset jok := err == nil

extern s2.(CellID).ToToken(c) (s)
  result s = token(c)

extern s2.(CellID).String(c) (s)
  result s = uf("cellstr", "Bytes", c)

extern strconv.FormatUint(n, base) (s)
  result s = uf("formatuint", "Bytes", n, base)

extern s2.CellFromCellID(id) (c)
  result c = goval("s2.Cell", "CellFromCellID", id)

extern s2.(Cell).Vertex(c, k) (p)
  requires 0 <= k && k <= 3
  result p = goval("s2.Point", "Vertex", c, k)

extern s2.LatLngFromPoint(p) (ll)
  result ll = goval("s2.LatLng", "LatLngFromPoint", p)

extern s1.(Angle).Degrees(a) (d)
  result d = uf("degrees", "Real", a)

def token(c) = uf("token", "Bytes", c)
def corner(c, k) = goval("s2.LatLng", "LatLngFromPoint", goval("s2.Point", "Vertex", goval("s2.Cell", "CellFromCellID", c), k))
def clng(c, k) = uf("degrees", "Real", corner(c, k).Lng)
def clat(c, k) = uf("degrees", "Real", corner(c, k).Lat)
def keyIn(F, k) = in(F.Properties, k)
def textProp(F, k, t) = in(F.Properties, k) && typeis(mval(F.Properties, k), "string") && as(mval(F.Properties, k), "string") == t
def cellProps(F, c) = textProp(F, "id", token(c)) && textProp(F, "uid", uf("formatuint", "Bytes", c, 10)) && textProp(F, "str", uf("cellstr", "Bytes", c)) && in(F.Properties, "level") && typeis(mval(F.Properties, "level"), "int") && as(mval(F.Properties, "level"), "int") == uf("s2level", "int", c)
def onlyCellProps(F) = forall k: Bytes {in(F.Properties, k)} :: in(F.Properties, k) ==> k == "id" || k == "uid" || k == "str" || k == "level"
def quad(g) = isPoly(g) && asPoly(g) != nil && asPoly(g).layout == 1 && asPoly(g).stride == 2 && len(asPoly(g).ends) == 1 && asPoly(g).ends[0] == 10 && len(asPoly(g).flatCoords) == 10
def ringOf(g, c) = asPoly(g).flatCoords[0] == clng(c, 0) && asPoly(g).flatCoords[1] == clat(c, 0) && asPoly(g).flatCoords[2] == clng(c, 1) && asPoly(g).flatCoords[3] == clat(c, 1) && asPoly(g).flatCoords[4] == clng(c, 2) && asPoly(g).flatCoords[5] == clat(c, 2) && asPoly(g).flatCoords[6] == clng(c, 3) && asPoly(g).flatCoords[7] == clat(c, 3) && asPoly(g).flatCoords[8] == clng(c, 0) && asPoly(g).flatCoords[9] == clat(c, 0)
def plainFeature(F) = F != nil && blen(F.ID) == 0 && F.BBox == nil && F.Properties != nil
def memFeature(F) = isalloc(F) && isalloc(F.Properties) && isalloc(F.Geometry)
def memPoly(g) = isalloc(asPoly(g).flatCoords) && isalloc(asPoly(g).ends)

invs cellrender
  inv top own(?fc: *geojson.FeatureCollection): (fc.Features == nil || allocated(fc.Features)) && isalloc(fc.Features)
  inv top count(?fc: *geojson.FeatureCollection, ?n: int): fc.BBox == nil && len(fc.Features) == n && n <= len(cu)
  inv top mem(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> memFeature(fc.Features[i]) && memPoly(fc.Features[i].Geometry)
  inv top plain(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> plainFeature(fc.Features[i]) && quad(fc.Features[i].Geometry)
  inv top props(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> cellProps(fc.Features[i], cu[i])
  inv top onlyprops(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> onlyCellProps(fc.Features[i])
  inv top rings(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> ringOf(fc.Features[i].Geometry, cu[i])
  inv deep vertices(?cs: []float64, ?n: int, ?c: uint64): (n > 0 ==> cs[0] == clng(c, 0) && cs[1] == clat(c, 0)) && (n > 1 ==> cs[2] == clng(c, 1) && cs[3] == clat(c, 1)) && (n > 2 ==> cs[4] == clng(c, 2) && cs[5] == clat(c, 2)) && (n > 3 ==> cs[6] == clng(c, 3) && cs[7] == clat(c, 3))
end

def fcDoc() = at("geojson.FeatureCollection", jdoc)

fn s2tools.CellUnionToGeoJSON(cu) (res)
  props C22
  use cellrender
  allocates
  modifies jcalls, jdoc, jout, jok
  ensures [C22] once: jcalls == old(jcalls) + 1 && bytes(res) == jout
  ensures [C22] count: fcDoc().BBox == nil && len(fcDoc().Features) == len(cu)
  ensures [C22] shape: forall i: Int {fcDoc().Features[i]} :: 0 <= i && i < len(cu) ==> plainFeature(fcDoc().Features[i]) && quad(fcDoc().Features[i].Geometry)
  ensures [C22] props: forall i: Int {fcDoc().Features[i]} :: 0 <= i && i < len(cu) ==> cellProps(fcDoc().Features[i], cu[i])
  ensures [C22] onlyprops: forall i: Int {fcDoc().Features[i]} :: 0 <= i && i < len(cu) ==> onlyCellProps(fcDoc().Features[i])
  ensures [C22] ring: forall i: Int {fcDoc().Features[i]} :: 0 <= i && i < len(cu) ==> ringOf(fcDoc().Features[i].Geometry, cu[i])

invs tokens
  inv done(?r: []string, ?n: int): forall i: Int {r[i]} :: 0 <= i && i < n ==> r[i] == token(cu[i])
end

fn s2tools.CellUnionToTokens(cu) (res)
  props C22
  use tokens
  allocates
  fresh res
  ensures [C22] tokens: len(res) == len(cu) && forall i: Int {res[i]} :: 0 <= i && i < len(cu) ==> res[i] == token(cu[i])

# a collection of polygons as pushed one after another
ghost mpn: Int
ghost mpp: (Array Int Int)

extern geom.NewMultiPolygon(layout) (mp)
  allocates
  fresh mp
  ensures mp != nil && mp.layout == layout && mpn(mp) == 0

extern geom.(*MultiPolygon).Push(mp, p) (err)
  requires mp != nil && p != nil
  allocates
  modifies deref(mp), mpn(mp), mpp(mp)
  ensures (err == nil) == (mp.layout == p.layout) && mp.layout == old(mp.layout)
  ghostset mpp(mp) := if old(mp.layout) == p.layout then store(old(mpp(mp)), old(mpn(mp)), ref(p)) else old(mpp(mp))
  ghostset mpn(mp) := old(mpn(mp)) + (if old(mp.layout) == p.layout then 1 else 0)

def isMulti(g) = typeis(g, "*geom.MultiPolygon")
def asMulti(g) = as(g, "*geom.MultiPolygon")
def polyRef(g, j) = at("geom.Polygon", mpp(asMulti(g))[j])
def xyPoly(p, C) = p.layout == 1 && p.stride == 2 && sameslice(p.flatCoords, C) && len(p.ends) == 1 && p.ends[0] == len(C)
def featGeom(g, G) = (G.Type == 0 ==> isPoint(g) && asPoint(g) != nil && asPoint(g).layout == 1 && asPoint(g).stride == 2 && sameslice(asPoint(g).flatCoords, G.Coordinates)) && (G.Type == 3 ==> isLine(g) && asLine(g) != nil && asLine(g).layout == 1 && asLine(g).stride == 2 && sameslice(asLine(g).flatCoords, G.Coordinates)) && (G.Type == 1 ==> isPoly(g) && asPoly(g) != nil && xyPoly(asPoly(g), G.Coordinates)) && (G.Type == 2 ==> isMulti(g) && asMulti(g) != nil && asMulti(g).layout == 1 && mpn(asMulti(g)) == len(G.Geometries))
def jsonable(p) = number(p) || text(p) || truth(p)

invs features
  inv top own(?fc: *geojson.FeatureCollection): (fc.Features == nil || allocated(fc.Features)) && isalloc(fc.Features)
  inv top count(?fc: *geojson.FeatureCollection, ?n: int): fc.BBox == nil && len(fc.Features) == n && n <= len(geos)
  inv top mem(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> fc.Features[i] != nil && isalloc(fc.Features[i]) && isalloc(fc.Features[i].Properties) && fc.Features[i].Properties != nil && isalloc(fc.Features[i].Geometry)
  inv top plain(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> blen(fc.Features[i].ID) == 0 && fc.Features[i].BBox == nil
  inv top polymem(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) && isPoly(fc.Features[i].Geometry) ==> isalloc(asPoly(fc.Features[i].Geometry).ends)
  inv top geometry(?fc: *geojson.FeatureCollection): forall i: Int {fc.Features[i]} :: 0 <= i && i < len(fc.Features) ==> featGeom(fc.Features[i].Geometry, geos[i].Geometry)
  inv top multi(?fc: *geojson.FeatureCollection): forall i: Int, j: Int {mpp(asMulti(fc.Features[i].Geometry))[j]} :: 0 <= i && i < len(fc.Features) && geos[i].Geometry.Type == 2 && 0 <= j && j < len(geos[i].Geometry.Geometries) ==> isalloc(polyRef(fc.Features[i].Geometry, j)) && isalloc(polyRef(fc.Features[i].Geometry, j).ends) && xyPoly(polyRef(fc.Features[i].Geometry, j), geos[i].Geometry.Geometries[j].Coordinates)
  inv top names(?fc: *geojson.FeatureCollection): forall i: Int, k: Bytes {in(fc.Features[i].Properties, k)} :: 0 <= i && i < len(fc.Features) ==> in(fc.Features[i].Properties, k) == (in(geos[i].Properties, k) && jsonable(mval(geos[i].Properties, k)))
  inv top values(?fc: *geojson.FeatureCollection): forall i: Int, k: Bytes {in(fc.Features[i].Properties, k)} {mval(fc.Features[i].Properties, k)} :: 0 <= i && i < len(fc.Features) && in(fc.Features[i].Properties, k) ==> jsonOf(mval(fc.Features[i].Properties, k), mval(geos[i].Properties, k))
  inv deep pushed(?mp: *geom.MultiPolygon, ?n: int): mp != nil && allocated(mp) && mp.layout == 1 && mpn(mp) == n
  inv deep polys(?mp: *geom.MultiPolygon, ?g: *index/geodata.GeoData): forall j: Int {mpp(mp)[j]} :: 0 <= j && j < mpn(mp) ==> isalloc(at("geom.Polygon", mpp(mp)[j])) && isalloc(at("geom.Polygon", mpp(mp)[j]).ends) && xyPoly(at("geom.Polygon", mpp(mp)[j]), g.Geometry.Geometries[j].Coordinates)
end

fn index/geodata.ToGeoJSONFeatureCollection(geos) (b, err)
  props C22
  use features
  requires forall i: Int {geos[i]} :: 0 <= i && i < len(geos) ==> geos[i] != nil && geos[i].Geometry != nil
  requires mem: forall i: Int {geos[i]} :: 0 <= i && i < len(geos) ==> isalloc(geos[i].Geometry) && isalloc(geos[i].Geometry.Coordinates) && isalloc(geos[i].Geometry.Geometries) && isalloc(geos[i].Properties)
  requires partmem: forall i: Int, j: Int {geos[i].Geometry.Geometries[j]} :: 0 <= i && i < len(geos) && 0 <= j && j < len(geos[i].Geometry.Geometries) ==> isalloc(geos[i].Geometry.Geometries[j]) && isalloc(geos[i].Geometry.Geometries[j].Coordinates)
  requires values: forall i: Int, k: Bytes {in(geos[i].Properties, k)} {mval(geos[i].Properties, k)} :: 0 <= i && i < len(geos) && in(geos[i].Properties, k) ==> goodValue(mval(geos[i].Properties, k))
  requires parts: forall i: Int, j: Int {geos[i].Geometry.Geometries[j]} :: 0 <= i && i < len(geos) && 0 <= j && j < len(geos[i].Geometry.Geometries) ==> geos[i].Geometry.Geometries[j] != nil
  allocates
  modifies jcalls, jdoc, jout, jok
  ensures [C22] once: jcalls == old(jcalls) + 1 && bytes(b) == jout && (err == nil) == jok
  ensures [C22] count: fcDoc().BBox == nil && len(fcDoc().Features) == len(geos)
  ensures [C22] plain: forall i: Int {fcDoc().Features[i]} :: 0 <= i && i < len(geos) ==> fcDoc().Features[i] != nil && blen(fcDoc().Features[i].ID) == 0 && fcDoc().Features[i].BBox == nil
  ensures [C22] geometry: forall i: Int {fcDoc().Features[i]} :: 0 <= i && i < len(geos) ==> featGeom(fcDoc().Features[i].Geometry, geos[i].Geometry)
  ensures [C22] multi: forall i: Int, j: Int {mpp(asMulti(fcDoc().Features[i].Geometry))[j]} :: 0 <= i && i < len(geos) && geos[i].Geometry.Type == 2 && 0 <= j && j < len(geos[i].Geometry.Geometries) ==> xyPoly(polyRef(fcDoc().Features[i].Geometry, j), geos[i].Geometry.Geometries[j].Coordinates)
  ensures [C22] names: forall i: Int, k: Bytes {in(fcDoc().Features[i].Properties, k)} :: 0 <= i && i < len(geos) ==> in(fcDoc().Features[i].Properties, k) == (in(geos[i].Properties, k) && jsonable(mval(geos[i].Properties, k)))
  ensures [C22] values: forall i: Int, k: Bytes {in(fcDoc().Features[i].Properties, k)} :: 0 <= i && i < len(geos) && in(fcDoc().Features[i].Properties, k) ==> jsonOf(mval(fcDoc().Features[i].Properties, k), mval(geos[i].Properties, k))

def fDoc() = at("geojson.Feature", jdoc)
def onlyPoints(g, n) = forall i: Int {g[i]} :: 0 <= i && i < n ==> g[i].Geometry.Type == 0

invs joined
  inv own(?f: cur []float64): isalloc(f) && (f == nil || allocated(f))
  inv points(?f: cur []float64, ?n: int): n <= len(geos) && len(f) == 2 * n && onlyPoints(geos, n)
  inv xy(?f: cur []float64, ?n: int): forall i: Int {geos[i]} :: 0 <= i && i < n ==> f[2 * i] == geos[i].Geometry.Coordinates[0] && f[2 * i + 1] == geos[i].Geometry.Coordinates[1]
end

fn index/geodata.PointsToGeoJSONPolyLines(geos) (b, err)
  props C22
  use joined
  requires forall i: Int {geos[i]} :: 0 <= i && i < len(geos) ==> geos[i] != nil && geos[i].Geometry != nil && (geos[i].Geometry.Type == 0 ==> len(geos[i].Geometry.Coordinates) == 2)
  requires mem: forall i: Int {geos[i]} :: 0 <= i && i < len(geos) ==> isalloc(geos[i].Geometry) && isalloc(geos[i].Geometry.Coordinates) && isalloc(geos[i].Properties)
  requires values: len(geos) > 0 ==> forall k: Bytes {in(geos[0].Properties, k)} {mval(geos[0].Properties, k)} :: in(geos[0].Properties, k) ==> goodValue(mval(geos[0].Properties, k))
  allocates
  modifies jcalls, jdoc, jout, jok
  ensures [C22] refuses: !onlyPoints(geos, len(geos)) ==> err != nil && b == nil && jcalls == old(jcalls)
  ensures [C22] once: onlyPoints(geos, len(geos)) ==> jcalls == old(jcalls) + 1 && bytes(b) == jout && (err == nil) == jok && blen(fDoc().ID) == 0 && fDoc().BBox == nil
  ensures [C22] none: len(geos) == 0 ==> fDoc().Geometry == nil && fDoc().Properties == nil
  ensures [C22] line: onlyPoints(geos, len(geos)) && len(geos) > 0 ==> isLine(fDoc().Geometry) && asLine(fDoc().Geometry) != nil && asLine(fDoc().Geometry).layout == 1 && asLine(fDoc().Geometry).stride == 2 && len(asLine(fDoc().Geometry).flatCoords) == 2 * len(geos)
  ensures [C22] positions: onlyPoints(geos, len(geos)) && len(geos) > 0 ==> forall i: Int {geos[i]} :: 0 <= i && i < len(geos) ==> asLine(fDoc().Geometry).flatCoords[2 * i] == geos[i].Geometry.Coordinates[0] && asLine(fDoc().Geometry).flatCoords[2 * i + 1] == geos[i].Geometry.Coordinates[1]
  ensures [C22] names: onlyPoints(geos, len(geos)) && len(geos) > 0 ==> forall k: Bytes {in(fDoc().Properties, k)} :: in(fDoc().Properties, k) == (in(geos[0].Properties, k) && jsonable(mval(geos[0].Properties, k)))
  ensures [C22] values: onlyPoints(geos, len(geos)) && len(geos) > 0 ==> forall k: Bytes {in(fDoc().Properties, k)} :: in(fDoc().Properties, k) ==> jsonOf(mval(fDoc().Properties, k), mval(geos[0].Properties, k))
