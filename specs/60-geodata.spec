# C17: geometry conversion
inline geom.(*geom0).FlatCoords geom.(*geom0).Stride geom.(*Polygon).NumLinearRings geom.(*Polygon).LinearRing geom.NewLinearRingFlat geom.(Layout).Stride geom.NewPointFlat geom.NewPolygonFlat geom.NewLineStringFlat

# C holds the first two numbers of each of the positions in the first n numbers of F, s numbers apart
def xys(C, F, n, s) = len(C) % 2 == 0 && (forall k: Int {strided(s, k)} :: 0 <= k && 2 * k < len(C) ==> strided(s, k) + 1 < n && C[2 * k] == F[strided(s, k)] && C[2 * k + 1] == F[strided(s, k) + 1])
def allxys(C, F, n, s) = xys(C, F, n, s) && strided(s, len(C) / 2) + 1 >= n

invs positions
  inv xy(?res: cur []float64, ?f: []float64, ?i: int, ?s: any int): 2 <= s && s <= 1000000 && 0 <= i && i < len(f) + s && i == strided(s, len(res) / 2) && xys(res, f, len(f), s)
end

def asPoint(g) = as(g, "*geom.Point")
def asPoly(g) = as(g, "*geom.Polygon")
def asLine(g) = as(g, "*geom.LineString")
def isPoint(g) = typeis(g, "*geom.Point")
def isPoly(g) = typeis(g, "*geom.Polygon")
def isLine(g) = typeis(g, "*geom.LineString")
def kindOf(g) = if isPoint(g) then 0 else if isPoly(g) then 1 else 3

fn index/geodata.GeomToGeoData(g, gd) (err)
  props C17
  use positions
  requires gd != nil
  requires isPoint(g) ==> asPoint(g) != nil && 2 <= asPoint(g).stride && asPoint(g).stride <= 1000000
  requires isLine(g) ==> asLine(g) != nil && 2 <= asLine(g).stride && asLine(g).stride <= 1000000
  requires isPoly(g) ==> asPoly(g) != nil && 2 <= asPoly(g).stride && asPoly(g).stride <= 1000000
  requires isPoly(g) && len(asPoly(g).ends) > 0 ==> 0 <= asPoly(g).ends[0] && asPoly(g).ends[0] <= len(asPoly(g).flatCoords)
  allocates
  modifies gd.Geometry
  ensures [C17] accepts: (err == nil) == (isPoint(g) || isPoly(g) || isLine(g))
  ensures [C17] untouched: err != nil ==> gd.Geometry == old(gd.Geometry)
  ensures [C17] type: err == nil ==> gd.Geometry != nil && gd.Geometry.Type == kindOf(g)
  ensures [C17] point: isPoint(g) ==> allxys(gd.Geometry.Coordinates, asPoint(g).flatCoords, len(asPoint(g).flatCoords), asPoint(g).stride)
  ensures [C17] line: isLine(g) ==> allxys(gd.Geometry.Coordinates, asLine(g).flatCoords, len(asLine(g).flatCoords), asLine(g).stride)
  ensures [C17] ring: isPoly(g) && len(asPoly(g).ends) > 0 ==> allxys(gd.Geometry.Coordinates, asPoly(g).flatCoords, asPoly(g).ends[0], asPoly(g).stride)
  ensures [C17] noring: isPoly(g) && len(asPoly(g).ends) == 0 ==> len(gd.Geometry.Coordinates) == 0

fn index/geodata.GeoDataToGeom(gd) (g, err)
  props C17
  requires gd != nil && gd.Geometry != nil
  allocates
  let T = gd.Geometry.Type
  let C = gd.Geometry.Coordinates
  ensures [C17] accepts: (err == nil) == (T == 0 || T == 1 || T == 3)
  ensures [C17] type: err == nil ==> (isPoint(g) || isPoly(g) || isLine(g)) && kindOf(g) == T
  ensures [C17] point: err == nil && T == 0 ==> asPoint(g) != nil && asPoint(g).layout == 1 && asPoint(g).stride == 2 && sameslice(asPoint(g).flatCoords, C)
  ensures [C17] line: err == nil && T == 3 ==> asLine(g) != nil && asLine(g).layout == 1 && asLine(g).stride == 2 && sameslice(asLine(g).flatCoords, C)
  ensures [C17] polygon: err == nil && T == 1 ==> asPoly(g) != nil && asPoly(g).layout == 1 && asPoly(g).stride == 2 && sameslice(asPoly(g).flatCoords, C) && len(asPoly(g).ends) == 1 && asPoly(g).ends[0] == len(C)

# C18: property conversion
def scalar(v) = typeis(v, "bool") || typeis(v, "int") || typeis(v, "float64") || typeis(v, "string")
def isNull(v) = v == nil
# the protobuf value p stands for the JSON value v
def same(p, v) = p != nil && (if typeis(v, "bool") then typeis(p.Kind, "*spb.Value_BoolValue") && as(p.Kind, "*spb.Value_BoolValue").BoolValue == as(v, "bool")
  else if typeis(v, "string") then typeis(p.Kind, "*spb.Value_StringValue") && as(p.Kind, "*spb.Value_StringValue").StringValue == as(v, "string")
  else if typeis(v, "float64") then typeis(p.Kind, "*spb.Value_NumberValue") && as(p.Kind, "*spb.Value_NumberValue").NumberValue == as(v, "float64")
  else if typeis(v, "int") then typeis(p.Kind, "*spb.Value_NumberValue") && as(p.Kind, "*spb.Value_NumberValue").NumberValue == uf("i2f", "Real", as(v, "int")) else false)

def has(m, k) = m != nil && in(m, k)

invs props
  inv read(?r: range map[string]interface{}): forall k: Bytes {rank(r, k)} :: in(rmap(r), k) && rank(r, k) < rpos(r) ==> isNull(mval(rmap(r), k)) || scalar(mval(rmap(r), k))
  inv kept(?r: range map[string]interface{}, ?m: map[string]*spb.Value): forall k: Bytes {rank(r, k)} {in(m, k)} {mval(m, k)} :: in(rmap(r), k) && rank(r, k) < rpos(r) && !isNull(mval(rmap(r), k)) ==> in(m, k) && same(mval(m, k), mval(rmap(r), k))
  inv only(?r: range map[string]interface{}, ?m: map[string]*spb.Value): forall k: Bytes {in(m, k)} :: in(m, k) ==> in(rmap(r), k) && rank(r, k) < rpos(r) && !isNull(mval(rmap(r), k))
  inv mem(?m: map[string]*spb.Value): forall k: Bytes {mval(m, k)} :: in(m, k) ==> isalloc(mval(m, k)) && isalloc(mval(m, k).Kind)
  inv put(?r: range map[string]*spb.Value): forall k: Bytes {in(gd.Properties, k)} {mval(gd.Properties, k)} :: if in(rmap(r), k) && rank(r, k) < rpos(r) then in(gd.Properties, k) && mval(gd.Properties, k) == mval(rmap(r), k) else has(gd.Properties, k) == old(has(gd.Properties, k)) && (has(gd.Properties, k) ==> mval(gd.Properties, k) == old(mval(gd.Properties, k)))
end

fn index/geodata.PropertiesToGeoData(f, gd) (err)
  props C18
  use props
  requires f != nil && gd != nil
  let P = f.Properties
  allocates
  modifies gd.Properties, map(gd.Properties)
  ensures [C18] accepts: (err == nil) == (forall k: Bytes {in(P, k)} {mval(P, k)} :: in(P, k) ==> isNull(mval(P, k)) || scalar(mval(P, k)))
  ensures [C18] kept: err == nil ==> forall k: Bytes {in(P, k)} {mval(P, k)} :: in(P, k) && !isNull(mval(P, k)) ==> in(gd.Properties, k) && same(mval(gd.Properties, k), mval(P, k))
  ensures [C18] others: forall k: Bytes {in(gd.Properties, k)} :: err != nil || !in(P, k) || isNull(mval(P, k)) ==> has(gd.Properties, k) == old(has(gd.Properties, k)) && (has(gd.Properties, k) ==> mval(gd.Properties, k) == old(mval(gd.Properties, k)))
  ensures [C18] untouched: err != nil ==> gd.Properties == old(gd.Properties)

def number(p) = typeis(p.Kind, "*spb.Value_NumberValue")
def text(p) = typeis(p.Kind, "*spb.Value_StringValue")
def truth(p) = typeis(p.Kind, "*spb.Value_BoolValue")
def jsonOf(v, p) = if number(p) then typeis(v, "float64") && as(v, "float64") == as(p.Kind, "*spb.Value_NumberValue").NumberValue
  else if text(p) then typeis(v, "string") && as(v, "string") == as(p.Kind, "*spb.Value_StringValue").StringValue
  else truth(p) && typeis(v, "bool") && as(v, "bool") == as(p.Kind, "*spb.Value_BoolValue").BoolValue

def goodValue(p) = p != nil && (number(p) ==> as(p.Kind, "*spb.Value_NumberValue") != nil) && (text(p) ==> as(p.Kind, "*spb.Value_StringValue") != nil) && (truth(p) ==> as(p.Kind, "*spb.Value_BoolValue") != nil)

invs jsonmap
  inv done(?r: range map[string]*spb.Value, ?m: map[string]interface{}): forall k: Bytes {in(m, k)} {mval(m, k)} {rank(r, k)} :: in(m, k) == (in(rmap(r), k) && rank(r, k) < rpos(r) && (number(mval(rmap(r), k)) || text(mval(rmap(r), k)) || truth(mval(rmap(r), k)))) && (in(m, k) ==> jsonOf(mval(m, k), mval(rmap(r), k)))
end

fn index/geodata.PropertiesToJSONMap(src) (res)
  props C18 C22
  use jsonmap
  requires values: forall k: Bytes {in(src, k)} {mval(src, k)} :: in(src, k) ==> goodValue(mval(src, k))
  allocates
  fresh res
  ensures [C18 C22] names: forall k: Bytes {in(res, k)} {in(src, k)} :: in(res, k) == (in(src, k) && (number(mval(src, k)) || text(mval(src, k)) || truth(mval(src, k))))
  ensures [C18 C22] values: forall k: Bytes {in(res, k)} {mval(res, k)} :: in(res, k) ==> jsonOf(mval(res, k), mval(src, k))

fn index/geodata.GeoJSONFeatureToGeoData(f, gd) (err)
  props C17 C18
  requires f != nil && gd != nil
  let P = f.Properties
  let g = f.Geometry
  requires isPoint(g) ==> asPoint(g) != nil && 2 <= asPoint(g).stride && asPoint(g).stride <= 1000000
  requires isLine(g) ==> asLine(g) != nil && 2 <= asLine(g).stride && asLine(g).stride <= 1000000
  requires isPoly(g) ==> asPoly(g) != nil && 2 <= asPoly(g).stride && asPoly(g).stride <= 1000000
  requires isPoly(g) && len(asPoly(g).ends) > 0 ==> 0 <= asPoly(g).ends[0] && asPoly(g).ends[0] <= len(asPoly(g).flatCoords)
  allocates
  modifies gd.Geometry, gd.Properties, map(gd.Properties)
  ensures [C17 C18] accepts: (err == nil) == ((isPoint(g) || isPoly(g) || isLine(g)) && (forall k: Bytes {in(P, k)} {mval(P, k)} :: in(P, k) ==> isNull(mval(P, k)) || scalar(mval(P, k))))
  ensures [C17] untouched: err != nil ==> gd.Geometry == old(gd.Geometry)
  ensures [C17] type: err == nil ==> gd.Geometry != nil && gd.Geometry.Type == kindOf(g)
  ensures [C17] point: err == nil && isPoint(g) ==> allxys(gd.Geometry.Coordinates, asPoint(g).flatCoords, len(asPoint(g).flatCoords), asPoint(g).stride)
  ensures [C17] line: err == nil && isLine(g) ==> allxys(gd.Geometry.Coordinates, asLine(g).flatCoords, len(asLine(g).flatCoords), asLine(g).stride)
  ensures [C17] ring: err == nil && isPoly(g) && len(asPoly(g).ends) > 0 ==> allxys(gd.Geometry.Coordinates, asPoly(g).flatCoords, asPoly(g).ends[0], asPoly(g).stride)
  ensures [C18] kept: err == nil ==> forall k: Bytes {in(P, k)} {mval(P, k)} :: in(P, k) && !isNull(mval(P, k)) ==> in(gd.Properties, k) && same(mval(gd.Properties, k), mval(P, k))
  ensures [C18] others: forall k: Bytes {in(gd.Properties, k)} :: !in(P, k) || isNull(mval(P, k)) ==> has(gd.Properties, k) == old(has(gd.Properties, k)) && (has(gd.Properties, k) ==> mval(gd.Properties, k) == old(mval(gd.Properties, k)))
