# C06: indexing writes
extern s2.LoopFromPoints(pts) (l)
  allocates
  fresh l
  ensures ok: l != nil
  ensures state: !lnormed(l) && lnum(l) == len(pts) && lpts(l) == comp(i, pval(pts[i]))

extern s2.(*Loop).IsEmpty(l) (b)
  requires l != nil
  ghostset degen := old(degen) || b

extern s2.(*Loop).IsFull(l) (b)
  requires l != nil
  ghostset degen := old(degen) || b

extern s2.(*Loop).Normalize(l)
  requires l != nil
  ghostset lnormed(l) := true

extern s2.(CellID).Parent(c, level) (p)
  requires range: 0 <= level && level <= 30
  result p = uf("parent", "Int", c, level)
  ensures uf("clevel", "Int", p) == level && uf("cvalid", "Bool", p)

# a vertex of a coordinate list
def vtx(C, k) = goval("s2.Point", "PointFromLatLng", latlng(C[2 * k + 1], C[2 * k]))
def pv(C, k) = pval(vtx(C, k))
def nring(C) = if goeq(vtx(C, 0), vtx(C, len(C) / 2 - 1)) then len(C) / 2 - 1 else len(C) / 2
# call q of the coverer was for the polygon with the ring C, in either direction
def ring(q, C, cov, inter) = len(C) >= 6 && len(C) % 2 == 0 && rkind[q] == 2 && rcv[q] == ref(cov) && rint[q] == inter && rnum[q] == nring(C) && ((forall k: Int {rpts[q][k]} :: 0 <= k && k < nring(C) ==> rpts[q][k] == pv(C, k)) || (forall k: Int {rpts[q][k]} :: 0 <= k && k < nring(C) ==> rpts[q][k] == pv(C, len(C) / 2 - 1 - k)))

invs vertices
  inv points(?p: []s2.Point, ?i: int): forall k: Int {p[k].Vector.X} {p[k].Vector.Y} {p[k].Vector.Z} :: 0 <= k && 2 * k < i ==> p[k] == vtx(c, k)
  inv down(?p: []s2.Point, ?i: int): len(p) == len(c) / 2 && i < len(p) && forall k: Int {p[k].Vector.X} {p[k].Vector.Y} {p[k].Vector.Z} :: 0 <= k && k < len(p) ==> (i < k && k < len(p) - 1 - i ==> p[k] == vtx(c, len(p) - 1 - k)) && (!(i < k && k < len(p) - 1 - i) ==> p[k] == vtx(c, k))
  inv up(?p: []s2.Point, ?i: int): len(p) == len(c) / 2 && forall k: Int {p[k].Vector.X} {p[k].Vector.Y} {p[k].Vector.Z} :: 0 <= k && k < len(p) ==> (k < i || len(p) - 1 - i < k ==> p[k] == vtx(c, len(p) - 1 - k)) && (!(k < i || len(p) - 1 - i < k) ==> p[k] == vtx(c, k))
end

fn index/geodata.LoopFromCoordinatesAndCCW(c, checkCCW) (l)
  props C16
  use vertices
  allocates
  ensures [C16] invalid: (l == nil) == (len(c) % 2 != 0 || len(c) < 6)
  ensures [C16] fresh: l != nil ==> allocated(l)
  ensures [C16] count: l != nil ==> lnum(l) == nring(c) && !lnormed(l)
  ensures [C16] listed: l != nil && !checkCCW ==> forall k: Int {lpts(l)[k]} :: 0 <= k && k < nring(c) ==> lpts(l)[k] == pv(c, k)
  ensures [C16] either: l != nil ==> ((forall k: Int {lpts(l)[k]} :: 0 <= k && k < nring(c) ==> lpts(l)[k] == pv(c, k)) || (forall k: Int {lpts(l)[k]} :: 0 <= k && k < nring(c) ==> lpts(l)[k] == pv(c, len(c) / 2 - 1 - k)))

invs covers
  inv points(?p: s2.Polyline, ?i: int): forall k: Int {p[k].Vector.X} {p[k].Vector.Y} {p[k].Vector.Z} :: 0 <= k && 2 * k < i ==> p[k] == vtx(C, k)
  inv count(?n: int): rcalls == Q + n
  inv rings(?n: int): forall j: Int {G[j]} :: 0 <= j && j < n ==> G[j] != nil && ring(Q + j, G[j].Coordinates, coverer, false)
  inv cells(?cu: cur s2.CellUnion): len(cu) == rcatn - N && forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> cu[m] == rcat[N + m]
  inv levels(?cu: cur s2.CellUnion): forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> uf("clevel", "Int", cu[m]) >= clamp30(coverer.MinLevel) && uf("cvalid", "Bool", cu[m])
end

invs icovers
  inv points(?p: s2.Polyline, ?i: int): forall k: Int {p[k].Vector.X} {p[k].Vector.Y} {p[k].Vector.Z} :: 0 <= k && 2 * k < i ==> p[k] == vtx(C, k)
  inv count(?n: int): rcalls == Q + n
  inv rings(?n: int): forall j: Int {G[j]} :: 0 <= j && j < n ==> G[j] != nil && ring(Q + j, G[j].Coordinates, coverer, true)
  inv cells(?cu: cur s2.CellUnion): len(cu) == rcatn - N && forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> cu[m] == rcat[N + m]
  inv levels(?cu: cur s2.CellUnion): forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> uf("clevel", "Int", cu[m]) >= clamp30(coverer.MinLevel) && uf("cvalid", "Bool", cu[m])
end

fn index/geodata.(*GeoData).Cover(gd, coverer) (cu, err)
  props C16
  let g = gd.Geometry
  let T = gd.Geometry.Type
  let C = gd.Geometry.Coordinates
  let G = gd.Geometry.Geometries
  let Q = old(rcalls)
  let N = old(rcatn)
  requires nonnil: gd != nil && coverer != nil
  use covers
  allocates
  fresh cu
  modifies rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ghostset lastcov := seq(cu)
  ghostset lastn := len(cu)
  ghostset lastgd := ref(gd)
  ghostset lastmin := coverer.MinLevel
  ghostset lastmax := coverer.MaxLevel
  ensures [C16] malformed: g == nil || T != 0 && T != 1 && T != 2 && T != 3 ==> err != nil
  ensures [C16] point: g != nil && T == 0 ==> (err == nil) == (len(C) >= 2)
  ensures [C16] pointcell: err == nil && T == 0 ==> len(cu) == 1 && rcalls == Q && cu[0] == uf("parent", "Int", uf("leafcell", "Int", latlng(C[1], C[0])), clamp30(coverer.MinLevel))
  ensures [C16] line: g != nil && T == 3 ==> (err == nil) == (len(C) % 2 == 0)
  ensures [C16] linecells: err == nil && T == 3 ==> rcalls == Q + 1 && rkind[Q] == 3 && rcv[Q] == ref(coverer) && rint[Q] == false && rnum[Q] == len(C) / 2 && (forall k: Int {rpts[Q][k]} :: 0 <= k && k < len(C) / 2 ==> rpts[Q][k] == pv(C, k))
  ensures [C16] polygon: g != nil && T == 1 && len(C) >= 6 && len(C) % 2 == 0 && !degen ==> err == nil
  ensures [C16] ring: err == nil && T == 1 ==> rcalls == Q + 1 && ring(Q, C, coverer, false)
  ensures [C16] multi: g != nil && T == 2 && !degen && (forall j: Int {G[j]} :: 0 <= j && j < len(G) ==> G[j] != nil && len(G[j].Coordinates) >= 6 && len(G[j].Coordinates) % 2 == 0) ==> err == nil
  ensures [C16] rings: err == nil && T == 2 ==> rcalls == Q + len(G) && forall j: Int {G[j]} :: 0 <= j && j < len(G) ==> G[j] != nil && ring(Q + j, G[j].Coordinates, coverer, false)
  ensures [C16] cells: err == nil && T != 0 ==> len(cu) == rcatn - N && forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> cu[m] == rcat[N + m]
  ensures [C16] levels: err == nil ==> forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> uf("clevel", "Int", cu[m]) >= clamp30(coverer.MinLevel) && uf("cvalid", "Bool", cu[m])

fn index/geodata.GeoDataToCoverCellUnion(gd, coverer) (cu, err)
  props C16
  let g = gd.Geometry
  let T = gd.Geometry.Type
  let C = gd.Geometry.Coordinates
  let G = gd.Geometry.Geometries
  let Q = old(rcalls)
  let N = old(rcatn)
  requires nonnil: gd != nil && coverer != nil
  use covers
  allocates
  fresh cu
  modifies rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ghostset lastcov := seq(cu)
  ghostset lastn := len(cu)
  ghostset lastgd := ref(gd)
  ghostset lastmin := coverer.MinLevel
  ghostset lastmax := coverer.MaxLevel
  ensures [C16] malformed: g == nil || T != 0 && T != 1 && T != 2 && T != 3 ==> err != nil
  ensures [C16] point: g != nil && T == 0 ==> (err == nil) == (len(C) >= 2)
  ensures [C16] pointcell: err == nil && T == 0 ==> len(cu) == 1 && rcalls == Q && cu[0] == uf("parent", "Int", uf("leafcell", "Int", latlng(C[1], C[0])), clamp30(coverer.MinLevel))
  ensures [C16] line: g != nil && T == 3 ==> (err == nil) == (len(C) % 2 == 0)
  ensures [C16] linecells: err == nil && T == 3 ==> rcalls == Q + 1 && rkind[Q] == 3 && rcv[Q] == ref(coverer) && rint[Q] == false && rnum[Q] == len(C) / 2 && (forall k: Int {rpts[Q][k]} :: 0 <= k && k < len(C) / 2 ==> rpts[Q][k] == pv(C, k))
  ensures [C16] polygon: g != nil && T == 1 && len(C) >= 6 && len(C) % 2 == 0 && !degen ==> err == nil
  ensures [C16] ring: err == nil && T == 1 ==> rcalls == Q + 1 && ring(Q, C, coverer, false)
  ensures [C16] multi: g != nil && T == 2 && !degen && (forall j: Int {G[j]} :: 0 <= j && j < len(G) ==> G[j] != nil && len(G[j].Coordinates) >= 6 && len(G[j].Coordinates) % 2 == 0) ==> err == nil
  ensures [C16] rings: err == nil && T == 2 ==> rcalls == Q + len(G) && forall j: Int {G[j]} :: 0 <= j && j < len(G) ==> G[j] != nil && ring(Q + j, G[j].Coordinates, coverer, false)
  ensures [C16] cells: err == nil && T != 0 ==> len(cu) == rcatn - N && forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> cu[m] == rcat[N + m]
  ensures [C16] levels: err == nil ==> forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> uf("clevel", "Int", cu[m]) >= clamp30(coverer.MinLevel) && uf("cvalid", "Bool", cu[m])

fn index/geodata.(*GeoData).InteriorCover(gd, coverer) (cu, err)
  props C16
  let g = gd.Geometry
  let T = gd.Geometry.Type
  let C = gd.Geometry.Coordinates
  let G = gd.Geometry.Geometries
  let Q = old(rcalls)
  let N = old(rcatn)
  requires nonnil: gd != nil && coverer != nil
  use icovers
  allocates
  fresh cu
  modifies rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ensures [C16] malformed: g == nil || T != 0 && T != 1 && T != 2 && T != 3 ==> err != nil
  ensures [C16] point: g != nil && T == 0 ==> (err == nil) == (len(C) >= 2)
  ensures [C16] pointcell: err == nil && T == 0 ==> len(cu) == 1 && rcalls == Q && cu[0] == uf("parent", "Int", uf("leafcell", "Int", latlng(C[1], C[0])), clamp30(coverer.MinLevel))
  ensures [C16] line: g != nil && T == 3 ==> (err == nil) == (len(C) % 2 == 0)
  ensures [C16] linecells: err == nil && T == 3 ==> rcalls == Q + 1 && rkind[Q] == 3 && rcv[Q] == ref(coverer) && rint[Q] == true && rnum[Q] == len(C) / 2 && (forall k: Int {rpts[Q][k]} :: 0 <= k && k < len(C) / 2 ==> rpts[Q][k] == pv(C, k))
  ensures [C16] polygon: g != nil && T == 1 && len(C) >= 6 && len(C) % 2 == 0 && !degen ==> err == nil
  ensures [C16] ring: err == nil && T == 1 ==> rcalls == Q + 1 && ring(Q, C, coverer, true)
  ensures [C16] multi: g != nil && T == 2 && !degen && (forall j: Int {G[j]} :: 0 <= j && j < len(G) ==> G[j] != nil && len(G[j].Coordinates) >= 6 && len(G[j].Coordinates) % 2 == 0) ==> err == nil
  ensures [C16] rings: err == nil && T == 2 ==> rcalls == Q + len(G) && forall j: Int {G[j]} :: 0 <= j && j < len(G) ==> G[j] != nil && ring(Q + j, G[j].Coordinates, coverer, true)
  ensures [C16] cells: err == nil && T != 0 ==> len(cu) == rcatn - N && forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> cu[m] == rcat[N + m]
  ensures [C16] levels: err == nil ==> forall m: Int {cu[m]} :: 0 <= m && m < len(cu) ==> uf("clevel", "Int", cu[m]) >= clamp30(coverer.MinLevel) && uf("cvalid", "Bool", cu[m])

invs write
  inv ops(?b: store.KVBatch, ?n: int): bops(b) == geoOps(P, lastcov, n, X) && bmrg(b) == nomrg
end

fn index.(*S2FlatIdx).GeoIndex(idx, gd, id) (err)
  props C06 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let X = bytes(id)
  requires store: idx.KVStore != nil
  requires gd: gd != nil
  requires prefix: ref(idx.prefix) >= 0
  use write
  allocates
  modifies failed, kv(idx.KVStore), lastcov, lastn, lastgd, lastmin, lastmax, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ensures [C06] cover: err == nil ==> lastgd == ref(gd) && lastmin == idx.level && lastmax == idx.level && lastn > 0
  ensures [C06] id: err == nil ==> len(id) > 0
  ensures [C06] written: err == nil ==> forall k: Bytes {kv(idx.KVStore)[k]} :: kv(idx.KVStore)[k] == applyOps(V, geoOps(P, lastcov, lastn, X))[k]
  ensures [C06] none: err != nil ==> kv(idx.KVStore) == V
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2FlatTimeIdx).GeoTimeIndex(idx, gd, t, id) (err)
  props C06 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let X = be64(revts(t)) ++ bytes(id)
  requires store: idx.KVStore != nil
  requires gd: gd != nil
  requires prefix: ref(idx.prefix) >= 0
  use write
  allocates
  modifies failed, kv(idx.KVStore), lastcov, lastn, lastgd, lastmin, lastmax, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ensures [C06] cover: err == nil ==> lastgd == ref(gd) && lastmin == idx.level && lastmax == idx.level && lastn > 0
  ensures [C06] id: err == nil ==> len(id) > 0
  ensures [C06] written: err == nil ==> forall k: Bytes {kv(idx.KVStore)[k]} :: kv(idx.KVStore)[k] == applyOps(V, geoOps(P, lastcov, lastn, X))[k]
  ensures [C06] none: err != nil ==> kv(idx.KVStore) == V
  ensures [C08] failure: err == nil ==> failed == old(failed)

def leafcell(lat, lng) = uf("leafcell", "Int", latlng(lat, lng))

extern s2.CellIDFromLatLng(ll) (c)
  result c = uf("leafcell", "Int", ll)

fn index.(*S2PointIdx).PointKey(idx, lat, lng, id) (k)
  props C06 C07
  requires prefix: ref(idx.prefix) >= 0
  allocates
  ensures [C06] key: bytes(k) == bytes(idx.prefix) ++ be64(leafcell(lat, lng)) ++ bytes(id)
  ensures [C07] owned: allocated(k)

fn index.(*S2PointIdx).PointIndex(idx, lat, lng, id) (k, err)
  props C06 C07 C08
  let V = kv(idx.KVStore)
  let key = bytes(idx.prefix) ++ be64(leafcell(lat, lng)) ++ bytes(id)
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  allocates
  modifies failed, kv(idx.KVStore)
  ensures [C06] id: err == nil ==> len(id) > 0
  ensures [C06] key: err == nil ==> bytes(k) == key
  ensures [C06] written: err == nil ==> forall l: Bytes {kv(idx.KVStore)[l]} :: kv(idx.KVStore)[l] == store(V, key, some(bempty))[l]
  ensures [C06] none: err != nil ==> kv(idx.KVStore) == V
  ensures [C07] owned: err == nil ==> allocated(k)
  ensures [C08] failure: err == nil ==> failed == old(failed)

def pointOK(gd) = gd.Geometry != nil && gd.Geometry.Type == 0 && len(gd.Geometry.Coordinates) >= 2

fn index.(*S2PointIdx).GeoPointKey(idx, gd, id) (k, err)
  props C06 C07
  requires gd: gd != nil
  requires prefix: ref(idx.prefix) >= 0
  allocates
  ensures [C06] ok: (err == nil) == pointOK(gd)
  ensures [C06] key: err == nil ==> bytes(k) == bytes(idx.prefix) ++ be64(leafcell(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0])) ++ bytes(id)
  ensures [C07] owned: err == nil ==> allocated(k)

fn index.(*S2PointIdx).GeoPointIndex(idx, gd, id) (k, err)
  props C06 C07 C08
  let V = kv(idx.KVStore)
  let key = bytes(idx.prefix) ++ be64(leafcell(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0])) ++ bytes(id)
  requires store: idx.KVStore != nil
  requires gd: gd != nil
  requires prefix: ref(idx.prefix) >= 0
  allocates
  modifies failed, kv(idx.KVStore)
  ensures [C06] id: err == nil ==> len(id) > 0 && pointOK(gd)
  ensures [C06] key: err == nil ==> bytes(k) == key
  ensures [C06] written: err == nil ==> forall l: Bytes {kv(idx.KVStore)[l]} :: kv(idx.KVStore)[l] == store(V, key, some(bempty))[l]
  ensures [C06] none: err != nil ==> kv(idx.KVStore) == V
  ensures [C07] owned: err == nil ==> allocated(k)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.NewS2FlatIdx(s, prefix, level) (idx)
  props C01
  allocates
  ensures fields: idx != nil && sameslice(idx.prefix, prefix) && idx.level == level && idx.KVStore == s

fn index.NewS2FlatTimeIdx(s, prefix, level) (idx)
  props C04
  allocates
  ensures fields: idx != nil && sameslice(idx.prefix, prefix) && idx.level == level && idx.KVStore == s

fn index.NewS2PointIdx(s, prefix) (idx)
  props C02
  allocates
  ensures fields: idx != nil && sameslice(idx.prefix, prefix) && idx.KVStore == s

fn index.(*S2FlatIdx).Covering(idx, gd) (cu, err)
  props C06
  requires gd: gd != nil
  allocates
  fresh cu
  modifies lastcov, lastn, lastgd, lastmin, lastmax, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ensures [C06] cover: lastgd == ref(gd) && lastmin == idx.level && lastmax == idx.level
  ensures [C06] same: seq(cu) == lastcov && len(cu) == lastn

fn index.(*S2FlatTimeIdx).Covering(idx, gd) (cu, err)
  props C06
  requires gd: gd != nil
  allocates
  fresh cu
  modifies lastcov, lastn, lastgd, lastmin, lastmax, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn, degen
  ensures [C06] cover: lastgd == ref(gd) && lastmin == idx.level && lastmax == idx.level
  ensures [C06] same: seq(cu) == lastcov && len(cu) == lastn
