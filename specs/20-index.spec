# s2 cells
extern s2.(CellID).Level(c) (l)
  result l = uf("s2level", "int", c)

extern s2.(CellID).RangeMin(c) (l)
  result l = s2rmin(c)

extern s2.(CellID).RangeMax(c) (l)
  result l = s2rmax(c)

extern time.(Time).UnixNano(t) (n)
  result n = uf("unixnano", "int64", t)

def keyPre(p, c) = p ++ be64(c)
def suf(k, d) = bsub(k, d, blen(k))
def unixnano(t) = uf("unixnano", "int64", t)
def revts(t) = wrap(9223372036854775807 - unixnano(t), "uint64")

invs query
  inv cur(?it: store.KVIterator, ?res: []index.GeoID): icur(it) == nthO(itkv(it), itreg(it), len(res))
  inv ids(?it: store.KVIterator, ?res: []index.GeoID): len(res) <= nkeys(V,R) && forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> bytes(res[i]) == suf(nth(V, R, i), D) && allocated(res[i])
  inv wf(?res: []index.GeoID): forall i: Int {nth(V,R,i)} :: 0 <= i && i < len(res) ==> D < blen(nth(V,R,i))
end

fn index.(*S2FlatIdx).GeoIdsAtCell(idx, c) (res, err)
  props C01 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let R = regOf(0, P, 0, 0, c)
  let D = blen(P) + 8
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  use query
  allocates
  fresh res
  modifies failed, readers, iters, itermem
  ensures [C01] level: uf("s2level", "int", c) != idx.level ==> err != nil
  ensures [C01] answered: !failed && uf("s2level", "int", c) == idx.level && (forall i: Int {nth(V,R,i)} :: 0 <= i && i < nkeys(V,R) ==> D < blen(nth(V,R,i))) ==> err == nil
  ensures [C01] count: err == nil ==> len(res) == nkeys(V, R)
  ensures [C01] ids: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> bytes(res[i]) == suf(nth(V, R, i), D)
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2PointIdx).GeoIdsAtCell(idx, c) (res, err)
  props C02 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let R = regOf(1, P, 0, 0, c)
  let D = blen(P) + 8
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  requires valid: 0 <= s2rmin(c) && s2rmin(c) <= s2rmax(c) && s2rmax(c) < 18446744073709551615
  use query
  allocates
  fresh res
  modifies failed, readers, iters, itermem
  ensures [C02] answered: !failed && (forall i: Int {nth(V,R,i)} :: 0 <= i && i < nkeys(V,R) ==> D < blen(nth(V,R,i))) ==> err == nil
  ensures [C02] count: err == nil ==> len(res) == nkeys(V, R)
  ensures [C02] ids: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> bytes(res[i]) == suf(nth(V, R, i), D)
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2FlatTimeIdx).GeoTimeIdsAtCell(idx, c, from, to) (res, err)
  props C04 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let R = regOf(2, P, revts(from), revts(to), c)
  let D = blen(P) + 16
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  use query
  allocates
  fresh res
  modifies failed, readers, iters, itermem
  ensures [C04] level: uf("s2level", "int", c) != idx.level ==> err != nil
  ensures [C04] answered: !failed && uf("s2level", "int", c) == idx.level && (forall i: Int {nth(V,R,i)} :: 0 <= i && i < nkeys(V,R) ==> D < blen(nth(V,R,i))) ==> err == nil
  ensures [C04] count: err == nil ==> len(res) == nkeys(V, R)
  ensures [C04] ids: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> bytes(res[i]) == suf(nth(V, R, i), D)
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

invs union
  inv outer(?m: map[string]struct{}, ?n: int): forall s: Bytes {in(m, s)} {inAny(K, P, A, B, V, D, CS, n, s)} :: in(m, s) == inAny(K, P, A, B, V, D, CS, n, s)
  inv inner(?m: map[string]struct{}, ?n: any int, ?k: int): forall s: Bytes {in(m, s)} {inN(V, regOf(K, P, A, B, CS[n]), D, k, s)} :: in(m, s) == (inAny(K, P, A, B, V, D, CS, n, s) || inN(V, regOf(K, P, A, B, CS[n]), D, k, s))
  inv fill(?r: range map[string]struct{}, ?res: []index.GeoID, ?i: int): forall j: Int {res[j]} {enum(r, j)} :: 0 <= j && j < i ==> bytes(res[j]) == enum(r, j) && allocated(res[j])
  inv levels(?n: int): forall j: Int {CS[j]} :: 0 <= j && j < n ==> uf("s2level", "int", CS[j]) == idx.level
end

invs union0
  inv outer(?m: map[string]struct{}, ?n: int): forall s: Bytes {in(m, s)} {inAny(K, P, A, B, V, D, CS, n, s)} :: in(m, s) == inAny(K, P, A, B, V, D, CS, n, s)
  inv inner(?m: map[string]struct{}, ?n: any int, ?k: int): forall s: Bytes {in(m, s)} {inN(V, regOf(K, P, A, B, CS[n]), D, k, s)} :: in(m, s) == (inAny(K, P, A, B, V, D, CS, n, s) || inN(V, regOf(K, P, A, B, CS[n]), D, k, s))
  inv fill(?r: range map[string]struct{}, ?res: []index.GeoID, ?i: int): forall j: Int {res[j]} {enum(r, j)} :: 0 <= j && j < i ==> bytes(res[j]) == enum(r, j) && allocated(res[j])
end

fn index.(*S2FlatIdx).GeoIdsAtCells(idx, cells) (res, err)
  props C05 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 8
  let CS = seq(cells)
  let K = 0
  let A = 0
  let B = 0
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  use union
  allocates
  fresh res
  modifies failed, readers, iters, itermem
  ensures [C05] level: err == nil ==> forall j: Int {CS[j]} :: 0 <= j && j < len(cells) ==> uf("s2level", "int", CS[j]) == idx.level
  ensures [C05] sound: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> inAny(K, P, A, B, V, D, CS, len(cells), bytes(res[i]))
  ensures [C05] complete: err == nil ==> forall s: Bytes {inAny(K, P, A, B, V, D, CS, len(cells), s)} :: inAny(K, P, A, B, V, D, CS, len(cells), s) ==> exists i: Int {res[i]} :: 0 <= i && i < len(res) && bytes(res[i]) == s
  ensures [C05] distinct: err == nil ==> forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> bytes(res[i]) != bytes(res[j])
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2PointIdx).GeoIdsAtCells(idx, cells) (res, err)
  props C05 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 8
  let CS = seq(cells)
  let K = 1
  let A = 0
  let B = 0
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  requires valid: forall j: Int {CS[j]} :: 0 <= j && j < len(cells) ==> 0 <= s2rmin(CS[j]) && s2rmin(CS[j]) <= s2rmax(CS[j]) && s2rmax(CS[j]) < 18446744073709551615
  use union0
  allocates
  fresh res
  modifies failed, readers, iters, itermem
  ensures [C05] sound: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> inAny(K, P, A, B, V, D, CS, len(cells), bytes(res[i]))
  ensures [C05] complete: err == nil ==> forall s: Bytes {inAny(K, P, A, B, V, D, CS, len(cells), s)} :: inAny(K, P, A, B, V, D, CS, len(cells), s) ==> exists i: Int {res[i]} :: 0 <= i && i < len(res) && bytes(res[i]) == s
  ensures [C05] distinct: err == nil ==> forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> bytes(res[i]) != bytes(res[j])
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2FlatTimeIdx).GeoTimeIdsAtCells(idx, cells, from, to) (res, err)
  props C05 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 16
  let CS = seq(cells)
  let K = 2
  let A = revts(from)
  let B = revts(to)
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  use union
  allocates
  fresh res
  modifies failed, readers, iters, itermem
  ensures [C05] level: err == nil ==> forall j: Int {CS[j]} :: 0 <= j && j < len(cells) ==> uf("s2level", "int", CS[j]) == idx.level
  ensures [C05] sound: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> inAny(K, P, A, B, V, D, CS, len(cells), bytes(res[i]))
  ensures [C05] complete: err == nil ==> forall s: Bytes {inAny(K, P, A, B, V, D, CS, len(cells), s)} :: inAny(K, P, A, B, V, D, CS, len(cells), s) ==> exists i: Int {res[i]} :: 0 <= i && i < len(res) && bytes(res[i]) == s
  ensures [C05] distinct: err == nil ==> forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> bytes(res[i]) != bytes(res[j])
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

extern time.Unix(sec, nsec) (t)

# regions and covers
def latlng(lat, lng) = goval("s2.LatLng", "LatLngFromDegrees", lat, lng)
def clampmod(m) = if m <= 1 then 1 else if m >= 3 then 3 else m
def covarr(min, max, mod, n, region) = uf("covarr", "(Array Int Int)", min, max, clampmod(mod), n, region)
def covlen(min, max, mod, n, region) = uf("covlen", "Int", min, max, clampmod(mod), n, region)
# the area of the flat disc whose radius is the angle of the given metres
def pi() = real("884279719003555/281474976710656")
def circ() = real("40075017")
def angle(radius) = fmul(fmul(fdiv(radius, circ()), pi()), real("2"))
def capOf(lat, lng, radius) = goval("s2.Cap", "CapFromCenterArea", goval("s2.Point", "PointFromLatLng", latlng(lat, lng)), fmul(fmul(pi(), angle(radius)), angle(radius)))
def rectOf(urlat, urlng, bllat, bllng) = goval("s2.Rect", "Rect.AddPoint", goval("s2.Rect", "RectFromLatLng", latlng(bllat, bllng)), latlng(urlat, urlng))

extern s2.LatLngFromDegrees(lat, lng) (ll)
  result ll = latlng(lat, lng)

extern s2.PointFromLatLng(ll) (p)
  result p = goval("s2.Point", "PointFromLatLng", ll)

extern s2.CapFromCenterArea(center, area) (c)
  result c = goval("s2.Cap", "CapFromCenterArea", center, area)

extern s2.RectFromLatLng(ll) (r)
  result r = goval("s2.Rect", "RectFromLatLng", ll)

extern s2.(Rect).AddPoint(r, ll) (q)
  result q = goval("s2.Rect", "Rect.AddPoint", r, ll)

def clamp30(l) = if l < 0 then 0 else if l > 30 then 30 else l
def pval(p) = uf("pval", "Int", p)
# what kind of region: 2 normalized loop, 1 loop as listed, 3 polyline, 0 a value
def regkind(r) = if typeis(r, "*s2.Loop") then (if lnormed(as(r, "*s2.Loop")) then 2 else 1) else if typeis(r, "*s2.Polyline") then 3 else 0

extern s2.(*RegionCoverer).Covering(rc, region) (cu)
  requires region: typeis(region, "*s2.Loop") ==> as(region, "*s2.Loop") != nil
  allocates
  fresh cu
  ghostset rcov := seq(cu)
  ghostset rcovn := len(cu)
  ghostset rkind := store(old(rkind), old(rcalls), regkind(region))
  ghostset rpts := store(old(rpts), old(rcalls), if typeis(region, "*s2.Loop") then lpts(as(region, "*s2.Loop")) else comp(i, pval(deref(as(region, "*s2.Polyline"))[i])))
  ghostset rnum := store(old(rnum), old(rcalls), if typeis(region, "*s2.Loop") then lnum(as(region, "*s2.Loop")) else len(deref(as(region, "*s2.Polyline"))))
  ghostset rint := store(old(rint), old(rcalls), false)
  ghostset rcv := store(old(rcv), old(rcalls), ref(rc))
  ghostset rcalls := old(rcalls) + 1
  ghostset rcat := comp(i, if i < old(rcatn) then old(rcat)[i] else seq(cu)[i - old(rcatn)])
  ghostset rcatn := old(rcatn) + len(cu)
  ensures cells: regkind(region) == 0 ==> seq(cu) == covarr(rc.MinLevel, rc.MaxLevel, rc.LevelMod, rc.MaxCells, region) && len(cu) == covlen(rc.MinLevel, rc.MaxLevel, rc.LevelMod, rc.MaxCells, region)
  ensures valid: forall j: Int {rcov[j]} :: 0 <= j && j < len(cu) ==> 0 <= s2rmin(rcov[j]) && s2rmin(rcov[j]) <= s2rmax(rcov[j]) && s2rmax(rcov[j]) < 18446744073709551615
  ensures sorted: forall i: Int, j: Int {rcov[i], rcov[j]} :: 0 <= i && i < j && j < len(cu) ==> s2rmax(rcov[i]) < s2rmin(rcov[j])
  ensures contains: regkind(region) == 0 ==> forall c: Int {uf("rset", "(Array Int Bool)", region)[c]} :: uf("rset", "(Array Int Bool)", region)[c] && uf("isleaf", "Bool", c) ==> exists j: Int {rcov[j]} :: 0 <= j && j < len(cu) && s2rmin(rcov[j]) <= c && c <= s2rmax(rcov[j])
  ensures levels: forall j: Int {rcov[j]} :: 0 <= j && j < len(cu) ==> uf("clevel", "Int", rcov[j]) >= clamp30(rc.MinLevel) && uf("cvalid", "Bool", rcov[j])

extern s2.(*RegionCoverer).InteriorCovering(rc, region) (cu)
  requires region: typeis(region, "*s2.Loop") ==> as(region, "*s2.Loop") != nil
  allocates
  fresh cu
  ghostset rcov := seq(cu)
  ghostset rcovn := len(cu)
  ghostset rkind := store(old(rkind), old(rcalls), regkind(region))
  ghostset rpts := store(old(rpts), old(rcalls), if typeis(region, "*s2.Loop") then lpts(as(region, "*s2.Loop")) else comp(i, pval(deref(as(region, "*s2.Polyline"))[i])))
  ghostset rnum := store(old(rnum), old(rcalls), if typeis(region, "*s2.Loop") then lnum(as(region, "*s2.Loop")) else len(deref(as(region, "*s2.Polyline"))))
  ghostset rint := store(old(rint), old(rcalls), true)
  ghostset rcv := store(old(rcv), old(rcalls), ref(rc))
  ghostset rcalls := old(rcalls) + 1
  ghostset rcat := comp(i, if i < old(rcatn) then old(rcat)[i] else seq(cu)[i - old(rcatn)])
  ghostset rcatn := old(rcatn) + len(cu)
  ensures levels: forall j: Int {rcov[j]} :: 0 <= j && j < len(cu) ==> uf("clevel", "Int", rcov[j]) >= clamp30(rc.MinLevel) && uf("cvalid", "Bool", rcov[j])

fn index.(*S2FlatIdx).GeoIdsRadiusQuery(idx, lat, lng, radius) (res, err)
  props C05 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 8
  let region = iface(capOf(lat, lng, radius), "s2.Cap")
  let CS = covarr(idx.level, idx.level, 0, 0, region)
  let N = covlen(idx.level, idx.level, 0, 0, region)
  let K = 0
  let A = 0
  let B = 0
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  allocates
  fresh res
  modifies failed, readers, iters, itermem, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn
  ensures [C05] sound: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> inAny(K, P, A, B, V, D, CS, N, bytes(res[i]))
  ensures [C05] complete: err == nil ==> forall s: Bytes {inAny(K, P, A, B, V, D, CS, N, s)} :: inAny(K, P, A, B, V, D, CS, N, s) ==> exists i: Int {res[i]} :: 0 <= i && i < len(res) && bytes(res[i]) == s
  ensures [C05] distinct: err == nil ==> forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> bytes(res[i]) != bytes(res[j])
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2FlatTimeIdx).GeoTimeIdsRadiusQuery(idx, from, to, lat, lng, radius) (res, err)
  props C05 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 16
  let region = iface(capOf(lat, lng, radius), "s2.Cap")
  let CS = covarr(idx.level, idx.level, 0, 0, region)
  let N = covlen(idx.level, idx.level, 0, 0, region)
  let K = 2
  let A = revts(from)
  let B = revts(to)
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  allocates
  fresh res
  modifies failed, readers, iters, itermem, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn
  ensures [C05] sound: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> inAny(K, P, A, B, V, D, CS, N, bytes(res[i]))
  ensures [C05] complete: err == nil ==> forall s: Bytes {inAny(K, P, A, B, V, D, CS, N, s)} :: inAny(K, P, A, B, V, D, CS, N, s) ==> exists i: Int {res[i]} :: 0 <= i && i < len(res) && bytes(res[i]) == s
  ensures [C05] distinct: err == nil ==> forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> bytes(res[i]) != bytes(res[j])
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2FlatTimeIdx).GeoTimeIdsRectQuery(idx, from, to, urlat, urlng, bllat, bllng) (res, err)
  props C05 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 16
  let region = iface(rectOf(urlat, urlng, bllat, bllng), "s2.Rect")
  let CS = covarr(idx.level, idx.level, 0, 0, region)
  let N = covlen(idx.level, idx.level, 0, 0, region)
  let K = 2
  let A = revts(from)
  let B = revts(to)
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  allocates
  fresh res
  modifies failed, readers, iters, itermem, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn
  ensures [C05] sound: err == nil ==> forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> inAny(K, P, A, B, V, D, CS, N, bytes(res[i]))
  ensures [C05] complete: err == nil ==> forall s: Bytes {inAny(K, P, A, B, V, D, CS, N, s)} :: inAny(K, P, A, B, V, D, CS, N, s) ==> exists i: Int {res[i]} :: 0 <= i && i < len(res) && bytes(res[i]) == s
  ensures [C05] distinct: err == nil ==> forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> bytes(res[i]) != bytes(res[j])
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)


# C03: point queries over a region; the set of accepted cells is that of their centre points
extern s2.(CellID).Point(c) (p)
  ensures p: uf("pointcell", "Int", p) == c

extern s2.(Cap).ContainsPoint(r, p) (b)
  result b = uf("rset", "(Array Int Bool)", iface(r, "s2.Cap"))[uf("pointcell", "Int", p)]

extern s2.(Rect).ContainsPoint(r, p) (b)
  result b = uf("rset", "(Array Int Bool)", iface(r, "s2.Rect"))[uf("pointcell", "Int", p)]

def PR(P, j) = regOf(1, P, 0, 0, rcov[j])
def ipos(it) = if is_akey(icur(it)) then rk(itkv(it), itreg(it), okey(icur(it))) else nkeys(itkv(it), itreg(it))

invs filter
  inv done(?res: cur []index.GeoID, ?n: int): len(res) == tcnt(P, V, S, D, rcov, n)
  inv items(?res: cur []index.GeoID): forall m: Int {res[m]} :: 0 <= m && m < len(res) ==> bytes(res[m]) == accAt(P, V, S, D, rcov, m)
  inv owned(?res: cur []index.GeoID): forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  inv itdone(?it: store.KVIterator, ?res: cur []index.GeoID, ?n: outer int): len(res) == tcnt(P, V, S, D, rcov, n) + fcnt(V, PR(P, n), S, D, ipos(it))
  inv itcur(?it: store.KVIterator, ?n: outer int): itkv(it) == V && itreg(it) == PR(P, n) && icur(it) == nthO(V, PR(P, n), ipos(it)) && 0 <= ipos(it)
  inv noiter(?r: store.KVReader): nit(r) == 0
  inv oneiter(?r: store.KVReader): nit(r) == 1
end

fn index.(*S2PointIdx).GeoIdsRadiusQuery(idx, lat, lng, radius) (res, err)
  props C03 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 8
  let S = uf("rset", "(Array Int Bool)", iface(capOf(lat, lng, radius), "s2.Cap"))
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  use filter
  allocates
  fresh res
  modifies failed, readers, iters, itermem, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn
  ensures [C03] answered: !failed && (forall k: Bytes {V[k]} :: is_some(V[k]) && bprefix(k, P) ==> D < blen(k)) ==> err == nil
  ensures [C03] count: err == nil ==> len(res) == tcnt(P, V, S, D, rcov, rcovn)
  ensures [C03] items: err == nil ==> forall m: Int {res[m]} :: 0 <= m && m < len(res) ==> bytes(res[m]) == accAt(P, V, S, D, rcov, m)
  ensures [C03] complete: err == nil ==> forall j: Int, i: Int {nth(V, PR(P, j), i)} :: 0 <= j && j < rcovn && 0 <= i && i < nkeys(V, PR(P, j)) && accK(S, D, nth(V, PR(P, j), i)) ==> exists m: Int {accAt(P, V, S, D, rcov, m)} :: 0 <= m && m < len(res) && bytes(res[m]) == suf(nth(V, PR(P, j), i), D)
  ensures [C03] covered: err == nil ==> forall c: Int, s: Bytes {bcat(P, bcat(be64(c), s))} :: 0 <= c && c < 18446744073709551616 && S[c] && uf("isleaf", "Bool", c) ==> exists j: Int {rcov[j]} :: 0 <= j && j < rcovn && inR(PR(P, j), bcat(P, bcat(be64(c), s)))
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)

fn index.(*S2PointIdx).GeoIdsRectQuery(idx, urlat, urlng, bllat, bllng) (res, err)
  props C03 C07 C08
  let P = bytes(idx.prefix)
  let V = kv(idx.KVStore)
  let D = blen(P) + 8
  let S = uf("rset", "(Array Int Bool)", iface(rectOf(urlat, urlng, bllat, bllng), "s2.Rect"))
  requires store: idx.KVStore != nil
  requires prefix: ref(idx.prefix) >= 0
  use filter
  allocates
  fresh res
  modifies failed, readers, iters, itermem, rcov, rcovn, rcalls, rkind, rpts, rnum, rint, rcv, rcat, rcatn
  ensures [C03] answered: !failed && (forall k: Bytes {V[k]} :: is_some(V[k]) && bprefix(k, P) ==> D < blen(k)) ==> err == nil
  ensures [C03] count: err == nil ==> len(res) == tcnt(P, V, S, D, rcov, rcovn)
  ensures [C03] items: err == nil ==> forall m: Int {res[m]} :: 0 <= m && m < len(res) ==> bytes(res[m]) == accAt(P, V, S, D, rcov, m)
  ensures [C03] complete: err == nil ==> forall j: Int, i: Int {nth(V, PR(P, j), i)} :: 0 <= j && j < rcovn && 0 <= i && i < nkeys(V, PR(P, j)) && accK(S, D, nth(V, PR(P, j), i)) ==> exists m: Int {accAt(P, V, S, D, rcov, m)} :: 0 <= m && m < len(res) && bytes(res[m]) == suf(nth(V, PR(P, j), i), D)
  ensures [C03] covered: err == nil ==> forall c: Int, s: Bytes {bcat(P, bcat(be64(c), s))} :: 0 <= c && c < 18446744073709551616 && S[c] && uf("isleaf", "Bool", c) ==> exists j: Int {rcov[j]} :: 0 <= j && j < rcovn && inR(PR(P, j), bcat(P, bcat(be64(c), s)))
  ensures [C07] owned: forall i: Int {res[i]} :: 0 <= i && i < len(res) ==> allocated(res[i])
  ensures [C08] readers: readers == old(readers)
  ensures [C08] iters: iters == old(iters)
  ensures [C08] failure: err == nil ==> failed == old(failed)
