# C19: set operations on cell lists
def among(c, s) = exists i: Int {s[i]} :: 0 <= i && i < len(s) && s[i] == c
def amongAny(c, ss) = exists k: Int, i: Int {ss[k][i]} :: 0 <= k && k < len(ss) && 0 <= i && i < len(ss[k]) && ss[k][i] == c

invs unions
  inv only(?m: map[s2.CellID]struct{}): forall c: Int {in(m, c)} :: in(m, c) ==> among(c, src) || amongAny(c, others)
  inv src(?m: map[s2.CellID]struct{}, ?n: int): n <= len(src) && forall i: Int {src[i]} :: 0 <= i && i < n ==> in(m, src[i])
  inv allsrc(?m: map[s2.CellID]struct{}): forall i: Int {src[i]} :: 0 <= i && i < len(src) ==> in(m, src[i])
  inv lists(?m: map[s2.CellID]struct{}, ?n: int): n <= len(others) && forall k: Int, i: Int {others[k][i]} :: 0 <= k && k < n && 0 <= i && i < len(others[k]) ==> in(m, others[k][i])
  inv olists(?m: map[s2.CellID]struct{}, ?n: outer int): n <= len(others) && forall k: Int, i: Int {others[k][i]} :: 0 <= k && k < n && 0 <= i && i < len(others[k]) ==> in(m, others[k][i])
  inv list(?m: map[s2.CellID]struct{}, ?k: outer int, ?n: int): n <= len(others[k]) && forall i: Int {others[k][i]} :: 0 <= i && i < n ==> in(m, others[k][i])
  inv cfill(?r: range map[s2.CellID]struct{}, ?res: cur s2.CellUnion): len(res) == rpos(r) && forall j: Int {res[j]} {enum(r, j)} :: 0 <= j && j < rpos(r) ==> res[j] == enum(r, j)
end

fn s2tools.CellUnionUnion(src, others) (res)
  props C19
  use unions
  allocates
  fresh res
  ensures [C19] first: forall i: Int {src[i]} :: 0 <= i && i < len(src) ==> among(src[i], res)
  ensures [C19] others: forall k: Int, i: Int {others[k][i]} :: 0 <= k && k < len(others) && 0 <= i && i < len(others[k]) ==> among(others[k][i], res)
  ensures [C19] only: forall j: Int {res[j]} :: 0 <= j && j < len(res) ==> among(res[j], src) || amongAny(res[j], others)
  ensures [C19] ascending: forall i: Int, j: Int {res[i], res[j]} :: 0 <= i && i < j && j < len(res) ==> res[i] < res[j]

# difference: position n of the first list is dropped when fewer earlier occurrences of its cell than the second list has
invs missing
  inv count(?m: map[s2.CellID]int, ?n: int): n <= len(to) && forall c: Int {in(m, c)} {mval(m, c)} :: (if in(m, c) then mval(m, c) else 0) == ccnt(seq(to), n, c)
  inv left(?m: map[s2.CellID]int, ?n: int): n <= len(from) && forall c: Int {in(m, c)} {mval(m, c)} :: (if in(m, c) then mval(m, c) else 0) == (if ccnt(seq(from), n, c) < ccnt(seq(to), len(to), c) then ccnt(seq(to), len(to), c) - ccnt(seq(from), n, c) else 0)
  inv kept(?r: []s2.CellID, ?n: int): len(r) == kept(seq(from), seq(to), len(to), n) && forall i: Int {from[i]} :: 0 <= i && i < n && !dropped(seq(from), seq(to), len(to), i) ==> r[kept(seq(from), seq(to), len(to), i)] == from[i]
end

fn s2tools.CellUnionMissing(from, to) (res)
  props C19
  use missing
  allocates
  fresh res
  ensures [C19] count: len(res) == kept(seq(from), seq(to), len(to), len(from))
  ensures [C19] cells: forall i: Int {from[i]} :: 0 <= i && i < len(from) && !dropped(seq(from), seq(to), len(to), i) ==> res[kept(seq(from), seq(to), len(to), i)] == from[i]

# C20: parsing a cell id
def digit(t, i, hi) = 48 <= bat(t, i) && bat(t, i) <= 48 + hi
def hasSlash(t) = exists i: Int {bat(t, i)} :: 0 <= i && i < blen(t) && bat(t, i) == 47
def okPath(t) = 2 <= blen(t) && blen(t) <= 32 && digit(t, 0, 5) && bat(t, 1) == 47 && forall i: Int {bat(t, i)} :: 2 <= i && i < blen(t) ==> digit(t, i, 3)
def clevel(c) = uf("s2level", "int", c)

extern strings.Contains(s, sub) (ok)
  ensures blen(sub) == 1 ==> ok == exists i: Int {bat(s, i)} :: 0 <= i && i < blen(s) && bat(s, i) == bat(sub, 0)

extern strconv.Atoi(s) (n, err)
  ensures blen(s) == 1 ==> (err == nil) == digit(s, 0, 9)
  ensures blen(s) == 1 && err == nil ==> n == bat(s, 0) - 48
  ensures blen(s) >= 1 && bat(s, 0) >= 128 ==> err != nil
  ensures blen(s) == 0 ==> err != nil
  ensures (err == nil) == uf("isint", "Bool", s) && (err == nil ==> n == uf("intval", "int", s))

extern strconv.ParseUint(s, base, bits) (n, err)
  ensures (err == nil) == uf("isuint", "Bool", s, base, bits) && (err == nil ==> n == uf("uintval", "uint64", s, base, bits))

extern s2.CellIDFromFace(f) (c)
  requires face: 0 <= f && f <= 5
  result c = facecell(f)
  ensures clevel(c) == 0

extern s2.CellIDFromToken(s) (c)
  result c = uf("tokcell", "uint64", s)

extern s2.(CellID).IsLeaf(c) (b)
  ensures b == (clevel(c) == 30)

extern s2.(CellID).Children(c) (ch)
  requires notleaf: clevel(c) < 30
  ensures forall k: Int {ch[k]} :: 0 <= k && k <= 3 ==> ch[k] == childcell(c, k) && clevel(ch[k]) == clevel(c) + 1

invs parse
  inv path(?i: int, ?c: cur s2.CellID): i <= 30 && i + 2 <= blen(cs) && (forall j: Int {bat(cs, j)} :: 2 <= j && j < i + 2 ==> digit(cs, j, 3)) && c == pathcell(cs, i + 2) && clevel(c) == i
end

fn s2tools.ParseCellID(cs) (res)
  props C20
  use parse
  allocates
  ensures [C20] path: hasSlash(cs) ==> (res != nil) == okPath(cs) && (res != nil ==> deref(res) == pathcell(cs, blen(cs)))
  ensures [C20] token: !hasSlash(cs) && uf("tokcell", "uint64", cs) != 0 ==> res != nil && deref(res) == uf("tokcell", "uint64", cs)
  ensures [C20] decimal: !hasSlash(cs) && uf("tokcell", "uint64", cs) == 0 ==> (res != nil) == uf("isuint", "Bool", cs, 10, 64) && (res != nil ==> deref(res) == uf("uintval", "uint64", cs, 10, 64))
