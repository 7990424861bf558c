# Observable model of a key/value store.
ghost kv: (Array Bytes OB)          # contents of a store
ghost rkv: (Array Bytes OB)         # snapshot a reader sees
ghost wst: Int                      # store a writer writes to
ghost itkv: (Array Bytes OB)        # snapshot an iterator walks
ghost itreg: Region                 # keys the iterator visits
ghost icur: OKey                    # current key
ghost itrd: Int                     # reader of an iterator
ghost closed: Bool
ghost nit: Int                      # iterators open on a reader
ghost bops: Ops                     # sets and deletes queued in a batch
ghost bmrg: (Array Bytes ML)        # merge operands queued in a batch
ghost bmo: Int                      # merge operator of a batch
ghost global readers: Int           # open readers
ghost global iters: Int             # open iterators
ghost global failed: Bool           # some store operation reported an error

iface store.KVStore.Writer(s) (w, err)
  allocates
  fresh w
  ensures ok: err == nil ==> w != nil && wst(w) == ref(s)
  ghostset failed := old(failed) || err != nil

iface store.KVStore.Reader(s) (r, err)
  allocates
  fresh r
  ensures ok: err == nil ==> r != nil && rkv(r) == kv(s)
  ghostset failed := old(failed) || err != nil
  ghostset readers := if err == nil then old(readers) + 1 else old(readers)
  ghostset closed(r) := false
  ghostset nit(r) := 0

iface store.KVReader.PrefixIterator(r, prefix) (it)
  requires open: !closed(r)
  requires mem: ref(prefix) >= 0
  allocates
  fresh it
  ensures ok: it != nil && itkv(it) == rkv(r) && itreg(it) == PrefixR(bytes(prefix)) && icur(it) == lge(rkv(r), PrefixR(bytes(prefix)), bytes(prefix))
  ghostset iters := old(iters) + 1
  ghostset nit(r) := old(nit(r)) + 1
  ghostset itrd(it) := ref(r)
  ghostset closed(it) := false

iface store.KVReader.RangeIterator(r, start, end) (it)
  requires open: !closed(r)
  requires end: end == nil || len(end) > 0
  requires mem: ref(start) >= 0 && ref(end) >= 0
  let reg = rangeR(start, end)
  allocates
  fresh it
  ensures ok: it != nil && itkv(it) == rkv(r) && itreg(it) == reg && icur(it) == lge(rkv(r), reg, bytes(start))
  ghostset iters := old(iters) + 1
  ghostset nit(r) := old(nit(r)) + 1
  ghostset itrd(it) := ref(r)
  ghostset closed(it) := false

iface store.KVReader.Close(r) (err)
  requires open: !closed(r)
  requires iters: nit(r) == 0
  ghostset closed(r) := true
  ghostset readers := old(readers) - 1

iface store.KVIterator.Current(it) (k, v, ok)
  requires open: !closed(it)
  neg k if is_akey(icur(it))
  neg v if is_akey(icur(it)) && obv(itkv(it)[okey(icur(it))]) != bempty
  ensures ok: ok == is_akey(icur(it))
  ensures key: ok ==> bytes(k) == okey(icur(it))
  ensures val: ok ==> bytes(v) == obv(itkv(it)[okey(icur(it))])

iface store.KVIterator.Next(it)
  requires open: !closed(it)
  requires valid: is_akey(icur(it))
  modifies icur(it), itermem
  ensures next: icur(it) == lgt(itkv(it), itreg(it), okey(old(icur(it))))

iface store.KVIterator.Close(it) (err)
  requires open: !closed(it)
  modifies itermem
  ghostset closed(it) := true
  ghostset iters := old(iters) - 1
  ghostset nit(itrd(it)) := old(nit(itrd(it))) - 1

iface store.KVWriter.NewBatch(w) (b)
  allocates
  fresh b
  ensures ok: b != nil && bops(b) == onil && bmrg(b) == nomrg

iface store.KVBatch.Set(b, key, val)
  modifies bops(b)
  ensures ops: bops(b) == osnoc(old(bops(b)), bytes(key), some(bytes(val)))

iface store.KVBatch.Delete(b, key)
  modifies bops(b)
  ensures ops: bops(b) == osnoc(old(bops(b)), bytes(key), none)

iface store.KVBatch.Merge(b, key, val)
  modifies bmrg(b)
  ensures mrg: bmrg(b) == store(old(bmrg(b)), bytes(key), madd(bmo(b), bytes(key), old(bmrg(b))[bytes(key)], bytes(val)))

iface store.KVBatch.Reset(b)
  modifies bops(b), bmrg(b)
  ensures ok: bops(b) == onil && bmrg(b) == nomrg

iface store.KVBatch.Close(b) (err)

iface store.KVWriter.ExecuteBatch(w, b) (err)
  modifies kv(wst(w)), bops(b)
  ensures ops: err == nil ==> forall k: Bytes {kv(wst(w))[k]} :: bmrg(b)[k] == mnil ==> kv(wst(w))[k] == applyOps(old(kv(wst(w))), old(bops(b)))[k]
  ensures mrg: err == nil ==> forall k: Bytes {kv(wst(w))[k]} :: bmrg(b)[k] != mnil && !touched(old(bops(b)), k) ==> fmok(bmo(b), k, old(kv(wst(w)))[k], bmrg(b)[k]) && kv(wst(w))[k] == some(fm(bmo(b), k, old(kv(wst(w)))[k], bmrg(b)[k]))
  ensures none: err != nil ==> kv(wst(w)) == old(kv(wst(w)))
  ghostset failed := old(failed) || err != nil

extern errors.New(msg) (err)
  allocates
  fresh err
  ensures err != nil

extern errors.Wrap(e, msg) (err)
  allocates
  fresh err
  ensures (err == nil) == (e == nil)

extern errors.Errorf(f, args) (err)
  allocates
  fresh err
  ensures err != nil

extern fmt.Errorf(f, args) (err)
  allocates
  fresh err
  ensures err != nil

# the last cover computed, recorded by the contracts of the cover functions
ghost global lastcov: (Array Int Int)
ghost global lastn: Int
ghost global lastgd: Int
ghost global lastmin: Int
ghost global lastmax: Int
# the cells the region coverer returned last
ghost global rcov: (Array Int Int)
ghost global rcovn: Int
# the calls made of the coverer: what it was asked to cover, and all the cells it returned one after the other
ghost global rcalls: Int
ghost global rkind: (Array Int Int)
ghost global rpts: (Array Int (Array Int Int))
ghost global rnum: (Array Int Int)
ghost global rint: (Array Int Bool)
ghost global rcv: (Array Int Int)
ghost global rcat: (Array Int Int)
ghost global rcatn: Int
# the vertices of a loop; whether it was normalized to cover at most half of the sphere
ghost lpts: (Array Int Int)
ghost lnum: Int
ghost lnormed: Bool
# a loop was found to be empty or full
ghost global degen: Bool

iface store.KVReader.Get(r, key) (val, err)
  requires open: !closed(r)
  allocates
  ensures val: err == nil ==> present(val) == rkv(r)[bytes(key)]
  ensures own: err == nil ==> val == nil || allocated(val) && isalloc(val)
  ghostset failed := old(failed) || err != nil
def present(b) = if b == nil then none else some(bytes(b))

iface store.KVReader.MultiGet(r, keys) (vals, err)
  requires open: !closed(r)
  allocates
  fresh vals
  modifies failed
  ensures all: err == nil ==> len(vals) == len(keys) && forall i: Int {vals[i]} :: 0 <= i && i < len(keys) ==> present(vals[i]) == rkv(r)[bytes(keys[i])]
  ensures own: err == nil ==> forall i: Int {vals[i]} :: 0 <= i && i < len(keys) ==> vals[i] == nil || allocated(vals[i])
  ensures errs: err == nil ==> failed == old(failed)

iface store.KVIterator.Seek(it, k)
  modifies icur(it), itermem
  ensures seek: icur(it) == lge(itkv(it), itreg(it), bytes(k))

iface store.KVIterator.Key(it) (k)
  requires valid: is_akey(icur(it))
  neg k if true
  ensures key: bytes(k) == okey(icur(it))

iface store.KVIterator.Value(it) (v)
  requires valid: is_akey(icur(it))
  neg v if obv(itkv(it)[okey(icur(it))]) != bempty
  ensures val: bytes(v) == obv(itkv(it)[okey(icur(it))])

iface store.KVIterator.Valid(it) (ok)
  ensures ok: ok == is_akey(icur(it))

iface store.KVStore.Close(s) (err)

iface store.KVWriter.Close(w) (err)

# the keys from start on, below end; no bounds at all is every key
def rangeR(start, end) = if end == nil then (if start == nil then PrefixR(bempty) else FromR(bytes(start))) else IntervalR(bytes(start), bytes(end))

extern bytes.Compare(a, b) (c)
  ensures -1 <= c && c <= 1 && (c < 0) == blt(bytes(a), bytes(b)) && (c == 0) == (bytes(a) == bytes(b))

extern bytes.HasPrefix(s, p) (ok)
  ensures ok == bprefix(bytes(s), bytes(p))

extern bytes.Equal(a, b) (ok)
  ensures ok == (bytes(a) == bytes(b))

# a position, if it lies in a region
def inReg(c, r) = if is_akey(c) && inR(r, okey(c)) then c else nokey
