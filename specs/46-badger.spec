# The badger engine: a transaction sees a copy of the database with its own writes.
ghost bdk: (Array Bytes OB)     # contents of a database
ghost btk: (Array Bytes OB)     # contents a transaction sees
ghost btdb: Int
ghost btw: Bool                 # read-write
ghost btopen: Bool
ghost btits: Int                # iterators open on a transaction
ghost bik: (Array Bytes OB)     # contents an iterator walks over
ghost bdcur: OKey               # where it stands
ghost bitx: Int
ghost biopen: Bool
ghost itmk: Bytes               # key and value of an item
ghost itmv: Bytes
ghost itmit: Int                # iterator it came from, or 0
ghost itmbad: Bool              # its value cannot be read

extern badger.(*DB).NewTransaction(db, update) (tx)
  allocates
  fresh tx
  ensures ok: tx != nil && btk(tx) == bdk(db) && btdb(tx) == ref(db) && btw(tx) == update && btits(tx) == 0
  ghostset btopen(tx) := true
  ghostset opentx := old(opentx) + 1

extern badger.(*Txn).Get(tx, key) (item, err)
  requires open: btopen(tx)
  allocates
  fresh item
  ensures some: err == nil ==> item != nil && itmit(item) == 0 && itmk(item) == bytes(key) && btk(tx)[bytes(key)] == some(itmv(item))
  ensures none: err == extvar("badger.ErrKeyNotFound") || err == extvar("badger.ErrEmptyKey") ==> btk(tx)[bytes(key)] == none

extern badger.(*Txn).Set(tx, key, val) (err)
  requires open: btopen(tx) && btw(tx)
  modifies btk(tx)
  ensures ok: err == nil ==> btk(tx) == store(old(btk(tx)), bytes(key), some(bytes(val)))

extern badger.(*Txn).Delete(tx, key) (err)
  requires open: btopen(tx) && btw(tx)
  modifies btk(tx)
  ensures ok: err == nil ==> btk(tx) == store(old(btk(tx)), bytes(key), none)

# (a transaction without writes commits nothing)
extern badger.(*Txn).Commit(tx) (err)
  requires open: btopen(tx)
  requires its: btits(tx) == 0
  modifies bdk(btdb(tx))
  ensures ok: err == nil && btw(tx) ==> bdk(btdb(tx)) == btk(tx)
  ensures bad: err != nil || !btw(tx) ==> bdk(btdb(tx)) == old(bdk(btdb(tx)))
  ghostset opentx := if btopen(tx) then old(opentx) - 1 else old(opentx)
  ghostset btopen(tx) := false

extern badger.(*Txn).Discard(tx)
  requires its: btits(tx) == 0
  ghostset opentx := if btopen(tx) then old(opentx) - 1 else old(opentx)
  ghostset btopen(tx) := false

# (forward iterators over the newest versions of all keys)
extern badger.(*Txn).NewIterator(tx, opts) (it)
  requires open: btopen(tx)
  requires opts: !opts.Reverse && !opts.AllVersions && len(opts.Prefix) == 0 && !opts.InternalAccess
  requires one: !btw(tx)
  allocates
  fresh it
  ensures ok: it != nil && bik(it) == btk(tx) && bdcur(it) == nokey && bitx(it) == ref(tx) && biopen(it)
  ghostset btits(tx) := old(btits(tx)) + 1

extern badger.(*Iterator).Seek(it, key)
  requires open: biopen(it)
  modifies bdcur(it)
  ensures ok: bdcur(it) == lge(bik(it), AllR, bytes(key))

extern badger.(*Iterator).Next(it)
  requires open: biopen(it)
  requires valid: is_akey(bdcur(it))
  modifies bdcur(it), itermem
  ensures ok: bdcur(it) == lgt(bik(it), AllR, okey(old(bdcur(it))))

extern badger.(*Iterator).Valid(it) (ok)
  requires open: biopen(it)
  ensures ok: ok == is_akey(bdcur(it))

extern badger.(*Iterator).ValidForPrefix(it, p) (ok)
  requires open: biopen(it)
  ensures ok: ok == (is_akey(bdcur(it)) && bprefix(okey(bdcur(it)), bytes(p)))

extern badger.(*Iterator).Item(it) (item)
  requires open: biopen(it)
  requires valid: is_akey(bdcur(it))
  allocates
  fresh item
  ensures ok: item != nil && itmit(item) == ref(it) && itmk(item) != bempty && itmk(item) == okey(bdcur(it)) && itmv(item) == obv(bik(it)[okey(bdcur(it))])
  ensures bad: itmbad(item) == badval(it)
# (whether the engine fails to read the value an iterator stands on)
def badval(it) = uf("badval", "Bool", it, bdcur(it))

extern badger.(*Iterator).Close(it)
  modifies btits(bitx(it)), biopen(it)
  ensures ok: btits(bitx(it)) == if old(biopen(it)) then old(btits(bitx(it))) - 1 else old(btits(bitx(it)))
  ensures cl: !biopen(it)

def curitem(item) = itmit(item) == 0 || bdcur(itmit(item)) == akey(itmk(item))

extern badger.(*Item).Key(item) (k)
  requires cur: curitem(item)
  neg k if true
  ensures ok: bytes(k) == itmk(item)

extern badger.(*Item).KeyCopy(item, dst) (k)
  requires cur: curitem(item)
  requires dst: cap(dst) == 0
  allocates
  ensures ok: bytes(k) == itmk(item)
  ensures own: allocated(k) || k == nil && dst == nil || ref(k) == ref(dst)

extern badger.(*Item).ValueCopy(item, dst) (v, err)
  requires cur: curitem(item)
  requires dst: cap(dst) == 0
  allocates
  ensures ok: err == nil ==> bytes(v) == itmv(item) && (v == nil ==> dst == nil)
  ensures bad: (err == nil) == !itmbad(item) && err != extvar("badger.ErrKeyNotFound")
  ensures own: isalloc(v) && (allocated(v) || v == nil || ref(v) == ref(dst))

# the store
abs kv(s: *store/badger.Store) = bdk(s.db) foot bdk(s.db)
abs wst(w: *store/badger.Writer) = w.s
abs rkv(r: *store/badger.Reader) = btk(r.txn) foot btk(r.txn)
abs nit(r: *store/badger.Reader) = btits(r.txn) foot btits(r.txn)
def bdopts(o) = !o.Reverse && !o.AllVersions && len(o.Prefix) == 0 && !o.InternalAccess
def bdsrep(s) = s.db != nil
def bdrrep(r) = r.txn != nil && !btw(r.txn) && bdopts(r.itrOpts) && (!closed(r) ==> btopen(r.txn))

impl store/badger.(*Store).Reader : store.KVStore.Reader
  props C11
  requires rep: bdsrep(s)
  requires opts: bdopts(pkgvar("badger.DefaultIteratorOptions"))
  modifies opentx
  ensures [C11] rep: err == nil && typeis(r, "*store/badger.Reader") && bdrrep(as(r, "*store/badger.Reader"))
  ensures [C09 C11] tx: opentx == old(opentx) + 1

impl store/badger.(*Store).Writer : store.KVStore.Writer
  props C10
  requires rep: bdsrep(s)
  ensures [C10] rep: err == nil && typeis(w, "*store/badger.Writer")

impl store/badger.(*Reader).Get : store.KVReader.Get
  props C11
  requires rep: bdrrep(r)

impl store/badger.(*Reader).MultiGet : store.KVReader.MultiGet
  props C11
  requires rep: bdrrep(r)

impl store/badger.(*Reader).Close : store.KVReader.Close
  props C09 C11
  requires rep: bdrrep(r)
  modifies opentx, btopen(r.txn)
  ensures [C09 C11] tx: opentx == old(opentx) - 1
  ensures [C11] kv: bdk(btdb(r.txn)) == old(bdk(btdb(r.txn)))

# iterators: the engine walks over all keys, the keys outside the region asked for are not shown
abs itkv(it: *store/badger.PrefixIterator) = bik(it.iterator)
abs itreg(it: *store/badger.PrefixIterator) = PrefixR(bytes(it.prefix)) foot it.prefix
abs icur(it: *store/badger.PrefixIterator) = inReg(bdcur(it.iterator), PrefixR(bytes(it.prefix))) foot bdcur(it.iterator)
abs itkv(it: *store/badger.RangeIterator) = bik(it.iterator)
abs itreg(it: *store/badger.RangeIterator) = rangeR(it.start, it.stop) foot it.start, it.stop
abs icur(it: *store/badger.RangeIterator) = inReg(bdcur(it.iterator), rangeR(it.start, it.stop)) foot bdcur(it.iterator)
def bdpirep(it) = it.iterator != nil && ref(it.prefix) >= 0 && (!closed(it) ==> biopen(it.iterator))
# the position is not below the region
def bdrirep(it) = it.iterator != nil && ref(it.start) >= 0 && ref(it.stop) >= 0 && (!closed(it) ==> biopen(it.iterator)) && (it.stop == nil || len(it.stop) > 0) && (is_akey(bdcur(it.iterator)) ==> !blt(okey(bdcur(it.iterator)), bytes(it.start)))

impl store/badger.(*PrefixIterator).Seek : store.KVIterator.Seek
  opt keep itermem
  props C12
  requires rep: bdpirep(it) && !closed(it)
  ensures [C12] rep: bdpirep(it)

impl store/badger.(*PrefixIterator).Next : store.KVIterator.Next
  props C12
  requires rep: bdpirep(it)
  ensures [C12] rep: bdpirep(it)

impl store/badger.(*PrefixIterator).Current : store.KVIterator.Current
  props C12
  requires rep: bdpirep(it)
  requires readable: !badval(it.iterator)
  allocates

impl store/badger.(*PrefixIterator).Key : store.KVIterator.Key
  props C12
  requires rep: bdpirep(it) && !closed(it)
  allocates

impl store/badger.(*PrefixIterator).Value : store.KVIterator.Value
  props C12
  requires rep: bdpirep(it) && !closed(it)
  requires readable: !badval(it.iterator)
  allocates

impl store/badger.(*PrefixIterator).Valid : store.KVIterator.Valid
  props C12
  requires rep: bdpirep(it) && !closed(it)

impl store/badger.(*PrefixIterator).Close : store.KVIterator.Close
  props C12
  requires rep: bdpirep(it)
  modifies btits(bitx(it.iterator)), biopen(it.iterator)
  ensures [C12] its: old(biopen(it.iterator)) ==> btits(bitx(it.iterator)) == old(btits(bitx(it.iterator))) - 1

impl store/badger.(*RangeIterator).Seek : store.KVIterator.Seek
  opt keep itermem
  props C13
  requires rep: bdrirep(it) && !closed(it)
  ensures [C13] rep: bdrirep(it)

impl store/badger.(*RangeIterator).Next : store.KVIterator.Next
  props C13
  requires rep: bdrirep(it)
  ensures [C13] rep: bdrirep(it)

impl store/badger.(*RangeIterator).Current : store.KVIterator.Current
  props C13
  requires rep: bdrirep(it)
  requires readable: !badval(it.iterator)
  allocates

impl store/badger.(*RangeIterator).Key : store.KVIterator.Key
  props C13
  requires rep: bdrirep(it) && !closed(it)
  allocates

impl store/badger.(*RangeIterator).Value : store.KVIterator.Value
  props C13
  requires rep: bdrirep(it) && !closed(it)
  requires readable: !badval(it.iterator)
  allocates

impl store/badger.(*RangeIterator).Valid : store.KVIterator.Valid
  props C13
  requires rep: bdrirep(it) && !closed(it)
  allocates

impl store/badger.(*RangeIterator).Close : store.KVIterator.Close
  props C13
  requires rep: bdrirep(it)
  modifies btits(bitx(it.iterator)), biopen(it.iterator)
  ensures [C13] its: old(biopen(it.iterator)) ==> btits(bitx(it.iterator)) == old(btits(bitx(it.iterator))) - 1

impl store/badger.(*Reader).PrefixIterator : store.KVReader.PrefixIterator
  props C12
  requires rep: bdrrep(r)
  ensures [C12] rep: typeis(it, "*store/badger.PrefixIterator") && bdpirep(as(it, "*store/badger.PrefixIterator"))

impl store/badger.(*Reader).RangeIterator : store.KVReader.RangeIterator
  props C13
  requires rep: bdrrep(r)
  ensures [C13] rep: typeis(it, "*store/badger.RangeIterator") && bdrirep(as(it, "*store/badger.RangeIterator"))

# batches
fn store/badger.(*Writer).NewBatch(w) (b)
  props C10 C14
  requires w: w.s != nil
  allocates
  fresh b
  ensures [C10 C14] ok: typeis(b, "*store.EmulatedBatch") && brep(as(b, "*store.EmulatedBatch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.s.mo)

impl store/badger.(*Writer).ExecuteBatch : store.KVWriter.ExecuteBatch
  opt view *store.EmulatedBatch
  props C09 C10 C15
  let V = kv(w.s)
  requires rep: w.s != nil && bdsrep(w.s)
  requires batch: b != nil && (typeis(b, "*store.EmulatedBatch") ==> ref(b) != 0 && brep(as(b, "*store.EmulatedBatch")) && bmo(b) == moid(w.s.mo) && (w.s.mo != nil || bmrg(b) == nomrg))
  modifies opentx
  allocates
  inv merges(?r: range map[string][][]byte, ?tx: *badger.Txn): merging(r, btk(tx), V, as(b, "*store.EmulatedBatch"))
  inv ops(?tx: *badger.Txn, ?n: int): eqops(btk(tx), V, as(b, "*store.EmulatedBatch"), n)
  inv mrgs(?tx: *badger.Txn, ?n: int): eqmrg(btk(tx), V, as(b, "*store.EmulatedBatch"), n)
  ensures [C09] tx: opentx == old(opentx)
  ensures [C09] foreign: !typeis(b, "*store.EmulatedBatch") ==> err != nil

fn store/badger.(*Writer).NewBatchEx(w, options) (buf, b, err)
  props C10 C14
  requires w: w.s != nil
  requires size: options.TotalBytes >= 0
  allocates
  ensures [C10 C14] ok: err == nil && len(buf) == options.TotalBytes && typeis(b, "*store.EmulatedBatch") && brep(as(b, "*store.EmulatedBatch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.s.mo)
