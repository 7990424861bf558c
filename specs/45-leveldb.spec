# The leveldb engine: a database holds contents; a snapshot is a copy of them; a batch is a list of operations.
ghost ldk: (Array Bytes OB)      # contents of a database
ghost lsk: (Array Bytes OB)      # contents of a snapshot
ghost lsopen: Bool
# operations of a batch
ghost lops: Ops init leveldb.Batch onil
ghost lik: (Array Bytes OB)      # contents an iterator walks over
ghost lireg: Region              # the keys it visits
ghost licur: OKey                # where it stands
ghost liopen: Bool

extern leveldb.(*DB).Get(db, key, ro) (v, err)
  allocates
  ensures val: err == nil ==> ldk(db)[bytes(key)] == some(bytes(v)) && v != nil
  ensures no: err == extvar("leveldb.ErrNotFound") ==> ldk(db)[bytes(key)] == none
  ensures own: allocated(v) || v == nil

extern leveldb.(*DB).Write(db, b, wo) (err)
  modifies ldk(db)
  ensures ok: err == nil ==> ldk(db) == applyOps(old(ldk(db)), lops(b))
  ensures bad: err != nil ==> ldk(db) == old(ldk(db))

extern leveldb.(*DB).GetSnapshot(db) (sn, err)
  allocates
  fresh sn
  ensures ok: err == nil ==> sn != nil && lsk(sn) == ldk(db)
  ghostset lsopen(sn) := err == nil
  ghostset opentx := if err == nil then old(opentx) + 1 else old(opentx)

extern leveldb.(*Snapshot).Get(sn, key, ro) (v, err)
  requires open: lsopen(sn)
  allocates
  ensures val: err == nil ==> lsk(sn)[bytes(key)] == some(bytes(v)) && v != nil
  ensures no: err == extvar("leveldb.ErrNotFound") ==> lsk(sn)[bytes(key)] == none
  ensures own: allocated(v) || v == nil

extern leveldb.(*Snapshot).Release(sn)
  requires open: lsopen(sn)
  ghostset lsopen(sn) := false
  ghostset opentx := old(opentx) - 1

# (no slice at all is not used)
extern leveldb.(*Snapshot).NewIterator(sn, slice, ro) (it)
  requires open: lsopen(sn)
  requires slice: slice != nil
  allocates
  fresh it
  ensures ok: it != nil && lik(it) == lsk(sn) && lireg(it) == rangeR(slice.Start, slice.Limit) && licur(it) == nokey && liopen(it)

extern util.BytesPrefix(p) (r)
  allocates
  fresh r
  ensures ok: r != nil && sameslice(r.Start, p) && regeq(PrefixR(bytes(p)), rangeR(r.Start, r.Limit)) && (r.Limit != nil ==> allocated(r.Limit) && len(r.Limit) > 0)

iface iterator.Iterator.First(it) (ok)
  requires open: liopen(it)
  requires new: licur(it) == nokey
  modifies licur(it)
  ensures ok: licur(it) == lge(lik(it), lireg(it), startR(lireg(it))) && ok == is_akey(licur(it))

iface iterator.Iterator.Seek(it, key) (ok)
  requires open: liopen(it)
  modifies licur(it), itermem
  ensures ok: licur(it) == lge(lik(it), lireg(it), bytes(key)) && ok == is_akey(licur(it))

iface iterator.Iterator.Next(it) (ok)
  requires open: liopen(it)
  requires valid: is_akey(licur(it))
  modifies licur(it), itermem
  ensures ok: licur(it) == lgt(lik(it), lireg(it), okey(old(licur(it)))) && ok == is_akey(licur(it))

iface iterator.Iterator.Valid(it) (ok)
  ensures ok: ok == is_akey(licur(it))

iface iterator.Iterator.Key(it) (k)
  neg k if is_akey(licur(it))
  ensures ok: if is_akey(licur(it)) then bytes(k) == okey(licur(it)) else k == nil

iface iterator.Iterator.Value(it) (v)
  neg v if is_akey(licur(it))
  ensures ok: if is_akey(licur(it)) then bytes(v) == obv(lik(it)[okey(licur(it))]) else v == nil

iface iterator.Iterator.Release(it)
  modifies itermem
  ghostset licur(it) := nokey
  ghostset liopen(it) := false

extern leveldb.(*Batch).Put(b, key, val)
  modifies lops(b)
  ensures ok: lops(b) == osnoc(old(lops(b)), bytes(key), some(bytes(val)))

extern leveldb.(*Batch).Delete(b, key)
  modifies lops(b)
  ensures ok: lops(b) == osnoc(old(lops(b)), bytes(key), none)

extern leveldb.(*Batch).Reset(b)
  ghostset lops(b) := onil

# the store
abs kv(s: *store/goleveldb.Store) = ldk(s.db) foot ldk(s.db)
abs wst(w: *store/goleveldb.Writer) = w.store
abs rkv(r: *store/goleveldb.Reader) = lsk(r.snapshot) foot lsk(r.snapshot)
def lsrep(s) = s.db != nil
def lrrep(r) = r.snapshot != nil && r.store != nil && (!closed(r) ==> lsopen(r.snapshot))

impl store/goleveldb.(*Store).Reader : store.KVStore.Reader
  props C11
  requires rep: lsrep(s)
  modifies opentx
  ensures [C11] rep: err == nil ==> typeis(r, "*store/goleveldb.Reader") && lrrep(as(r, "*store/goleveldb.Reader"))
  ensures [C09 C11] tx: opentx == if err == nil then old(opentx) + 1 else old(opentx)

impl store/goleveldb.(*Store).Writer : store.KVStore.Writer
  props C10
  requires rep: lsrep(s)
  ensures [C10] rep: err == nil && typeis(w, "*store/goleveldb.Writer")

impl store/goleveldb.(*Reader).Get : store.KVReader.Get
  props C11
  requires rep: lrrep(r)

impl store/goleveldb.(*Reader).MultiGet : store.KVReader.MultiGet
  props C11
  requires rep: lrrep(r)

impl store/goleveldb.(*Reader).Close : store.KVReader.Close
  props C09 C11
  requires rep: lrrep(r)
  modifies opentx, lsopen(r.snapshot)
  ensures [C09 C11] tx: opentx == old(opentx) - 1

# an iterator: the engine walks over the keys of a region of its own, which holds the keys asked for
abs icur(it: *store/goleveldb.Iterator) = licur(it.iterator) foot licur(it.iterator)
abs itkv(it: *store/goleveldb.Iterator) = lik(it.iterator)
def lirep(it) = it.iterator != nil && regeq(itreg(it), lireg(it.iterator)) && (!closed(it) ==> liopen(it.iterator))

impl store/goleveldb.(*Iterator).Seek : store.KVIterator.Seek
  props C12 C13
  requires rep: lirep(it) && !closed(it)
  ensures [C12 C13] rep: lirep(it)

impl store/goleveldb.(*Iterator).Next : store.KVIterator.Next
  props C12 C13
  requires rep: lirep(it)
  ensures [C12 C13] rep: lirep(it)

impl store/goleveldb.(*Iterator).Current : store.KVIterator.Current
  props C12 C13
  requires rep: lirep(it)

impl store/goleveldb.(*Iterator).Key : store.KVIterator.Key
  props C12 C13
  requires rep: lirep(it)

impl store/goleveldb.(*Iterator).Value : store.KVIterator.Value
  props C12 C13
  requires rep: lirep(it)

impl store/goleveldb.(*Iterator).Valid : store.KVIterator.Valid
  props C12 C13
  requires rep: lirep(it)

impl store/goleveldb.(*Iterator).Close : store.KVIterator.Close
  props C12 C13
  requires rep: lirep(it)
  modifies licur(it.iterator), liopen(it.iterator)

impl store/goleveldb.(*Reader).PrefixIterator : store.KVReader.PrefixIterator
  props C12
  requires rep: lrrep(r)
  ghostset itreg(it) := PrefixR(bytes(prefix))
  ensures [C12] rep: typeis(it, "*store/goleveldb.Iterator") && lirep(as(it, "*store/goleveldb.Iterator"))

impl store/goleveldb.(*Reader).RangeIterator : store.KVReader.RangeIterator
  props C13
  requires rep: lrrep(r)
  ghostset itreg(it) := reg
  ensures [C13] rep: typeis(it, "*store/goleveldb.Iterator") && lirep(as(it, "*store/goleveldb.Iterator"))

# batches
abs bops(b: *store/goleveldb.Batch) = lops(b.batch) foot lops(b.batch)
abs bmrg(b: *store/goleveldb.Batch) = mrg(b.merge) foot mrg(b.merge), map(b.merge.Merges)
abs bmo(b: *store/goleveldb.Batch) = moid(b.merge.mo)
def lbrep(b) = b.batch != nil && b.merge != nil && b.store != nil && mrep(b.merge) && msep(b.merge) && b.merge.mo == b.store.mo

impl store/goleveldb.(*Writer).NewBatch : store.KVWriter.NewBatch
  props C10 C14
  requires w: w.store != nil
  ensures [C10 C14] rep: typeis(b, "*store/goleveldb.Batch") && lbrep(as(b, "*store/goleveldb.Batch")) && bmo(b) == moid(w.store.mo)

impl store/goleveldb.(*Batch).Set : store.KVBatch.Set
  props C10 C14
  requires rep: lbrep(b)
  ensures [C10] rep: lbrep(b)

impl store/goleveldb.(*Batch).Delete : store.KVBatch.Delete
  props C10 C14
  requires rep: lbrep(b)
  ensures [C10] rep: lbrep(b)

impl store/goleveldb.(*Batch).Merge : store.KVBatch.Merge
  props C14 C15
  requires rep: lbrep(b)
  requires op: b.merge.mo != nil
  allocates
  modifies elems(mval(b.merge.Merges, bytes(key)))
  ensures [C15] rep: lbrep(b)
  ensures [C14] copies: mergeown(b.merge, key, old(mdom(b.merge.Merges)[bytes(key)]), old(mval(b.merge.Merges, bytes(key))))

impl store/goleveldb.(*Batch).Reset : store.KVBatch.Reset
  props C14
  requires rep: lbrep(b)
  allocates
  modifies b.merge
  ensures [C14] rep: lbrep(b)
  ensures mo: bmo(b) == old(bmo(b))

impl store/goleveldb.(*Batch).Close : store.KVBatch.Close
  props C14
  requires rep: lbrep(b)
  modifies b.batch, b.merge, lops(b.batch)
  ensures ok: err == nil

# the content that v and the operations given so far make: merges count for the keys visited, explicit operations for the others
def lmerging(r, c, o, v, b) = forall k: Bytes {c[k]} {bmrg(b)[k]} :: if rdom(r)[k] && rank(r, k) < rpos(r) then fmok(bmo(b), k, v[k], bmrg(b)[k]) && c[k] == some(fm(bmo(b), k, v[k], bmrg(b)[k])) else c[k] == o[k]

impl store/goleveldb.(*Writer).ExecuteBatch : store.KVWriter.ExecuteBatch
  opt view *store/goleveldb.Batch
  props C09 C10 C15
  let V = kv(w.store)
  let O = applyOps(V, lops(as(b, "*store/goleveldb.Batch").batch))
  requires rep: w.store != nil && lsrep(w.store)
  requires batch: b != nil && (typeis(b, "*store/goleveldb.Batch") ==> ref(b) != 0 && lbrep(as(b, "*store/goleveldb.Batch")) && bmo(b) == moid(w.store.mo) && (w.store.mo != nil || bmrg(b) == nomrg))
  allocates
  inv merges(?r: range map[string][][]byte, ?q: *store/goleveldb.Batch): lmerging(r, applyOps(V, lops(q.batch)), O, V, q)
  ensures [C09] foreign: !typeis(b, "*store/goleveldb.Batch") ==> err != nil

fn store/goleveldb.(*Writer).NewBatchEx(w, options) (buf, b, err)
  props C10 C14
  requires w: w.store != nil
  requires size: options.TotalBytes >= 0
  allocates
  ensures [C10 C14] ok: err == nil && len(buf) == options.TotalBytes && typeis(b, "*store/goleveldb.Batch") && lbrep(as(b, "*store/goleveldb.Batch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.store.mo)
