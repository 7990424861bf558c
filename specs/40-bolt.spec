# The bolt engine: a database is a map from bucket names to contents; a transaction is a copy of it.
ghost dbk: (Array Bytes (Array Bytes OB))   # committed contents of a database
ghost dbx: (Array Bytes Bool)               # its buckets
ghost txk: (Array Bytes (Array Bytes OB))   # contents seen by a transaction
ghost txx: (Array Bytes Bool)
ghost txdb: Int
ghost txw: Bool                             # read-write
ghost txopen: Bool
ghost btx: Int                              # transaction of a bucket
ghost bnm: Bytes                            # name of a bucket
ghost cbk: Int                              # bucket of a cursor
ghost ccur: OKey                            # where a cursor stands
ghost global opentx: Int                    # transactions not finished

extern bolt.(*DB).Begin(db, w) (tx, err)
  allocates
  fresh tx
  ensures ok: err == nil ==> tx != nil && txk(tx) == dbk(db) && txx(tx) == dbx(db) && txw(tx) == w && txdb(tx) == ref(db)
  ghostset txopen(tx) := err == nil
  ghostset opentx := if err == nil then old(opentx) + 1 else old(opentx)

extern bolt.(*Tx).Bucket(tx, name) (b)
  requires open: txopen(tx)
  allocates
  fresh b
  ensures ok: (b != nil) == txx(tx)[bytes(name)]
  ensures of: b != nil ==> btx(b) == ref(tx) && bnm(b) == bytes(name)

extern bolt.(*Bucket).Get(b, key) (v)
  requires open: b != nil && txopen(btx(b))
  neg v if txk(btx(b))[bnm(b)][bytes(key)] != none
  ensures val: present(v) == txk(btx(b))[bnm(b)][bytes(key)]

extern bolt.(*Bucket).Put(b, key, val) (err)
  requires open: b != nil && txopen(btx(b)) && txw(btx(b))
  modifies txk(btx(b))
  ensures ok: err == nil ==> txk(btx(b)) == store(old(txk(btx(b))), bnm(b), store(old(txk(btx(b)))[bnm(b)], bytes(key), some(bytes(val))))

extern bolt.(*Bucket).Delete(b, key) (err)
  requires open: b != nil && txopen(btx(b)) && txw(btx(b))
  modifies txk(btx(b))
  ensures ok: err == nil ==> txk(btx(b)) == store(old(txk(btx(b))), bnm(b), store(old(txk(btx(b)))[bnm(b)], bytes(key), none))

extern bolt.(*Bucket).Cursor(b) (c)
  requires open: b != nil && txopen(btx(b))
  allocates
  fresh c
  ensures ok: c != nil && cbk(c) == ref(b)

extern bolt.(*Cursor).Seek(c, key) (k, v)
  requires open: txopen(btx(cbk(c)))
  modifies ccur(c)
  neg k if is_akey(lge(txk(btx(cbk(c)))[bnm(cbk(c))], AllR, bytes(key)))
  neg v if is_akey(lge(txk(btx(cbk(c)))[bnm(cbk(c))], AllR, bytes(key)))
  ensures cur: ccur(c) == lge(txk(btx(cbk(c)))[bnm(cbk(c))], AllR, bytes(key))
  ensures key: (k == nil) == is_nokey(ccur(c))
  ensures kv: k != nil ==> bytes(k) == okey(ccur(c)) && bytes(v) == obv(txk(btx(cbk(c)))[bnm(cbk(c))][okey(ccur(c))])

extern bolt.(*Cursor).Next(c) (k, v)
  requires open: txopen(btx(cbk(c)))
  requires valid: is_akey(ccur(c))
  modifies ccur(c)
  neg k if is_akey(lgt(txk(btx(cbk(c)))[bnm(cbk(c))], AllR, okey(ccur(c))))
  neg v if is_akey(lgt(txk(btx(cbk(c)))[bnm(cbk(c))], AllR, okey(ccur(c))))
  ensures cur: ccur(c) == lgt(txk(btx(cbk(c)))[bnm(cbk(c))], AllR, okey(old(ccur(c))))
  ensures key: (k == nil) == is_nokey(ccur(c))
  ensures kv: k != nil ==> bytes(k) == okey(ccur(c)) && bytes(v) == obv(txk(btx(cbk(c)))[bnm(cbk(c))][okey(ccur(c))])

extern bolt.(*Tx).Commit(tx) (err)
  requires open: txopen(tx) && txw(tx)
  modifies dbk(txdb(tx))
  ensures ok: err == nil ==> dbk(txdb(tx)) == txk(tx)
  ensures bad: err != nil ==> dbk(txdb(tx)) == old(dbk(txdb(tx)))
  ghostset txopen(tx) := false
  ghostset opentx := old(opentx) - 1

extern bolt.(*Tx).Rollback(tx) (err)
  requires open: txopen(tx)
  ghostset txopen(tx) := false
  ghostset opentx := old(opentx) - 1

# the store: one bucket of a database
abs kv(s: *store/boltdb.Store) = dbk(s.db)[bytes(s.bucket)] foot dbk(s.db)
abs wst(w: *store/boltdb.Writer) = w.store
abs rkv(r: *store/boltdb.Reader) = txk(r.tx)[bnm(r.bucket)] foot txk(r.tx)
def bsrep(s) = s.db != nil && dbx(s.db)[bytes(s.bucket)]
def brrep(r) = r.tx != nil && r.bucket != nil && btx(r.bucket) == ref(r.tx) && (!closed(r) ==> txopen(r.tx))

impl store/boltdb.(*Store).Reader : store.KVStore.Reader
  props C11
  requires rep: bsrep(s)
  modifies opentx
  ensures [C11] rep: err == nil ==> typeis(r, "*store/boltdb.Reader") && brrep(as(r, "*store/boltdb.Reader")) && as(r, "*store/boltdb.Reader").store == s
  ensures [C09 C11] tx: opentx == if err == nil then old(opentx) + 1 else old(opentx)

impl store/boltdb.(*Store).Writer : store.KVStore.Writer
  props C10
  requires rep: bsrep(s)
  ensures [C10] rep: err == nil && typeis(w, "*store/boltdb.Writer")

impl store/boltdb.(*Reader).Get : store.KVReader.Get
  props C11
  requires rep: brrep(r)

impl store/boltdb.(*Reader).MultiGet : store.KVReader.MultiGet
  props C11
  requires rep: brrep(r)

impl store/boltdb.(*Reader).Close : store.KVReader.Close
  props C09 C11
  requires rep: brrep(r)
  modifies opentx, txopen(r.tx)
  ensures [C09 C11] tx: opentx == old(opentx) - 1

# an iterator: a cursor walking over all keys; the region it shows is given by its bounds
abs itreg(it: *store/boltdb.Iterator) = if it.prefix != nil then PrefixR(bytes(it.prefix)) else rangeR(it.start, it.end) foot it.prefix, it.start, it.end
abs icur(it: *store/boltdb.Iterator) = if it.valid then akey(bytes(it.key)) else nokey foot it.valid, it.key, it.val, ccur(it.cursor)
abs itkv(it: *store/boltdb.Iterator) = txk(it.tx)[bnm(cbk(it.cursor))] foot txk(it.tx)
def birep(it) = it.tx != nil && it.cursor != nil && btx(cbk(it.cursor)) == ref(it.tx) && txopen(it.tx) && (it.end == nil || len(it.end) > 0)
def biregs(it) = it.prefix == nil || it.start == nil && it.end == nil
def bicur(it) = it.valid ==> it.key != nil && ref(it.key) < 0 && ref(it.val) < 0 && ccur(it.cursor) == akey(bytes(it.key)) && inR(itreg(it), bytes(it.key)) && liveR(itkv(it), AllR, bytes(it.key)) && bytes(it.val) == obv(itkv(it)[bytes(it.key)])

impl store/boltdb.(*Iterator).Seek : store.KVIterator.Seek
  opt keep itermem
  props C12 C13
  requires rep: birep(it) && biregs(it)
  ensures [C12 C13] rep: bicur(it)

impl store/boltdb.(*Iterator).Next : store.KVIterator.Next
  props C12 C13
  requires rep: birep(it) && biregs(it) && bicur(it)
  ensures [C12 C13] rep: bicur(it)

impl store/boltdb.(*Iterator).Current : store.KVIterator.Current
  props C12 C13
  requires rep: birep(it) && biregs(it) && bicur(it)

impl store/boltdb.(*Iterator).Key : store.KVIterator.Key
  props C12 C13
  requires rep: birep(it) && biregs(it) && bicur(it)

impl store/boltdb.(*Iterator).Value : store.KVIterator.Value
  props C12 C13
  requires rep: birep(it) && biregs(it) && bicur(it)

impl store/boltdb.(*Iterator).Valid : store.KVIterator.Valid
  props C12 C13
  requires rep: birep(it) && biregs(it) && bicur(it)

impl store/boltdb.(*Iterator).Close : store.KVIterator.Close
  props C12 C13
  requires rep: birep(it)

impl store/boltdb.(*Reader).PrefixIterator : store.KVReader.PrefixIterator
  props C12
  requires rep: brrep(r)
  ensures [C12] rep: typeis(it, "*store/boltdb.Iterator") && birep(as(it, "*store/boltdb.Iterator")) && biregs(as(it, "*store/boltdb.Iterator")) && bicur(as(it, "*store/boltdb.Iterator"))

impl store/boltdb.(*Reader).RangeIterator : store.KVReader.RangeIterator
  props C13
  requires rep: brrep(r)
  ensures [C13] rep: typeis(it, "*store/boltdb.Iterator") && birep(as(it, "*store/boltdb.Iterator")) && biregs(as(it, "*store/boltdb.Iterator")) && bicur(as(it, "*store/boltdb.Iterator"))

# batches
fn store/boltdb.(*Writer).NewBatch(w) (b)
  props C10 C14
  requires w: w.store != nil
  allocates
  fresh b
  ensures [C10 C14] ok: typeis(b, "*store.EmulatedBatch") && brep(as(b, "*store.EmulatedBatch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.store.mo)

# the content a batch makes of v with the first n of its operations
def eqops(c, v, b, n) = forall k: Bytes {c[k]} {bmrg(b)[k]} :: bmrg(b)[k] == mnil ==> c[k] == applyOps(v, otake(bops(b), n))[k]
def eqmrg(c, v, b, n) = forall k: Bytes {c[k]} {bmrg(b)[k]} :: bmrg(b)[k] != mnil && !touched(otake(bops(b), n), k) ==> fmok(bmo(b), k, v[k], bmrg(b)[k]) && c[k] == some(fm(bmo(b), k, v[k], bmrg(b)[k]))
def merging(r, c, v, b) = forall k: Bytes {c[k]} {bmrg(b)[k]} :: if rdom(r)[k] && rank(r, k) < rpos(r) then fmok(bmo(b), k, v[k], bmrg(b)[k]) && c[k] == some(fm(bmo(b), k, v[k], bmrg(b)[k])) else c[k] == v[k]

impl store/boltdb.(*Writer).ExecuteBatch : store.KVWriter.ExecuteBatch
  props C09 C10 C15
  let V = kv(w.store)
  requires rep: w.store != nil && bsrep(w.store)
  requires batch: b != nil && (typeis(b, "*store.EmulatedBatch") ==> ref(b) != 0 && brep(as(b, "*store.EmulatedBatch")) && bmo(as(b, "*store.EmulatedBatch")) == moid(w.store.mo) && (w.store.mo != nil || bmrg(as(b, "*store.EmulatedBatch")) == nomrg))
  opt view *store.EmulatedBatch
  modifies opentx, dbk(w.store.db)
  allocates
  inv merges(?r: range map[string][][]byte, ?bk: *bolt.Bucket): merging(r, txk(btx(bk))[bnm(bk)], V, as(b, "*store.EmulatedBatch"))
  inv ops(?bk: *bolt.Bucket, ?n: int): eqops(txk(btx(bk))[bnm(bk)], V, as(b, "*store.EmulatedBatch"), n)
  inv mrgs(?bk: *bolt.Bucket, ?n: int): eqmrg(txk(btx(bk))[bnm(bk)], V, as(b, "*store.EmulatedBatch"), n)
  ensures [C09] tx: opentx == old(opentx)
  ensures [C09] foreign: !typeis(b, "*store.EmulatedBatch") ==> err != nil

fn store/boltdb.(*Writer).NewBatchEx(w, options) (buf, b, err)
  props C10 C14
  requires w: w.store != nil
  requires size: options.TotalBytes >= 0
  allocates
  ensures [C10 C14] ok: err == nil && len(buf) == options.TotalBytes && typeis(b, "*store.EmulatedBatch") && brep(as(b, "*store.EmulatedBatch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.store.mo)
