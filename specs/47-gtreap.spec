# The treap engine: a treap never changes; its contents are the values of its items by their keys.
ghost tk: (Array Bytes OB)
ghost held: Bool            # a mutex

extern sync.(*Mutex).Lock(m)
  requires free: !held(m)
  ghostset held(m) := true

extern sync.(*Mutex).Unlock(m)
  requires locked: held(m)
  ghostset held(m) := false

def isitem(x) = typeis(x, "*store/gtreap.Item") && ref(as(x, "*store/gtreap.Item")) != 0
def itemk(x) = bytes(as(x, "*store/gtreap.Item").k)
def itemv(x) = bytes(as(x, "*store/gtreap.Item").v)

# (the memory of the items in a treap is not written to)
extern gtreap.(*Treap).Get(t, target) (itm)
  requires item: isitem(target)
  ensures found: (itm != nil) == is_some(tk(t)[itemk(target)])
  ensures item: itm != nil ==> isitem(itm) && itemk(itm) == itemk(target) && itemv(itm) == obv(tk(t)[itemk(target)]) && isalloc(as(itm, "*store/gtreap.Item")) && isalloc(as(itm, "*store/gtreap.Item").v) && as(itm, "*store/gtreap.Item").v != nil

extern gtreap.(*Treap).Upsert(t, item, prio) (r)
  requires item: isitem(item) && as(item, "*store/gtreap.Item").v != nil
  allocates
  fresh r
  ensures ok: r != nil && tk(r) == store(tk(t), itemk(item), some(itemv(item)))

extern gtreap.(*Treap).Delete(t, target) (r)
  requires item: isitem(target)
  allocates
  fresh r
  ensures ok: r != nil && tk(r) == store(tk(t), itemk(target), none)

abs kv(s: *store/gtreap.Store) = tk(s.t) foot s.t
abs wst(w: *store/gtreap.Writer) = w.s
abs rkv(r: *store/gtreap.Reader) = tk(r.t)
def gtsrep(s) = s.t != nil && !held(addr(s.m))

impl store/gtreap.(*Store).Reader : store.KVStore.Reader
  props C11
  requires rep: gtsrep(s)
  ensures [C11] rep: err == nil && typeis(r, "*store/gtreap.Reader") && as(r, "*store/gtreap.Reader").t != nil
  ensures [C09 C11] lock: !held(addr(s.m))

impl store/gtreap.(*Store).Writer : store.KVStore.Writer
  props C10
  requires rep: gtsrep(s)
  ensures [C10] rep: err == nil && typeis(w, "*store/gtreap.Writer")

impl store/gtreap.(*Reader).Get : store.KVReader.Get
  props C11
  requires rep: r.t != nil

impl store/gtreap.(*Reader).MultiGet : store.KVReader.MultiGet
  props C11
  requires rep: r.t != nil

impl store/gtreap.(*Reader).Close : store.KVReader.Close
  props C11
  requires rep: r.t != nil

fn store/gtreap.(*Writer).NewBatch(w) (b)
  props C10 C14
  requires w: w.s != nil
  allocates
  fresh b
  ensures [C10 C14] ok: typeis(b, "*store.EmulatedBatch") && brep(as(b, "*store.EmulatedBatch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.s.mo)

impl store/gtreap.(*Writer).ExecuteBatch : store.KVWriter.ExecuteBatch
  opt view *store.EmulatedBatch
  props C09 C10 C15
  let V = kv(w.s)
  requires rep: w.s != nil && gtsrep(w.s)
  requires batch: b != nil && (typeis(b, "*store.EmulatedBatch") ==> ref(b) != 0 && brep(as(b, "*store.EmulatedBatch")) && bmo(b) == moid(w.s.mo) && (w.s.mo != nil || bmrg(b) == nomrg))
  allocates
  inv merges(?r: range map[string][][]byte, ?t: cur *gtreap.Treap): merging(r, tk(t), V, as(b, "*store.EmulatedBatch"))
  inv ops(?t: cur *gtreap.Treap, ?n: int): eqops(tk(t), V, as(b, "*store.EmulatedBatch"), n)
  inv mrgs(?t: cur *gtreap.Treap, ?n: int): eqmrg(tk(t), V, as(b, "*store.EmulatedBatch"), n)
  inv some(?t: cur *gtreap.Treap): t != nil
  ensures [C09] rep: gtsrep(w.s)
  ensures [C09] foreign: !typeis(b, "*store.EmulatedBatch") ==> err != nil

fn store/gtreap.(*Writer).NewBatchEx(w, options) (buf, b, err)
  props C10 C14
  requires w: w.s != nil
  requires size: options.TotalBytes >= 0
  allocates
  ensures [C10 C14] ok: err == nil && len(buf) == options.TotalBytes && typeis(b, "*store.EmulatedBatch") && brep(as(b, "*store.EmulatedBatch")) && bops(b) == onil && bmrg(b) == nomrg && bmo(b) == moid(w.s.mo)
