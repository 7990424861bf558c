# Merge operators are functions of what they are given.
ghost mrg: (Array Bytes ML)         # operands per key held by an EmulatedMerge
def moid(mo) = uf("moid", "Int", mo)
# a list of byte slices holds the operands l
def holds(l, s) = mlen(l) == len(s) && forall i: Int {mat(l, i)} {s[i]} :: 0 <= i && i < len(s) ==> mat(l, i) == bytes(s[i]) && isalloc(s[i])

iface store.MergeOperator.PartialMerge(mo, key, l, r) (res, ok)
  allocates
  ensures ok: ok == pmok(moid(mo), bytes(key), bytes(l), bytes(r))
  ensures res: ok ==> bytes(res) == pm(moid(mo), bytes(key), bytes(l), bytes(r))
  ensures alloc: isalloc(res)
  ensures own: allocated(res) || ref(res) == ref(l) || ref(res) == ref(r)

# (a merge that succeeds gives a value, maybe an empty one)
iface store.MergeOperator.FullMerge(mo, key, ex, opnds) (res, ok)
  allocates
  ensures some: ok ==> res != nil
  ensures ok: forall l: ML {fmok(moid(mo), bytes(key), present(ex), l)} {fm(moid(mo), bytes(key), present(ex), l)} :: holds(l, opnds) ==> ok == fmok(moid(mo), bytes(key), present(ex), l) && (ok ==> bytes(res) == fm(moid(mo), bytes(key), present(ex), l))

# representation of an EmulatedMerge: the operands of each key, in lists that share nothing
def mrep(m) = m.Merges != nil && forall k: Bytes {mdom(m.Merges)[k]} {mrg(m)[k]} ::
      (!mdom(m.Merges)[k] ==> mrg(m)[k] == mnil) && (mdom(m.Merges)[k] ==> mrg(m)[k] != mnil && isalloc(mval(m.Merges, k)) && holds(mrg(m)[k], mval(m.Merges, k)))
def msep(m) = forall k: Bytes, l: Bytes {mdom(m.Merges)[k], mdom(m.Merges)[l]} :: mdom(m.Merges)[k] && mdom(m.Merges)[l] && k != l ==> ref(mval(m.Merges, k)) != ref(mval(m.Merges, l))

# every operand of the key is new, the value given, or in the place it was
def operown(m, key, val, had, was) = forall i: Int {mval(m.Merges, bytes(key))[i]} :: 0 <= i && i < len(mval(m.Merges, bytes(key))) ==>
      allocated(mval(m.Merges, bytes(key))[i]) || ref(mval(m.Merges, bytes(key))[i]) == ref(val) || had && i < len(was) && ref(mval(m.Merges, bytes(key))[i]) == old(ref(was[i]))

def mergeown(m, key, had, was) = forall i: Int {mval(m.Merges, bytes(key))[i]} :: 0 <= i && i < len(mval(m.Merges, bytes(key))) ==>
      allocated(mval(m.Merges, bytes(key))[i]) || had && i < len(was) && ref(mval(m.Merges, bytes(key))[i]) == old(ref(was[i]))

fn store.NewEmulatedMerge(mo) (m)
  props C14 C15
  allocates
  fresh m
  ensures mo: m.mo == mo
  ensures rep: mrep(m) && msep(m)
  ensures [C14 C15] empty: mrg(m) == nomrg
  ghostset mrg(m) := nomrg

fn store.(*EmulatedMerge).Merge(m, key, val)
  props C15
  requires rep: mrep(m) && msep(m)
  requires op: m.mo != nil
  allocates
  modifies map(m.Merges), elems(mval(m.Merges, bytes(key)))
  ghostset mrg(m) := store(old(mrg(m)), bytes(key), madd(moid(m.mo), bytes(key), old(mrg(m))[bytes(key)], bytes(val)))
  ensures [C15] rep: mrep(m)
  ensures sep: msep(m)
  ensures [C14] own: operown(m, key, val, old(mdom(m.Merges)[bytes(key)]), old(mval(m.Merges, bytes(key))))

# representation of an EmulatedBatch: its operations in order, in memory of its own
def orep(b) = off(b.Ops) == 0 && olen(bops(b)) == len(b.Ops) && forall i: Int {okat(bops(b), i)} {ovat(bops(b), i)} {b.Ops[i]} :: 0 <= i && i < len(b.Ops) ==>
      b.Ops[i] != nil && bytes(b.Ops[i].K) == okat(bops(b), i) && present(b.Ops[i].V) == ovat(bops(b), i) && isalloc(b.Ops[i]) && isalloc(b.Ops[i].K) && isalloc(b.Ops[i].V)
abs bmrg(b: *store.EmulatedBatch) = mrg(b.Merger) foot mrg(b.Merger), map(b.Merger.Merges)
abs bmo(b: *store.EmulatedBatch) = moid(b.Merger.mo)
def brep(b) = b.Merger != nil && mrep(b.Merger) && msep(b.Merger) && orep(b)

fn store.NewEmulatedBatch(mo) (b)
  props C10 C14 C15
  allocates
  fresh b
  ghostset bops(b) := onil
  ensures rep: brep(b)
  ensures mo: b.Merger.mo == mo
  ensures [C10 C14] noops: bops(b) == onil && bmrg(b) == nomrg

impl store.(*EmulatedBatch).Set : store.KVBatch.Set
  props C10 C14
  requires rep: brep(b)
  allocates
  modifies b.Ops, elems(b.Ops)
  ghostset bops(b) := osnoc(old(bops(b)), bytes(key), some(bytes(val)))
  ensures [C10] rep: orep(b)
  ensures mrep: mrep(b.Merger) && msep(b.Merger)
  ensures [C14] old: len(b.Ops) == len(old(b.Ops)) + 1 && forall i: Int {b.Ops[i]} :: 0 <= i && i < len(old(b.Ops)) ==> ref(b.Ops[i]) == old(ref(b.Ops[i]))
  ensures [C14] copies: (len(key) == 0 || allocated(b.Ops[len(b.Ops)-1].K)) && (len(val) == 0 || allocated(b.Ops[len(b.Ops)-1].V))

impl store.(*EmulatedBatch).Delete : store.KVBatch.Delete
  props C10 C14
  requires rep: brep(b)
  allocates
  modifies b.Ops, elems(b.Ops)
  ghostset bops(b) := osnoc(old(bops(b)), bytes(key), none)
  ensures [C10] rep: orep(b)
  ensures mrep: mrep(b.Merger) && msep(b.Merger)
  ensures [C14] old: len(b.Ops) == len(old(b.Ops)) + 1 && forall i: Int {b.Ops[i]} :: 0 <= i && i < len(old(b.Ops)) ==> ref(b.Ops[i]) == old(ref(b.Ops[i]))
  ensures [C14] copies: len(key) == 0 || allocated(b.Ops[len(b.Ops)-1].K)

impl store.(*EmulatedBatch).Merge : store.KVBatch.Merge
  props C14 C15
  requires rep: brep(b)
  requires op: b.Merger.mo != nil
  allocates
  modifies elems(mval(b.Merger.Merges, bytes(key)))
  ensures [C15] rep: mrep(b.Merger) && msep(b.Merger)
  ensures orep: orep(b)
  ensures [C14] copies: mergeown(b.Merger, key, old(mdom(b.Merger.Merges)[bytes(key)]), old(mval(b.Merger.Merges, bytes(key))))

impl store.(*EmulatedBatch).Reset : store.KVBatch.Reset
  props C14
  requires rep: brep(b)
  allocates
  modifies b.Ops, b.Merger
  ghostset bops(b) := onil
  ensures [C14] rep: brep(b)
  ensures mo: bmo(b) == old(bmo(b))

impl store.(*EmulatedBatch).Close : store.KVBatch.Close
  props C14
  requires rep: brep(b)
  ensures ok: err == nil
