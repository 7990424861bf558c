fn store.MultiGet(r, keys) (vals, err)
  props C11
  requires r: r != nil && !closed(r)
  allocates
  fresh vals
  modifies failed
  inv got(?vs: [][]byte, ?n: int): 0 <= n && n <= len(vs) && forall i: Int {vs[i]} :: 0 <= i && i < n ==> present(vs[i]) == rkv(r)[bytes(keys[i])] && (vs[i] == nil || allocated(vs[i]) && isalloc(vs[i]))
  ensures [C11] all: err == nil ==> len(vals) == len(keys) && forall i: Int {vals[i]} :: 0 <= i && i < len(keys) ==> present(vals[i]) == rkv(r)[bytes(keys[i])]
  ensures [C11] own: err == nil ==> forall i: Int {vals[i]} :: 0 <= i && i < len(keys) ==> vals[i] == nil || allocated(vals[i])
  ensures [C11] errs: (err == nil ==> failed == old(failed)) && (failed == old(failed) || err != nil)
  ensures [C11] noval: err != nil ==> vals == nil

# the null store
fn store/null.New(mo, config) (s, err)
  props C25
  allocates
  ensures [C25] ok: err == nil && s != nil && typeis(s, "*store/null.Store")

fn store/null.(*Store).Close(i) (err)
  props C25
  ensures [C25] ok: err == nil

fn store/null.(*Store).Reader(i) (r, err)
  props C25
  allocates
  ensures [C25] ok: err == nil && typeis(r, "*store/null.reader") && ref(as(r, "*store/null.reader")) != 0

fn store/null.(*Store).Writer(i) (w, err)
  props C25
  allocates
  ensures [C25] ok: err == nil && typeis(w, "*store/null.writer") && ref(as(w, "*store/null.writer")) != 0

fn store/null.(*reader).Get(r, key) (v, err)
  props C25
  ensures [C25] none: v == nil && err == nil

fn store/null.(*reader).MultiGet(r, keys) (vals, err)
  props C25
  allocates
  fresh vals
  ensures [C25] none: err == nil && len(vals) == len(keys) && forall i: Int {vals[i]} :: 0 <= i && i < len(vals) ==> vals[i] == nil

fn store/null.(*reader).PrefixIterator(r, prefix) (it)
  props C25
  allocates
  ensures [C25] ok: typeis(it, "*store/null.iterator") && ref(as(it, "*store/null.iterator")) != 0

fn store/null.(*reader).RangeIterator(r, start, end) (it)
  props C25
  allocates
  ensures [C25] ok: typeis(it, "*store/null.iterator") && ref(as(it, "*store/null.iterator")) != 0

fn store/null.(*reader).Close(r) (err)
  props C25
  ensures [C25] ok: err == nil

fn store/null.(*iterator).SeekFirst(i)
  opt optional yes
  props C25
  ensures [C25] nothing: true
fn store/null.(*iterator).Seek(i, k)
  props C25
  ensures [C25] nothing: true
fn store/null.(*iterator).Next(i)
  props C25
  ensures [C25] nothing: true
fn store/null.(*iterator).Current(i) (k, v, ok)
  props C25
  ensures [C25] none: k == nil && v == nil && !ok
fn store/null.(*iterator).Key(i) (k)
  props C25
  ensures [C25] none: k == nil
fn store/null.(*iterator).Value(i) (v)
  props C25
  ensures [C25] none: v == nil
fn store/null.(*iterator).Valid(i) (ok)
  props C25
  ensures [C25] none: !ok
fn store/null.(*iterator).Close(i) (err)
  props C25
  ensures [C25] ok: err == nil
fn store/null.(*batch).Set(i, key, val)
  props C25
  ensures [C25] nothing: true
fn store/null.(*batch).Delete(i, key)
  props C25
  ensures [C25] nothing: true
fn store/null.(*batch).Merge(i, key, val)
  props C25
  ensures [C25] nothing: true
fn store/null.(*batch).Reset(i)
  props C25
  ensures [C25] nothing: true
fn store/null.(*batch).Close(i) (err)
  props C25
  ensures [C25] ok: err == nil
fn store/null.(*writer).NewBatch(w) (b)
  props C25
  allocates
  ensures [C25] ok: typeis(b, "*store/null.batch") && ref(as(b, "*store/null.batch")) != 0
fn store/null.(*writer).NewBatchEx(w, options) (buf, b, err)
  props C25
  allocates
  requires size: options.TotalBytes >= 0
  ensures [C25] ok: err == nil && len(buf) == options.TotalBytes && typeis(b, "*store/null.batch") && ref(as(b, "*store/null.batch")) != 0
fn store/null.(*writer).ExecuteBatch(w, b) (err)
  props C25
  ensures [C25] ok: err == nil
fn store/null.(*writer).Close(w) (err)
  props C25
  ensures [C25] ok: err == nil
