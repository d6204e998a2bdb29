// Stores: which record an observation or query reaches (internal/storage)
package internal/storage

// what a store has done so far: a history of events, built by functions nothing else is assumed about
ghost hist int
ghost seenDone bool
func evUpdate(h int, b ifc, k u64) int
func evGet(h int, b ifc, k u64, n int) int
// collator (its tables), row (its fields), the buffer, whether it is new
func evApply(h int, ci int, cw int, cc int, cd int, row int, roff int, rlen int, buf int, boff int, blen int, init bool) int
func evRead(h int, cc int, cd int, q int, qoff int, qlen int, rec str) int
func histErr(h int) ifc
func histFound(h int) bool
func histText(h int) str
// the buffer the backend hands to the update function
ghost uBase int
ghost uOff int
ghost uLen int
ghost uInit bool
// whether it did
ghost uRan bool

// the backend calls the function it is given once, on memory of its own, or not at all
ifc storage.Backend.Update(b, k, fn) (err)
  modifies hist, uBase, uOff, uLen, uInit, uRan
  invokes fn(data, init) (e)
  begins hist == evUpdate(old(hist), b, k) && uBase == base(data) && uOff == off(data) && uLen == len(data) && uInit == init
  ensures ran ==> uRan && err == e
  ensures !ran ==> !uRan && err == histErr(hist)
ifc storage.Backend.Get(b, k, buf) (ok)
  modifies hist, elems(buf)
  ensures hist == evGet(old(hist), b, k, len(buf))
  ensures ok == histFound(hist) && (ok ==> seq(buf) == histText(hist))

package internal/collation
contract[events] (Collator).Update(c, r, buf, init) (err)
  trusted an update is recorded as one event; that it changes nothing but the buffer is proved for C13
  modifies hist, elems(buf)
  ensures hist == evApply(old(hist), base(c.inits), base(c.writers), ref(c.contWriters), ref(c.discWriters), base(r.Data), off(r.Data), len(r.Data), base(buf), off(buf), len(buf), init)
  ensures err == histErr(hist)
contract[events] (Collator).Read(c, fml, buf) (res, err)
  trusted a read is recorded as one event; that it changes nothing is proved for C14
  modifies hist
  ensures hist == evRead(old(hist), ref(c.contReaders), ref(c.discReaders), base(fml), off(fml), len(fml), old(seq(buf)))
  ensures err == histErr(hist) && base(res.FieldMeasureValues) == hist && len(res.FieldMeasureValues) >= 0

package internal/storage

contract (*Store).Write(s, ctx, r) (err)
  for C16 C25
  view events
  requires s != nil && s.Backend != nil && ctx != nil && !seenDone
  requires forall i int {len(s.Collator.keys[i])} :: 0 <= i && i < len(s.Collator.keys) ==> seq(s.Collator.keys[i]) == kN(i)
  requires forall i int {len(r.Data[i].F)} :: 0 <= i && i < len(r.Data) ==> seq(r.Data[i].F) == fvF(i) && seq(r.Data[i].V) == fvV(i)
  requires firsts(len(s.Collator.keys), len(r.Data))
  modifies hist, seenDone, uBase, uOff, uLen, uInit, uRan
  let n = len(s.Collator.keys)
  let sent = evUpdate(old(hist), s.Backend, keyH(n))
  // a row lacking a key field, or a request already cancelled, reaches no record
  ensures lacks(n) ==> hist == old(hist) && err == nil
  ensures uf("cancelled", "bool", ctx) ==> hist == old(hist)
  ensures !lacks(n) && seenDone ==> hist == old(hist) && err != nil
  // otherwise the row is applied once to the record its keys address, by this store's collator
  ensures !lacks(n) && !seenDone && uRan ==> hist == evApply(sent, base(s.Collator.inits), base(s.Collator.writers), ref(s.Collator.contWriters), ref(s.Collator.discWriters), base(r.Data), off(r.Data), len(r.Data), uBase, uOff, uLen, uInit)
  ensures !lacks(n) && !seenDone && !uRan ==> hist == sent
  ensures !lacks(n) && !seenDone ==> err == histErr(hist)

contract (*Store).Read(s, ctx, q) (res, err)
  for C16 C25
  view events
  requires s != nil && s.Backend != nil && ctx != nil && !seenDone
  requires 0 <= s.Collator.size && s.Collator.size <= 0x1000000
  requires forall i int {len(s.Collator.keys[i])} :: 0 <= i && i < len(s.Collator.keys) ==> seq(s.Collator.keys[i]) == kN(i)
  requires forall i int {len(q.Criteria[i].F)} :: 0 <= i && i < len(q.Criteria) ==> seq(q.Criteria[i].F) == fvF(i) && seq(q.Criteria[i].V) == fvV(i)
  requires firsts(len(s.Collator.keys), len(q.Criteria))
  modifies hist, seenDone
  let n = len(s.Collator.keys)
  ensures lacks(n) ==> hist == old(hist) && err == nil && len(res.FieldMeasureValues) == 0
  let got = evGet(old(hist), s.Backend, keyH(n), s.Collator.size)
  // a record is copied whole and the measures asked for are read from the copy by this store's collator
  ensures !lacks(n) && histFound(got) ==> hist == evRead(got, ref(s.Collator.contReaders), ref(s.Collator.discReaders), base(q.FieldMeasures), off(q.FieldMeasures), len(q.FieldMeasures), histText(got)) && err == histErr(hist)
  ensures !lacks(n) && histFound(got) ==> base(res.FieldMeasureValues) == hist
  ensures !lacks(n) && !histFound(got) ==> hist == got && err == nil && len(res.FieldMeasureValues) == 0
