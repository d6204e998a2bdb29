// Measures and collations (internal/collation)
package internal/collation

// ---- measures ----
// an observation v takes the extreme from c to w
def maxRel(c, v, w) = (w == c || w == v) && (!isnan(v) ==> v <= w) && (!isnan(c) ==> c <= w)
def minRel(c, v, w) = (w == c || w == v) && (!isnan(v) ==> v >= w) && (!isnan(c) ==> c >= w)
def st8(d) = frombits(le64(d, 0))
contract (Max).ContWriter(m) then (buf, init, v) (err)
  for C10
  requires len(buf) >= 8
  modifies elems(buf[0:8])
  ensures err == nil
  ensures !init ==> maxRel(st8(old(seq(buf))), v, st8(seq(buf)))
  ensures init ==> st8(seq(buf)) == v
contract (Min).ContWriter(m) then (buf, init, v) (err)
  for C10
  requires len(buf) >= 8
  modifies elems(buf[0:8])
  ensures err == nil
  ensures !init ==> minRel(st8(old(seq(buf))), v, st8(seq(buf)))
  ensures init ==> st8(seq(buf)) == v
contract (Max).Initializer(m) then (buf) (err)
  for C10
  requires len(buf) >= 8
  modifies elems(buf[0:8])
  ensures err == nil && isnan(st8(seq(buf)))
contract (Min).Initializer(m) then (buf) (err)
  for C10
  requires len(buf) >= 8
  modifies elems(buf[0:8])
  ensures err == nil && isnan(st8(seq(buf)))
contract (Max).ContReader(m) then (buf) (v, err)
  for C10
  requires len(buf) >= 8
  ensures err == nil && v == st8(seq(buf))
contract (Min).ContReader(m) then (buf) (v, err)
  for C10
  requires len(buf) >= 8
  ensures err == nil && v == st8(seq(buf))
contract (Max).Size(m) (n)
  for C10
  ensures n == 8
contract (Min).Size(m) (n)
  for C10
  ensures n == 8
// s[0] is not a number, s[i+1] the extreme after observing a[i]
lemma max_bounds(s [int]f64, a [int]f64, n int, k int)
  for C10
  induct n
  requires forall i int {a[i]} :: 0 <= i && i < n ==> maxRel(s[i], a[i], s[i+1])
  requires 0 <= k && k < n && !isnan(a[k])
  ensures a[k] <= s[n]
func maxAt(s [int]f64, a [int]f64, n int) int = if n <= 0 then 0 - 1 else if s[n] == a[n-1] then n - 1 else maxAt(s, a, n-1)
lemma max_observed(s [int]f64, a [int]f64, n int)
  for C10
  induct n
  requires forall i int {a[i]} :: 0 <= i && i < n ==> maxRel(s[i], a[i], s[i+1])
  requires n >= 0 && isnan(s[0])
  ensures isnan(s[n]) || 0 <= maxAt(s, a, n) && maxAt(s, a, n) < n && a[maxAt(s, a, n)] == s[n]
// s[0] is not a number, s[i+1] the extreme after observing a[i]
lemma min_bounds(s [int]f64, a [int]f64, n int, k int)
  for C10
  induct n
  requires forall i int {a[i]} :: 0 <= i && i < n ==> minRel(s[i], a[i], s[i+1])
  requires 0 <= k && k < n && !isnan(a[k])
  ensures a[k] >= s[n]
func minAt(s [int]f64, a [int]f64, n int) int = if n <= 0 then 0 - 1 else if s[n] == a[n-1] then n - 1 else minAt(s, a, n-1)
lemma min_observed(s [int]f64, a [int]f64, n int)
  for C10
  induct n
  requires forall i int {a[i]} :: 0 <= i && i < n ==> minRel(s[i], a[i], s[i+1])
  requires n >= 0 && isnan(s[0])
  ensures isnan(s[n]) || 0 <= minAt(s, a, n) && minAt(s, a, n) < n && a[minAt(s, a, n)] == s[n]
// a record part holding a counter of precision p, and its registers
def cardOK(d, n, p) = n >= hlLen(regs(p)) && hlHeader(d, p)
def cardReg(buf, j) = bk(seq(buf[12:len(buf)]), 6, j)
contract (Cardinality).DiscWriter(c) then (buf, init, v) (err)
  for C11
  split c.Precision in 4..18
  use bk_ext
  requires 4 <= c.Precision && c.Precision <= 18
  requires len(buf) == hlLen(regs(u8(c.Precision)))
  requires init || hlHeader(seq(buf), u8(c.Precision))
  requires base(v) != base(buf)
  modifies elems(buf[0:len(buf)])
  let s = seq(v)
  let p = u8(c.Precision)
  ensures err == nil && hlHeader(seq(buf), p)
  ensures forall j int {cardReg(buf, j)} :: 0 <= j && j < regs(p) ==> cardReg(buf, j) == (if j == route(s, p) then max8(if init then 0 else old(cardReg(buf, j)), rank(s, p)) else if init then 0 else old(cardReg(buf, j)))
contract (Cardinality).Initializer(c) then (buf) (err)
  for C11
  split c.Precision in 4..18
  use bk_ext
  requires 4 <= c.Precision && c.Precision <= 18
  requires len(buf) == hlLen(regs(u8(c.Precision)))
  modifies elems(buf[0:len(buf)])
  let p = u8(c.Precision)
  ensures err == nil && hlHeader(seq(buf), p)
  ensures forall j int {cardReg(buf, j)} :: 0 <= j && j < regs(p) ==> cardReg(buf, j) == 0
contract (Cardinality).ContReader(c) then (buf) (v, err)
  for C11
  requires 4 <= c.Precision && c.Precision <= 18
  requires len(buf) == hlLen(regs(u8(c.Precision)))
  let p = u8(c.Precision)
  ensures hlHeader(seq(buf), p) ==> err == nil && v == i2f(hllCount(seq(buf[12:len(buf)]), p))
contract (Cardinality).Size(c) (n)
  for C11
  requires 4 <= c.Precision && c.Precision <= 18
  ensures n == hlLen(regs(u8(c.Precision)))

// ---- a row applied to a record ----
// measure functions change nothing but their part of the record, and what they leave there and the
// error they report depend only on what was there and on their arguments
func initNew(f fn, d str) str
func initErr(f fn, d str) ifc
functype collation.InitFunc(f, buf) (err)
  modifies elems(buf)
  ensures seq(buf) == initNew(f, old(seq(buf))) && err == initErr(f, old(seq(buf)))
func rwNew(f fn, d str, init bool) str
func rwErr(f fn, d str, init bool) ifc
functype collation.RowWriterFunc(f, buf, init) (err)
  modifies elems(buf)
  ensures seq(buf) == rwNew(f, old(seq(buf)), init) && err == rwErr(f, old(seq(buf)), init)
func cwNew(f fn, d str, init bool, v f64) str
func cwErr(f fn, d str, init bool, v f64) ifc
functype collation.ContWriterFunc(f, buf, init, v) (err)
  modifies elems(buf)
  ensures seq(buf) == cwNew(f, old(seq(buf)), init, v) && err == cwErr(f, old(seq(buf)), init, v)
func dwNew(f fn, d str, init bool, v str) str
func dwErr(f fn, d str, init bool, v str) ifc
functype collation.DiscWriterFunc(f, buf, init, v) (err)
  modifies elems(buf)
  ensures seq(buf) == dwNew(f, old(seq(buf)), init, seq(v)) && err == dwErr(f, old(seq(buf)), init, seq(v))

// the collator's tables and the row, as plain functions
opaque func piece(d str, lo int, hi int) str = sub(d, lo, hi)
func inFn(i int) fn
func inLo(i int) int
func inHi(i int) int
func rwFn(i int) fn
func rwLo(i int) int
func rwHi(i int) int
func cwHas(k str) bool
func cwN(k str) int
func cwFn(k str, i int) fn
func cwLo(k str, i int) int
func cwHi(k str, i int) int
func dwHas(k str) bool
func dwN(k str) int
func dwFn(k str, i int) fn
func dwLo(k str, i int) int
func dwHi(k str, i int) int
func fName(i int) str
func fText(i int) str
def okRange(lo, hi, n) = 0 <= lo && lo <= hi && hi <= n
def numVal(t) = uf("parsefloat", "f64", t)
def numErr(t) = uf("parsefloaterr", "ifc", t)

def initPart(f, n) = if f == nil then zeros(n) else initNew(f, zeros(n))
def initFail(f, n) = if f == nil then nil else initErr(f, zeros(n))
contract (initializer).Init(i, buf) (err)
  for C13 C25
  requires okRange(i.Low, i.High, len(buf))
  modifies elems(buf)
  ensures seq(buf) == put(old(seq(buf)), i.Low, initPart(i.Fn, i.High - i.Low))
  ensures err == initFail(i.Fn, i.High - i.Low)
  inv seq(buf) == put(old(seq(buf)), i.Low, zeros(?j)) && ?j <= i.High - i.Low
contract (anyWriter).Update(a, buf, init) (err)
  for C13 C25
  requires a.Fn != nil && okRange(a.Low, a.High, len(buf))
  modifies elems(buf)
  reveal piece
  let part = piece(seq(buf), a.Low, a.High)
  ensures seq(buf) == put(old(seq(buf)), a.Low, rwNew(a.Fn, part, init))
  ensures err == rwErr(a.Fn, part, init)
contract (contWriter).UpdateFloat64(c, buf, init, v) (err)
  for C13 C25
  requires c.Fn != nil && okRange(c.Low, c.High, len(buf))
  modifies elems(buf)
  reveal piece
  let part = piece(seq(buf), c.Low, c.High)
  ensures seq(buf) == put(old(seq(buf)), c.Low, cwNew(c.Fn, part, init, v))
  ensures err == cwErr(c.Fn, part, init, v)
contract (discWriter).UpdateItem(d, buf, init, v) (err)
  for C13 C25
  requires d.Fn != nil && okRange(d.Low, d.High, len(buf)) && base(v) != base(buf)
  modifies elems(buf)
  reveal piece
  let part = piece(seq(buf), d.Low, d.High)
  ensures seq(buf) == put(old(seq(buf)), d.Low, dwNew(d.Fn, part, init, seq(v)))
  ensures err == dwErr(d.Fn, part, init, seq(v))

// the record after, and the error of, the first i steps; a failed step ends the update
func inD(d str, i int) str = if i <= 0 then d else put(inD(d, i-1), inLo(i-1), if inFn(i-1) == nil then zeros(inHi(i-1) - inLo(i-1)) else initNew(inFn(i-1), zeros(inHi(i-1) - inLo(i-1))))
func inE(i int) ifc = if i <= 0 then nil else if inE(i-1) != nil then inE(i-1) else if inFn(i-1) == nil then nil else initErr(inFn(i-1), zeros(inHi(i-1) - inLo(i-1)))
func rwD(d str, i int) str = if i <= 0 then d else put(rwD(d, i-1), rwLo(i-1), rwNew(rwFn(i-1), piece(rwD(d, i-1), rwLo(i-1), rwHi(i-1)), false))
func rwE(d str, i int) ifc = if i <= 0 then nil else if rwE(d, i-1) != nil then rwE(d, i-1) else rwErr(rwFn(i-1), piece(rwD(d, i-1), rwLo(i-1), rwHi(i-1)), false)
func cwD(d str, k str, v f64, i int) str = if i <= 0 then d else put(cwD(d, k, v, i-1), cwLo(k, i-1), cwNew(cwFn(k, i-1), piece(cwD(d, k, v, i-1), cwLo(k, i-1), cwHi(k, i-1)), false, v))
func cwE(d str, k str, v f64, i int) ifc = if i <= 0 then nil else if cwE(d, k, v, i-1) != nil then cwE(d, k, v, i-1) else cwErr(cwFn(k, i-1), piece(cwD(d, k, v, i-1), cwLo(k, i-1), cwHi(k, i-1)), false, v)
func dwD(d str, k str, v str, i int) str = if i <= 0 then d else put(dwD(d, k, v, i-1), dwLo(k, i-1), dwNew(dwFn(k, i-1), piece(dwD(d, k, v, i-1), dwLo(k, i-1), dwHi(k, i-1)), false, v))
func dwE(d str, k str, v str, i int) ifc = if i <= 0 then nil else if dwE(d, k, v, i-1) != nil then dwE(d, k, v, i-1) else dwErr(dwFn(k, i-1), piece(dwD(d, k, v, i-1), dwLo(k, i-1), dwHi(k, i-1)), false, v)
def numD(d, k, t) = if cwHas(k) then cwD(d, k, numVal(t), cwN(k)) else d
def fieldD(d, k, t) = if dwHas(k) then dwD(numD(d, k, t), k, t, dwN(k)) else numD(d, k, t)
def numE(d, k, t) = if cwHas(k) then (if numErr(t) != nil then numErr(t) else cwE(d, k, numVal(t), cwN(k))) else nil
def fieldE(d, k, t) = if numE(d, k, t) != nil then numE(d, k, t) else if dwHas(k) then dwE(numD(d, k, t), k, t, dwN(k)) else nil
func rowD(d str, i int) str = if i <= 0 then d else fieldD(rowD(d, i-1), fName(i-1), fText(i-1))
func rowE(d str, i int) ifc = if i <= 0 then nil else if rowE(d, i-1) != nil then rowE(d, i-1) else fieldE(rowD(d, i-1), fName(i-1), fText(i-1))
// the first error stays
lemma in_stays(i int, n int)
  for C13 C25
  induct n
  requires 0 <= i && i <= n && inE(i) != nil
  ensures inE(n) == inE(i)
lemma in_fails(i int, n int)
  for C13 C25
  use in_stays(i+1, n)
  pattern inE(i), inE(n)
  requires 0 <= i && i < n && inE(i) == nil && initFail(inFn(i), inHi(i) - inLo(i)) != nil
  ensures inE(n) == initFail(inFn(i), inHi(i) - inLo(i))
lemma rw_stays(d str, i int, n int)
  for C13 C25
  induct n
  requires 0 <= i && i <= n && rwE(d, i) != nil
  ensures rwE(d, n) == rwE(d, i)
lemma rw_fails(d str, i int, n int)
  for C13 C25
  use rw_stays(d, i+1, n)
  pattern rwE(d, i), rwE(d, n)
  requires 0 <= i && i < n && rwE(d, i) == nil && rwErr(rwFn(i), piece(rwD(d, i), rwLo(i), rwHi(i)), false) != nil
  ensures rwE(d, n) == rwErr(rwFn(i), piece(rwD(d, i), rwLo(i), rwHi(i)), false)
lemma cw_stays(d str, k str, v f64, i int, n int)
  for C13 C25
  induct n
  requires 0 <= i && i <= n && cwE(d, k, v, i) != nil
  ensures cwE(d, k, v, n) == cwE(d, k, v, i)
lemma cw_fails(d str, k str, v f64, i int, n int)
  for C13 C25
  use cw_stays(d, k, v, i+1, n)
  pattern cwE(d, k, v, i), cwE(d, k, v, n)
  requires 0 <= i && i < n && cwE(d, k, v, i) == nil && cwErr(cwFn(k, i), piece(cwD(d, k, v, i), cwLo(k, i), cwHi(k, i)), false, v) != nil
  ensures cwE(d, k, v, n) == cwErr(cwFn(k, i), piece(cwD(d, k, v, i), cwLo(k, i), cwHi(k, i)), false, v)
lemma dw_stays(d str, k str, v str, i int, n int)
  for C13 C25
  induct n
  requires 0 <= i && i <= n && dwE(d, k, v, i) != nil
  ensures dwE(d, k, v, n) == dwE(d, k, v, i)
lemma dw_fails(d str, k str, v str, i int, n int)
  for C13 C25
  use dw_stays(d, k, v, i+1, n)
  pattern dwE(d, k, v, i), dwE(d, k, v, n)
  requires 0 <= i && i < n && dwE(d, k, v, i) == nil && dwErr(dwFn(k, i), piece(dwD(d, k, v, i), dwLo(k, i), dwHi(k, i)), false, v) != nil
  ensures dwE(d, k, v, n) == dwErr(dwFn(k, i), piece(dwD(d, k, v, i), dwLo(k, i), dwHi(k, i)), false, v)
lemma row_stays(d str, i int, n int)
  for C13 C25
  induct n
  requires 0 <= i && i <= n && rowE(d, i) != nil
  ensures rowE(d, n) == rowE(d, i)
lemma row_fails(d str, i int, n int)
  for C13 C25
  use row_stays(d, i+1, n)
  pattern rowE(d, i), rowE(d, n)
  requires 0 <= i && i < n && rowE(d, i) == nil && fieldE(rowD(d, i), fName(i), fText(i)) != nil
  ensures rowE(d, n) == fieldE(rowD(d, i), fName(i), fText(i))
contract (Collator).Update(c, r, buf, init) (err)
  for C13 C25
  requires forall i int {c.inits[i].Low} :: 0 <= i && i < len(c.inits) ==> inFn(i) == c.inits[i].Fn && inLo(i) == c.inits[i].Low && inHi(i) == c.inits[i].High && okRange(inLo(i), inHi(i), len(buf))
  requires forall i int {c.writers[i].Low} :: 0 <= i && i < len(c.writers) ==> rwFn(i) == c.writers[i].Fn && rwLo(i) == c.writers[i].Low && rwHi(i) == c.writers[i].High && rwFn(i) != nil && okRange(rwLo(i), rwHi(i), len(buf))
  requires forall k str {has(c.contWriters, k)} :: has(c.contWriters, k) == cwHas(k) && len(c.contWriters[k]) == cwN(k)
  requires forall k str, i int {cwLo(k, i)} :: 0 <= i && i < len(c.contWriters[k]) ==> cwFn(k, i) == c.contWriters[k][i].Fn && cwLo(k, i) == c.contWriters[k][i].Low && cwHi(k, i) == c.contWriters[k][i].High && cwFn(k, i) != nil && okRange(cwLo(k, i), cwHi(k, i), len(buf))
  requires forall k str {has(c.discWriters, k)} :: has(c.discWriters, k) == dwHas(k) && len(c.discWriters[k]) == dwN(k)
  requires forall k str, i int {dwLo(k, i)} :: 0 <= i && i < len(c.discWriters[k]) ==> dwFn(k, i) == c.discWriters[k][i].Fn && dwLo(k, i) == c.discWriters[k][i].Low && dwHi(k, i) == c.discWriters[k][i].High && dwFn(k, i) != nil && okRange(dwLo(k, i), dwHi(k, i), len(buf))
  requires forall i int {len(r.Data[i].F)} :: 0 <= i && i < len(r.Data) ==> fName(i) == seq(r.Data[i].F) && fText(i) == seq(r.Data[i].V) && base(r.Data[i].F) != base(buf) && base(r.Data[i].V) != base(buf)
  noext
  use in_fails, rw_fails, cw_fails, dw_fails, row_fails
  modifies elems(buf)
  let d0 = seq(buf)
  let d1 = if init then inD(d0, len(c.inits)) else d0
  let e1 = if init then inE(len(c.inits)) else nil
  let d2 = rwD(d1, len(c.writers))
  let e2 = rwE(d1, len(c.writers))
  ensures e1 != nil ==> err == e1
  ensures e1 == nil && e2 != nil ==> err == e2
  ensures e1 == nil && e2 == nil ==> err == rowE(d2, len(r.Data))
  ensures err == nil ==> seq(buf) == rowD(d2, len(r.Data))
  inv[Init] seq(buf) == inD(d0, ?i)
  inv[Init] ?i <= len(c.inits) && inE(?i) == nil
  inv[Update] seq(buf) == rwD(d1, ?i)
  inv[Update] ?i <= len(c.writers) && rwE(d1, ?i) == nil
  inv[UpdateFloat64, UpdateItem] seq(buf) == rowD(d2, ?i)
  inv[UpdateFloat64, UpdateItem] ?i <= len(r.Data) && rowE(d2, ?i) == nil
  inv[UpdateFloat64] ?j < cwN(fName(?i)) ==> okRange(cwLo(fName(?i), ?j), cwHi(fName(?i), ?j), len(buf))
  inv[UpdateFloat64] seq(buf) == cwD(rowD(d2, ?i), fName(?i), numVal(fText(?i)), ?j)
  inv[UpdateFloat64] cwE(rowD(d2, ?i), fName(?i), numVal(fText(?i)), ?j) == nil && ?j <= cwN(fName(?i))
  inv[UpdateItem] ?j < dwN(fName(?i)) ==> okRange(dwLo(fName(?i), ?j), dwHi(fName(?i), ?j), len(buf))
  inv[UpdateItem] seq(buf) == dwD(numD(rowD(d2, ?i), fName(?i), fText(?i)), fName(?i), fText(?i), ?j)
  inv[UpdateItem] dwE(numD(rowD(d2, ?i), fName(?i), fText(?i)), fName(?i), fText(?i), ?j) == nil && ?j <= dwN(fName(?i))

// ---- a query answered from a record ----
func crVal(f fn, d str) f64
func crErr(f fn, d str) ifc
functype collation.ContReaderFunc(f, buf) (v, err)
  ensures v == crVal(f, seq(buf)) && err == crErr(f, seq(buf))
func drVal(f fn, d str) str
func drErr(f fn, d str) ifc
functype collation.DiscReaderFunc(f, buf) (v, err)
  ensures seq(v) == drVal(f, seq(buf)) && err == drErr(f, seq(buf))
// the collator's reader tables and the request, as plain functions
func crHas(k str, m str) bool
func crFn(k str, m str) fn
func crLo(k str, m str) int
func crHi(k str, m str) int
func drHas(k str, m str) bool
func drFn(k str, m str) fn
func drLo(k str, m str) int
func drHi(k str, m str) int
func qF(i int) str
func qN(i int) int
func qM(i int, j int) str
contract (contReader).ReadFloat64(c, buf) (v, err)
  for C14
  requires c.Fn != nil && okRange(c.Low, c.High, len(buf))
  reveal piece
  let part = piece(seq(buf), c.Low, c.High)
  ensures v == crVal(c.Fn, part) && err == crErr(c.Fn, part)
contract (discReader).ReadItem(d, buf) (v, err)
  for C14
  requires d.Fn != nil && okRange(d.Low, d.High, len(buf))
  reveal piece
  let part = piece(seq(buf), d.Low, d.High)
  ensures seq(v) == drVal(d.Fn, part) && err == drErr(d.Fn, part)
// whether the collation has measure j of request i, its value and its error, and where its answer goes
def crPart(d, k, m) = piece(d, crLo(k, m), crHi(k, m))
def drPart(d, k, m) = piece(d, drLo(k, m), drHi(k, m))
func defd(i int, j int) bool = crHas(qF(i), qM(i, j)) || drHas(qF(i), qM(i, j))
def itE(d, k, m) = if crHas(k, m) then crErr(crFn(k, m), crPart(d, k, m)) else if drHas(k, m) then drErr(drFn(k, m), drPart(d, k, m)) else nil
// the answer to measure j of request i goes after one answer for every earlier measure the collation has
// (place counts them, and slot is place under the name the invariants are instantiated by)
func place(i int, j int) int
func slot(i int, j int) int
def counted(n) = place(0, 0) == 0 && (forall i int, j int {qM(i, j)} :: 0 <= i && 0 <= j ==> place(i, j+1) == place(i, j) + (if defd(i, j) then 1 else 0)) && (forall i int {qN(i)} :: 0 <= i ==> place(i+1, 0) == place(i, qN(i))) && (forall i int, j int {slot(i, j)} :: slot(i, j) == place(i, j))
def isAns(v, d, k, m) = if crHas(k, m) then typeis(v, "float64") && payload(v, "float64") == crVal(crFn(k, m), crPart(d, k, m))
  else typeis(v, "[]uint8") && seq(payload(v, "[]uint8")) == drVal(drFn(k, m), drPart(d, k, m))
def same(a, b) = base(a) == base(b) && off(a) == off(b) && len(a) == len(b)
contract (Collator).Read(c, fml, buf) (res, err)
  for C14
  requires forall i int {qN(i)} :: 0 <= i && i < len(fml) ==> seq(fml[i].F) == qF(i) && len(fml[i].M) == qN(i)
  requires forall i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < len(fml[i].M) ==> seq(fml[i].M[j]) == qM(i, j)
  requires forall i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) ==> crHas(qF(i), qM(i, j)) == (has(c.contReaders, qF(i)) && has(c.contReaders[qF(i)], qM(i, j)))
  requires forall i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && crHas(qF(i), qM(i, j)) ==> c.contReaders[qF(i)][qM(i, j)].Fn == crFn(qF(i), qM(i, j)) && c.contReaders[qF(i)][qM(i, j)].Low == crLo(qF(i), qM(i, j)) && c.contReaders[qF(i)][qM(i, j)].High == crHi(qF(i), qM(i, j)) && crFn(qF(i), qM(i, j)) != nil && okRange(crLo(qF(i), qM(i, j)), crHi(qF(i), qM(i, j)), len(buf))
  requires forall i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) ==> drHas(qF(i), qM(i, j)) == (has(c.discReaders, qF(i)) && has(c.discReaders[qF(i)], qM(i, j)))
  requires forall i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && drHas(qF(i), qM(i, j)) ==> c.discReaders[qF(i)][qM(i, j)].Fn == drFn(qF(i), qM(i, j)) && c.discReaders[qF(i)][qM(i, j)].Low == drLo(qF(i), qM(i, j)) && c.discReaders[qF(i)][qM(i, j)].High == drHi(qF(i), qM(i, j)) && drFn(qF(i), qM(i, j)) != nil && okRange(drLo(qF(i), qM(i, j)), drHi(qF(i), qM(i, j)), len(buf))
  requires counted(len(fml))
  noext
  let d = seq(buf)
  ensures err == nil ==> forall i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) ==> itE(d, qF(i), qM(i, j)) == nil
  ensures err != nil ==> exists i int, j int {qM(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && err == itE(d, qF(i), qM(i, j)) && (forall k int, l int {qM(k, l)} :: 0 <= k && 0 <= l && (k < i && l < qN(k) || k == i && l < j) ==> itE(d, qF(k), qM(k, l)) == nil)
  ensures err == nil ==> len(res.FieldMeasureValues) == place(len(fml), 0)
  ensures err == nil ==> forall i int, j int {slot(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && defd(i, j) ==> 0 <= slot(i, j) && slot(i, j) < len(res.FieldMeasureValues)
  ensures err == nil ==> forall i int, j int {slot(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && defd(i, j) ==> seq(res.FieldMeasureValues[slot(i, j)].F) == qF(i)
  ensures err == nil ==> forall i int, j int {slot(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && defd(i, j) ==> seq(res.FieldMeasureValues[slot(i, j)].M) == qM(i, j)
  ensures err == nil ==> forall i int, j int {slot(i, j)} :: 0 <= i && i < len(fml) && 0 <= j && j < qN(i) && defd(i, j) ==> isAns(res.FieldMeasureValues[slot(i, j)].V, d, qF(i), qM(i, j))
  inv ?i:top <= len(fml) && (?i < len(fml) ==> seq(fml[?i].F) == qF(?i) && len(fml[?i].M) == qN(?i))
  inv ?j:own <= qN(?i:outer)
  inv[ReadFloat64] ?j:own < qN(?i:outer) ==> seq(fml[?i].M[?j]) == qM(?i, ?j)
  inv cap((?rs:Result).FieldMeasureValues) == 0 || fresh((?rs:Result).FieldMeasureValues)
  inv forall i int, j int {qM(i, j)} :: 0 <= i && i < ?i:top && 0 <= j && j < qN(i) ==> itE(d, qF(i), qM(i, j)) == nil
  inv[ReadFloat64] forall j int {qM(?i:outer, j)} :: 0 <= j && j < ?j:own ==> itE(d, qF(?i), qM(?i, j)) == nil
  inv len((?rs:Result).FieldMeasureValues) == place(?i:top, 0)
  inv[ReadFloat64] len((?rs:Result).FieldMeasureValues) == place(?i:outer, ?j:own)
  inv forall i int, j int {slot(i, j)} :: 0 <= i && i < ?i:top && 0 <= j && j < qN(i) && defd(i, j) ==> 0 <= slot(i, j) && slot(i, j) < len((?rs:Result).FieldMeasureValues)
  inv[ReadFloat64] forall j int {slot(?i:outer, j)} :: 0 <= j && j < ?j:own && defd(?i, j) ==> 0 <= slot(?i, j) && slot(?i, j) < len((?rs:Result).FieldMeasureValues)
  inv forall i int, j int {slot(i, j)} :: 0 <= i && i < ?i:top && 0 <= j && j < qN(i) && defd(i, j) ==> same((?rs:Result).FieldMeasureValues[slot(i, j)].F, fml[i].F)
  inv[ReadFloat64] forall j int {slot(?i:outer, j)} :: 0 <= j && j < ?j:own && defd(?i, j) ==> same((?rs:Result).FieldMeasureValues[slot(?i, j)].F, fml[?i].F)
  inv forall i int, j int {slot(i, j)} :: 0 <= i && i < ?i:top && 0 <= j && j < qN(i) && defd(i, j) ==> same((?rs:Result).FieldMeasureValues[slot(i, j)].M, fml[i].M[j])
  inv[ReadFloat64] forall j int {slot(?i:outer, j)} :: 0 <= j && j < ?j:own && defd(?i, j) ==> same((?rs:Result).FieldMeasureValues[slot(?i, j)].M, fml[?i].M[j])
  inv forall i int, j int {slot(i, j)} :: 0 <= i && i < ?i:top && 0 <= j && j < qN(i) && crHas(qF(i), qM(i, j)) ==> typeis((?rs:Result).FieldMeasureValues[slot(i, j)].V, "float64") && payload((?rs:Result).FieldMeasureValues[slot(i, j)].V, "float64") == crVal(crFn(qF(i), qM(i, j)), crPart(d, qF(i), qM(i, j)))
  inv forall i int, j int {slot(i, j)} :: 0 <= i && i < ?i:top && 0 <= j && j < qN(i) && !crHas(qF(i), qM(i, j)) && drHas(qF(i), qM(i, j)) ==> typeis((?rs:Result).FieldMeasureValues[slot(i, j)].V, "[]uint8") && base(payload((?rs:Result).FieldMeasureValues[slot(i, j)].V, "[]uint8")) < nextref() && seq(payload((?rs:Result).FieldMeasureValues[slot(i, j)].V, "[]uint8")) == drVal(drFn(qF(i), qM(i, j)), drPart(d, qF(i), qM(i, j)))
  inv[ReadFloat64] forall j int {slot(?i:outer, j)} :: 0 <= j && j < ?j:own && crHas(qF(?i), qM(?i, j)) ==> typeis((?rs:Result).FieldMeasureValues[slot(?i, j)].V, "float64") && payload((?rs:Result).FieldMeasureValues[slot(?i, j)].V, "float64") == crVal(crFn(qF(?i), qM(?i, j)), crPart(d, qF(?i), qM(?i, j)))
  inv[ReadFloat64] forall j int {slot(?i:outer, j)} :: 0 <= j && j < ?j:own && !crHas(qF(?i), qM(?i, j)) && drHas(qF(?i), qM(?i, j)) ==> typeis((?rs:Result).FieldMeasureValues[slot(?i, j)].V, "[]uint8") && base(payload((?rs:Result).FieldMeasureValues[slot(?i, j)].V, "[]uint8")) < nextref() && seq(payload((?rs:Result).FieldMeasureValues[slot(?i, j)].V, "[]uint8")) == drVal(drFn(qF(?i), qM(?i, j)), drPart(d, qF(?i), qM(?i, j)))

// ---- the record a row or query addresses ----
// key names in the collation's order, the fields given, and the first field with each key's name (-1: none)
func kN(i int) str
func fvF(j int) str
func fvV(j int) str
func first(i int) int
def firsts(n, m) = forall i int {first(i)} :: 0 <= i && i < n ==> (first(i) == -1 && forall j int {fvF(j)} :: 0 <= j && j < m ==> fvF(j) != kN(i)) || (0 <= first(i) && first(i) < m && fvF(first(i)) == kN(i) && forall j int {fvF(j)} :: 0 <= j && j < first(i) ==> fvF(j) != kN(i))
// the FNV-1 hash of the first i key names each followed by its value
func kval(i int) str = fvV(first(i))
func keyH(i int) u64 = if i <= 0 then fnvOffset() else fnv1(fnv1(keyH(i-1), kN(i-1), len(kN(i-1))), kval(i-1), len(kval(i-1)))
func lacks(i int) bool = if i <= 0 then false else lacks(i-1) || first(i-1) == -1
lemma lacks_stays(i int, n int)
  for C15
  induct n
  requires 0 <= i && i <= n && lacks(i)
  ensures lacks(n)
lemma lacks_fails(i int, n int)
  for C15
  use lacks_stays(i+1, n)
  pattern lacks(i), lacks(n)
  requires 0 <= i && i < n && first(i) == -1
  ensures lacks(n)
contract (FVList).KeyValue(fv, keys) (key, ok)
  for C15
  requires forall i int {len(keys[i])} :: 0 <= i && i < len(keys) ==> seq(keys[i]) == kN(i)
  requires forall i int {len(fv[i].F)} :: 0 <= i && i < len(fv) ==> seq(fv[i].F) == fvF(i) && seq(fv[i].V) == fvV(i)
  requires firsts(len(keys), len(fv))
  use lacks_fails
  ensures ok == !lacks(len(keys))
  ensures ok ==> key == keyH(len(keys))
  ensures !ok ==> key == u64(0)
  inv ?i:top <= len(keys) && !lacks(?i)
  inv *(?h:cell) == keyH(?i:top)
  inv forall j int {fvF(j)} :: 0 <= j && j < ?j:own ==> fvF(j) != kN(?i:outer)
contract (*Row).KeyValue(r, keys) (key, ok)
  for C15
  requires r != nil
  requires forall i int {len(keys[i])} :: 0 <= i && i < len(keys) ==> seq(keys[i]) == kN(i)
  requires forall i int {len(r.Data[i].F)} :: 0 <= i && i < len(r.Data) ==> seq(r.Data[i].F) == fvF(i) && seq(r.Data[i].V) == fvV(i)
  requires firsts(len(keys), len(r.Data))
  ensures ok == !lacks(len(keys))
  ensures ok ==> key == keyH(len(keys))
  ensures !ok ==> key == u64(0)
contract (*Query).KeyValue(r, keys) (key, ok)
  for C15
  requires r != nil
  requires forall i int {len(keys[i])} :: 0 <= i && i < len(keys) ==> seq(keys[i]) == kN(i)
  requires forall i int {len(r.Criteria[i].F)} :: 0 <= i && i < len(r.Criteria) ==> seq(r.Criteria[i].F) == fvF(i) && seq(r.Criteria[i].V) == fvV(i)
  requires firsts(len(keys), len(r.Criteria))
  ensures ok == !lacks(len(keys))
  ensures ok ==> key == keyH(len(keys))
  ensures !ok ==> key == u64(0)
contract (Collator).Keys(c) (r)
  for C15
  ensures r == c.keys
contract (Collator).Size(c) (r)
  for C16
  ensures r == c.size
contract (Collator).Name(c) (r)
  for C24
  ensures r == c.name
