// Cardinality counter (internal/summary/hll)
package internal/summary/hll

// published linear counting thresholds
func hllThreshold(p u8) f64 = if p == 4 then 10.0 else if p == 5 then 20.0 else if p == 6 then 40.0 else if p == 7 then 80.0
  else if p == 8 then 220.0 else if p == 9 then 400.0 else if p == 10 then 900.0 else if p == 11 then 1800.0 else if p == 12 then 3100.0
  else if p == 13 then 6500.0 else if p == 14 then 11500.0 else if p == 15 then 20000.0 else if p == 16 then 50000.0
  else if p == 17 then 120000.0 else 350000.0
func hllAlpha(p u8) f64 = if p <= 4 then 0.673 else if p == 5 then 0.697 else if p == 6 then 0.709 else if p > 8 then 0.7213475
  else 0.7213 / (1.0 + 1.079 / i2f(regs(p)))
def regs(p) = 1 << int(p)
def hllMask(p) = ((u64(1) << p) - u64(1)) << (u64(64) - u64(p))
def okHLL(c) = 4 <= int(c.p) && int(c.p) <= 18 && okLayout(c.bits.data, c.bits.n, c.bits.w) && int(c.bits.w) == 6 && c.bits.n == regs(c.p)
  && c.mask == hllMask(c.p) && c.alpha == hllAlpha(c.p) && c.threshold == hllThreshold(c.p)
def regOf(c, j) = bk(seq(c.bits.data), 6, j)
// rank of a hash: position of the first one bit after the p index bits, counting from r, at most 65-p
func rankFrom(h u64, p u8, r u8) u8 = if r >= u8(65) - p then r else if (h >> (u64(64) - u64(p) - u64(r))) & u64(1) == u64(1) then r else rankFrom(h, p, r + u8(1))
def rank(s, p) = rankFrom(fnv1(fnvOffset(), s, len(s)), p, u8(1))
def route(s, p) = int(fnv1(fnvOffset(), s, len(s)) >> (u64(64) - u64(p)))
def max8(a, b) = if a > b then a else b

contract New(p) (c)
  for C06 C07 C08
  split p in 4..18
  requires 4 <= int(p) && int(p) <= 18
  ensures okHLL(c) && c.p == p && fresh(c.bits.data)
  ensures forall j int {regOf(c, j)} :: 0 <= j && j < c.bits.n ==> regOf(c, j) == 0
contract (*Counter).Reset(c)
  for C07
  requires c != nil && okHLL(c)
  modifies elems(c.bits.data)
  ensures forall j int {regOf(c, j)} :: 0 <= j && j < c.bits.n ==> regOf(c, j) == 0
contract (*Counter).Add(c, v)
  for C07 C11
  split c.p in 4..18
  requires c != nil && okHLL(c)
  modifies elems(c.bits.data)
  let s = old(seq(v))
  ensures forall j int {regOf(c, j)} :: 0 <= j && j < c.bits.n ==> regOf(c, j) == (if j == route(s, c.p) then max8(old(regOf(c, j)), rank(s, c.p)) else old(regOf(c, j)))
  let hv = fnv1(fnvOffset(), old(seq(v)), len(v))
  inv rankFrom(hv, c.p, ?r:u8) == rankFrom(hv, c.p, u8(1))
  inv int(?r:u8) == ?i + 1
  inv ?t:u64 == (u64(1) << u64(63)) >> (u64(c.p) + u64(?r:u8) - u64(1))
  inv u8(1) <= ?r:u8 && ?r <= u8(65) - c.p

// ---- estimators ----
def regsOf(c) = seq(c.bits.data)
def fceil(x) = uf("math!ceil", "f64", x)
def flog(x) = uf("math!log", "f64", x)
def toInt(x) = uf("f2i!int64", "int", x)
def zeroRegs(d, p) = cntN(d, 6, u8(0), regs(p))
func harmN(d str, n int) f64 = if n <= 0 then 0.0 else harmN(d, n-1) + (if bk(d, 6, n-1) == u8(0) then 0.5 else 1.0 / i2f(u64(1) << u64(bk(d, 6, n-1))))
func sigmaF(c int, m int) f64
func tauF(c int, m int) f64
// Poisson indicator after the counts of ranks k and above
func poisN(d str, p u8, k int) f64 = if k > 64 - int(p) then i2f(regs(p)) * tauF(cntN(d, 6, u8(65) - p, regs(p)), regs(p)) else 0.5 * (poisN(d, p, k+1) + i2f(cntN(d, 6, u8(k), regs(p))))
def poisZ(d, p) = poisN(d, p, 1) + i2f(regs(p)) * sigmaF(zeroRegs(d, p), regs(p))
def norm(p, z) = toInt(fceil(hllAlpha(p) * i2f(regs(p)) * i2f(regs(p)) / z))
def harmCount(d, p) = norm(p, harmN(d, regs(p)))
def poisCount(d, p) = norm(p, poisZ(d, p))
def linRaw(d, p) = i2f(regs(p)) * flog(i2f(regs(p)) / i2f(zeroRegs(d, p)))
def hllCount(d, p) = if zeroRegs(d, p) > 0 && fceil(linRaw(d, p)) <= hllThreshold(p) then toInt(fceil(linRaw(d, p)))
  else if harmN(d, regs(p)) >= hllAlpha(p) * i2f(regs(p)) / 7.0 then poisCount(d, p) else harmCount(d, p)

contract sigma(c, m) (z)
  for C08
  defines sigmaF
contract tau(c, m) (z)
  for C08
  defines tauF
contract (*Counter).harmonic(c, m) (z)
  for C08
  requires c != nil && okHLL(c) && m == regs(c.p)
  ensures z == harmN(regsOf(c), m)
  inv ?z:f64 == harmN(regsOf(c), ?i)
  inv ?i <= m
contract (*Counter).poisson(c) (z)
  for C08
  requires c != nil && okHLL(c)
  ensures z == poisZ(regsOf(c), c.p)
  inv ?i <= regs(c.p)
  inv forall v int {(?cn:arr)[v]} :: 0 <= v && v < 64 ==> (?cn:arr)[v] == cntN(regsOf(c), 6, u8(v), ?i)
  inv forall v int {(?cn:arr)[v]} :: 0 <= v && v < 64 ==> 0 <= (?cn:arr)[v] && (?cn:arr)[v] <= ?i
  inv forall v int {(?cn:arr)[v]} :: 0 <= v && v < 64 ==> (?cn:arr)[v] == cntN(regsOf(c), 6, u8(v), regs(c.p))
  inv ?z:f64 == poisN(regsOf(c), c.p, ?k + 1)
  inv ?k <= 64 - int(c.p)
contract (*Counter).Count(c) (r)
  for C08 C11
  requires c != nil && okHLL(c)
  ensures r == hllCount(regsOf(c), c.p)
contract (*Counter).LinearCount(c) (r)
  for C08
  requires c != nil && okHLL(c)
  ensures r == toInt(fceil(linRaw(regsOf(c), c.p)))
contract (*Counter).HarmonicCount(c) (r)
  for C08
  requires c != nil && okHLL(c)
  ensures r == harmCount(regsOf(c), c.p)
contract (*Counter).PoissonCount(c) (r)
  for C08
  requires c != nil && okHLL(c)
  ensures r == poisCount(regsOf(c), c.p)

// ---- sequences of additions: item number i of sequence q, and the register they leave behind ----
func item(q int, i int) str
func foldReg(q int, n int, p u8, j int) u8 = if n <= 0 then u8(0) else if route(item(q, n-1), p) == j then max8(foldReg(q, n-1, p, j), rank(item(q, n-1), p)) else foldReg(q, n-1, p, j)
// the register is at least every rank routed to it
lemma fold_upper(q int, n int, p u8, j int, i int)
  for C07
  induct n
  requires 0 <= i && i < n && route(item(q, i), p) == j
  ensures int(rank(item(q, i), p)) <= int(foldReg(q, n, p, j))
// it is a rank routed to it, or zero when there is none
lemma fold_attained(q int, n int, p u8, j int, b u8)
  for C07
  induct n
  requires forall i int {item(q, i)} :: 0 <= i && i < n && route(item(q, i), p) == j ==> int(rank(item(q, i), p)) <= int(b)
  ensures int(foldReg(q, n, p, j)) <= int(b)
// every item of q1 occurs in q2 (at where(i)): registers of q1 are at most those of q2; both ways round gives equality
func where(q1 int, q2 int, i int) int
def within(q1, n1, q2, n2) = forall i int {item(q1, i)} :: 0 <= i && i < n1 ==> 0 <= where(q1, q2, i) && where(q1, q2, i) < n2 && item(q2, where(q1, q2, i)) == item(q1, i)
lemma fold_subset(q1 int, n1 int, q2 int, n2 int, p u8, j int)
  for C07
  induct n1
  requires n1 >= 0 && within(q1, n1, q2, n2)
  use fold_upper(q2, n2, p, j, where(q1, q2, n1-1))
  ensures int(foldReg(q1, n1, p, j)) <= int(foldReg(q2, n2, p, j))
lemma fold_same_set(q1 int, n1 int, q2 int, n2 int, p u8, j int)
  for C07
  requires n1 >= 0 && n2 >= 0 && within(q1, n1, q2, n2) && within(q2, n2, q1, n1)
  use fold_subset(q1, n1, q2, n2, p, j)
  use fold_subset(q2, n2, q1, n1, p, j)
  ensures foldReg(q1, n1, p, j) == foldReg(q2, n2, p, j)
lemma rank_range(h u64, p u8, d int)
  for C07
  requires 4 <= int(p) && int(p) <= 18 && 0 <= d && d <= 64 - int(p)
  induct d
  ensures 65 - int(p) - d <= int(rankFrom(h, p, u8(65 - int(p) - d))) && int(rankFrom(h, p, u8(65 - int(p) - d))) <= 65 - int(p)

// ---- serialized form: version, precision, register array ----
def hlVersion() = 1
def hlLen(m) = 12 + (m*6+7)/8
contract (*Counter).Len(c) (r)
  for C06
  requires c != nil && okHLL(c)
  ensures r == hlLen(regs(c.p))
contract Len(p) (r)
  for C06 C11
  requires 4 <= int(p) && int(p) <= 18
  ensures r == hlLen(regs(p))
def hlHeader(s, p) = at(s, 0) == hlVersion() && at(s, 1) == p && at(s, 2) == bbVersion() && at(s, 3) == 6 && le64(s, 4) == u64(regs(p))
contract (*Counter).WriteTo(c, w) (n, err)
  for C06
  requires c != nil && okHLL(c) && w != nil
  modifies out(w)
  ensures n == outlen(w) - old(outlen(w)) && n >= 0
  ensures (err == nil) == (outfails(w) == old(outfails(w)))
  ensures nofail(w) ==> err == nil
  ensures forall k int {outat(w, k)} :: 0 <= k && k < old(outlen(w)) ==> outat(w, k) == old(outat(w, k))
  ensures err == nil ==> n == hlLen(regs(c.p))
  ensures err == nil ==> hlHeader(sub(out(w), old(outlen(w)), outlen(w)), c.p)
  ensures err == nil ==> forall k int {c.bits.data[k]} :: 0 <= k && k < len(c.bits.data) ==> outat(w, old(outlen(w)) + 12 + k) == c.bits.data[k]
// exactly the byte strings that can be opened as a counter
def hlOpens(s, avail) = avail >= 12 && at(s, 0) == hlVersion() && 4 <= int(at(s, 1)) && int(at(s, 1)) <= 18 && hlHeader(s, at(s, 1)) && hlLen(regs(at(s, 1))) <= avail
contract WithBytes(buf) (c, err)
  for C04 C06 C11
  ensures (err == nil) == hlOpens(seq(buf), len(buf))
  ensures err == nil ==> okHLL(c) && hlHeader(seq(buf), c.p)
  ensures err == nil ==> base(c.bits.data) == base(buf) && off(c.bits.data) == off(buf) + 12
contract (*Counter).ReadFrom(c, r) (n, err)
  for C04 C06
  requires c != nil && r != nil
  modifies *c, in(r)
  let avail = inlen(r) - old(inpos(r))
  ensures n == inpos(r) - old(inpos(r)) && n >= 0 && inpos(r) <= inlen(r)
  ensures err == nil ==> okHLL(c) && hlLen(regs(c.p)) == n && n == avail && inerr(r) == io.EOF
  ensures err == nil ==> hlHeader(instr(r, old(inpos(r)), inlen(r)), c.p) && fresh(c.bits.data)
  ensures err == nil ==> forall k int {c.bits.data[k]} :: 0 <= k && k < len(c.bits.data) ==> c.bits.data[k] == inat(r, old(inpos(r)) + 12 + k)
  ensures inerr(r) == io.EOF && hlOpens(instr(r, old(inpos(r)), inlen(r)), avail) && hlLen(regs(at(instr(r, old(inpos(r)), inlen(r)), 1))) == avail ==> err == nil
  ensures old(okHLL(c)) ==> okHLL(c)
lemma hl_header_unique(s str, p u8, p2 u8)
  for C06
  requires hlHeader(s, p) && hlHeader(s, p2)
  ensures p == p2
// no items, no count (given that ln 1 = 0, the ceiling of 0 is 0 and 0 converts to 0)
lemma whole_quotient(p u8)
  for C08
  split p in 4..18
  requires 4 <= int(p) && int(p) <= 18
  ensures i2f(regs(p)) / i2f(regs(p)) == 1.0 && i2f(regs(p)) * 0.0 == 0.0 && 0.0 <= hllThreshold(p)
lemma empty_counts_zero(d str, p u8)
  for C08
  requires 4 <= int(p) && int(p) <= 18 && zeroRegs(d, p) == regs(p)
  requires flog(1.0) == 0.0 && fceil(0.0) == 0.0 && toInt(0.0) == 0
  use whole_quotient(p)
  ensures hllCount(d, p) == 0
