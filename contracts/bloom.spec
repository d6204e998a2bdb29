// Bloom filter (internal/summary/bloom)
package internal/summary/bloom

// double hashing: probe i of item s in a filter of m bits is (a + i*b) reduced step by step modulo pmod(m)
opaque func pmod(m int) int = if m % 2 == 0 then m else if m > 2 then m - 1 else m
opaque func seedA(s str) u64 = fnv1(fnvOffset(), s, len(s))
opaque func seedB(s str) u64 = fnv1a(fnvOffset(), s, len(s)) | u64(1)
func pstate(a u64, b u64, mm int, i int) u64 = if i <= 0 then a else (pstate(a, b, mm, i-1) + b) % u64(mm)
opaque func probe(s str, m int, i int) int = int(pstate(seedA(s), seedB(s), pmod(m), i) % u64(pmod(m)))
// bit j is among the first k probes of s
func hit(s str, m int, k int, j int) bool = if k <= 0 then false else hit(s, m, k-1, j) || probe(s, m, k-1) == j
// all of the first k probes of s are set in the packed bits d
func allset(d str, s str, m int, k int) bool = if k <= 0 then true else allset(d, s, m, k-1) && bk(d, 1, probe(s, m, k-1)) == 1
def bitOf(b, j) = bk(seq(b.bits.data), 1, j)
def okBloom(b) = okLayout(b.bits.data, b.bits.n, b.bits.w) && b.bits.w == 1 && b.bits.n == b.m && b.m >= 1
def hasItem(b, s) = allset(seq(b.bits.data), s, b.m, int(b.k))

// what was added is found
lemma added_found(d str, s str, m int, k int, n int)
  for C05
  requires 0 <= n && n <= k && m >= 1 && m <= maxBuckets()
  requires forall j int {bk(d, 1, j)} :: 0 <= j && j < m && hit(s, m, k, j) ==> bk(d, 1, j) == 1
  use hit_grows, probe_range
  hint hit(s, m, n, probe(s, m, n-1)) || hit(s, m, k, probe(s, m, n-1))
  ensures allset(d, s, m, n)
  induct n
lemma hit_grows(s str, m int, k int, n int, j int)
  for C05
  requires 0 <= n && n <= k && hit(s, m, n, j)
  ensures hit(s, m, k, j)
  induct k
  pattern hit(s, m, n, j), hit(s, m, k, j)
lemma probe_range(s str, m int, i int)
  for C05
  requires m >= 1 && m <= maxBuckets()
  ensures 0 <= probe(s, m, i) && probe(s, m, i) < m
  use pmod_range
  reveal probe
  pattern probe(s, m, i)
lemma pmod_range(m int)
  for C05
  requires m >= 1
  ensures 1 <= pmod(m) && pmod(m) <= m
  reveal pmod
  pattern pmod(m)
// a filter with more bits set finds at least as much
lemma found_kept(d str, e str, s str, m int, n int)
  for C05
  requires 0 <= n && m >= 1 && m <= maxBuckets()
  requires forall j int {bk(e, 1, j)} :: 0 <= j && j < m && bk(d, 1, j) == 1 ==> bk(e, 1, j) == 1
  requires allset(d, s, m, n)
  use probe_range
  ensures allset(e, s, m, n)
  induct n
  pattern allset(d, s, m, n), allset(e, s, m, n)
// a missing probe is enough to rule the item out
lemma allset_probe(d str, s str, m int, k int, n int)
  for C05
  requires 0 <= n && n < k && allset(d, s, m, k)
  reveal probe
  ensures bk(d, 1, int(pstate(seedA(s), seedB(s), pmod(m), n) % u64(pmod(m)))) == 1
  induct k
  pattern allset(d, s, m, k), pstate(seedA(s), seedB(s), pmod(m), n)

contract newHasher(data, m) (h)
  for C05
  requires m >= 1
  reveal pmod, seedA, seedB
  ensures h.a == seedA(seq(data)) && h.b == seedB(seq(data)) && h.m == pmod(m)
contract (*hasher).next(h) (v)
  for C05
  requires h != nil && h.m >= 1
  modifies h.a
  ensures v == old(h.a) % u64(h.m) && 0 <= int(v) && int(v) < h.m
  ensures h.a == (old(h.a) + h.b) % u64(h.m)
contract (*Bloom).Add(b, v)
  for C05
  requires b != nil && okBloom(b)
  use added_found, found_kept, probe_range, pmod_range
  reveal probe
  modifies elems(b.bits.data)
  let s = old(seq(v))
  ensures forall j int {bitOf(b, j)} :: 0 <= j && j < b.m ==> bitOf(b, j) == (if hit(s, b.m, int(b.k), j) then u8(1) else old(bitOf(b, j)))
  ensures hasItem(b, s)
  ensures forall t str {old(hasItem(b, t))} {hasItem(b, t)} :: old(hasItem(b, t)) ==> hasItem(b, t)
  inv int(?i:num) <= int(b.k)
  inv (?h:hasher).m == pmod(b.m) && ?h.b == seedB(s)
  inv (?h:hasher).a == pstate(seedA(s), seedB(s), pmod(b.m), int(?i:num))
  inv forall j int {bitOf(b, j)} :: 0 <= j && j < b.m ==> bitOf(b, j) == (if hit(s, b.m, int(?i:num), j) then u8(1) else old(bitOf(b, j)))
contract (*Bloom).Has(b, v) (r)
  for C05 C06
  requires b != nil && okBloom(b)
  use probe_range, allset_probe, pmod_range
  reveal probe
  ensures r == hasItem(b, seq(v))
  inv int(?i:num) <= int(b.k)
  inv (?h:hasher).m == pmod(b.m) && ?h.b == seedB(seq(v))
  inv (?h:hasher).a == pstate(seedA(seq(v)), seedB(seq(v)), pmod(b.m), int(?i:num))
  inv allset(seq(b.bits.data), seq(v), b.m, int(?i:num))
contract (*Bloom).Reset(b)
  for C05
  requires b != nil && okBloom(b)
  use none_set
  modifies elems(b.bits.data)
  ensures forall j int {bitOf(b, j)} :: 0 <= j && j < b.m ==> bitOf(b, j) == 0
  ensures forall t str {hasItem(b, t)} :: int(b.k) >= 1 ==> !hasItem(b, t)
lemma none_set(d str, s str, m int, k int)
  for C05
  requires m >= 1 && m <= maxBuckets() && k >= 1
  requires forall j int {bk(d, 1, j)} :: 0 <= j && j < m ==> bk(d, 1, j) == 0
  use probe_range
  ensures !allset(d, s, m, k)
  pattern allset(d, s, m, k)
contract NewBits(m, k) (b)
  for C05 C06
  requires 1 <= m && m <= maxBuckets()
  use none_set
  ensures okBloom(b) && b.m == m && b.k == k && fresh(b.bits.data)
  ensures forall j int {bitOf(b, j)} :: 0 <= j && j < m ==> bitOf(b, j) == 0
  ensures forall t str {hasItem(b, t)} :: int(k) >= 1 ==> !hasItem(b, t)
func mkM(n int, p f64) int
func mkK(n int, p f64) u8
contract mk(n, p) (m, k)
  for C05 C06
  defines mkM mkK
contract New(n, p) (b)
  for C05 C06
  requires 1 <= mkM(n, p) && mkM(n, p) <= maxBuckets()
  use none_set
  ensures okBloom(b) && b.m == mkM(n, p) && b.k == mkK(n, p) && fresh(b.bits.data)
  ensures forall j int {bitOf(b, j)} :: 0 <= j && j < b.m ==> bitOf(b, j) == 0
  ensures forall t str {hasItem(b, t)} :: int(b.k) >= 1 ==> !hasItem(b, t)

// ---- serialized form: version, number of hash functions, bit array ----
def blVersion() = 1
def blLen(m) = 12 + (m+7)/8
contract (*Bloom).Len(b) (r)
  for C06
  requires b != nil && okBloom(b)
  ensures r == blLen(b.m)
contract Len(n, p) (r)
  for C06
  requires 1 <= mkM(n, p) && mkM(n, p) <= maxBuckets()
  ensures r == blLen(mkM(n, p))
// s begins with the serialized form of a filter of m bits and k hash functions
def blHeader(s, m, k) = at(s, 0) == blVersion() && at(s, 1) == k && at(s, 2) == bbVersion() && at(s, 3) == 1 && le64(s, 4) == u64(m)
contract (*Bloom).WriteTo(b, w) (n, err)
  for C06
  requires b != nil && okBloom(b) && w != nil
  modifies out(w)
  ensures n == outlen(w) - old(outlen(w)) && n >= 0
  ensures (err == nil) == (outfails(w) == old(outfails(w)))
  ensures nofail(w) ==> err == nil
  ensures forall k int {outat(w, k)} :: 0 <= k && k < old(outlen(w)) ==> outat(w, k) == old(outat(w, k))
  ensures err == nil ==> n == blLen(b.m)
  ensures err == nil ==> blHeader(sub(out(w), old(outlen(w)), outlen(w)), b.m, b.k)
  ensures err == nil ==> forall k int {b.bits.data[k]} :: 0 <= k && k < len(b.bits.data) ==> outat(w, old(outlen(w)) + 12 + k) == b.bits.data[k]
// exactly the byte strings that can be opened as a filter
def blOpens(s, avail) = avail >= 12 && at(s, 0) == blVersion() && at(s, 2) == bbVersion() && at(s, 3) == 1 && 1 <= int(le64(s, 4)) && blLen(int(le64(s, 4))) <= avail
contract WithBytes(buf) (b, err)
  for C04 C06
  ensures (err == nil) == blOpens(seq(buf), len(buf))
  ensures err == nil ==> okBloom(b) && blHeader(seq(buf), b.m, b.k)
  ensures err == nil ==> base(b.bits.data) == base(buf) && off(b.bits.data) == off(buf) + 12
contract (*Bloom).ReadFrom(b, r) (n, err)
  for C04 C06
  requires b != nil && r != nil
  modifies *b, in(r)
  let p = old(inpos(r))
  let avail = inlen(r) - old(inpos(r))
  ensures n == inpos(r) - old(inpos(r)) && n >= 0 && inpos(r) <= inlen(r)
  ensures err == nil ==> okBloom(b) && blLen(b.m) == n && n == avail && inerr(r) == io.EOF
  ensures err == nil ==> blHeader(instr(r, old(inpos(r)), inlen(r)), b.m, b.k) && fresh(b.bits.data)
  ensures err == nil ==> forall k int {b.bits.data[k]} :: 0 <= k && k < len(b.bits.data) ==> b.bits.data[k] == inat(r, old(inpos(r)) + 12 + k)
  ensures inerr(r) == io.EOF && blOpens(instr(r, old(inpos(r)), inlen(r)), avail) && blLen(int(le64(instr(r, old(inpos(r)), inlen(r)), 4))) == avail ==> err == nil
  ensures old(okBloom(b)) ==> okBloom(b)
lemma bl_header_unique(s str, m int, k u8, m2 int, k2 u8)
  for C06
  requires 0 <= m && m <= maxBuckets() && 0 <= m2 && m2 <= maxBuckets()
  requires blHeader(s, m, k) && blHeader(s, m2, k2)
  ensures m == m2 && k == k2
// the estimates are functions of the bits and the parameters
def blOnes(d, m) = cntN(d, 1, u8(1), m)
contract (*Bloom).Count(b) (r)
  for C06
  requires b != nil && okBloom(b)
  ensures r == uf("f2i!int64", "int", uf("math!ceil", "f64", -uf("math!log", "f64", 1.0 - i2f(blOnes(seq(b.bits.data), b.m)) / i2f(b.m)) * i2f(b.m) / i2f(b.k)))
contract (*Bloom).ErrorRate(b) (r)
  for C06
  requires b != nil && okBloom(b)
  ensures r == uf("math!pow", "f64", 1.0 - uf("math!exp", "f64", -i2f(b.k) * i2f(blOnes(seq(b.bits.data), b.m)) / i2f(b.m)), i2f(b.k))
