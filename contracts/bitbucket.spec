// Packed saturating buckets (internal/bitbucket)
package internal/bitbucket

// value of bucket i of width w in the packed bytes s, most significant bit first
opaque func bk(s str, w int, i int) u8 = let o = i*w in
  u8(((u16(at(s, o/8)) << 8 | u16(at(s, o/8+1))) >> (16 - o%8 - w)) & ((u16(1) << w) - u16(1)))
// a bucket depends on its own bytes only
lemma bk_ext(s str, t str, w int, i int)
  for C11
  split w in 1..8
  split i mod 8
  reveal bk
  pattern bk(s, w, i), bk(t, w, i)
  requires 1 <= w && w <= 8 && 0 <= i
  requires at(s, i*w/8) == at(t, i*w/8) && (i*w%8 + w <= 8 || at(s, i*w/8+1) == at(t, i*w/8+1))
  ensures bk(s, w, i) == bk(t, w, i)
def bmax(w) = (u8(1) << int(w)) - u8(1)
def min8(a, b) = if a <= b then a else b
// number of buckets below n holding v
func cntN(s str, w int, v u8, n int) int = if n <= 0 then 0 else cntN(s, w, v, n-1) + (if bk(s, w, n-1) == v then 1 else 0)
def maxBuckets() = 0x800000000000000
def okLayout(d, n, w) = 0 <= n && n <= maxBuckets() && 1 <= int(w) && int(w) <= 8 && len(d) == (n*int(w)+7)/8
def okBB(b) = okLayout(b.data, b.n, b.w)
def bkOf(b, i) = bk(seq(b.data), int(b.w), i)

contract (*BitBucket).Get(b, i) (r)
  for C02
  split b.w in 1..8
  split i mod 8
  requires b != nil && okBB(b) && 0 <= i && i < b.n
  reveal bk
  ensures r == bkOf(b, i) && r <= bmax(b.w)
contract (*BitBucket).Set(b, i, v)
  for C02
  split b.w in 1..8
  split i mod 8
  cases j mod 8
  requires b != nil && okBB(b) && 0 <= i && i < b.n
  reveal bk
  modifies elems(b.data)
  ensures bkOf(b, i) == min8(v, bmax(b.w))
  ensures forall j int {bkOf(b, j)} :: 0 <= j && j < b.n && j != i ==> bkOf(b, j) == old(bkOf(b, j))
contract (*BitBucket).IncN(b, i, v)
  for C02
  split b.w in 1..8
  split i mod 8
  cases j mod 8
  requires b != nil && okBB(b) && 0 <= i && i < b.n
  reveal bk
  modifies elems(b.data)
  ensures u16(bkOf(b, i)) == min8(u16(old(bkOf(b, i))) + u16(v), u16(bmax(b.w)))
  ensures forall j int {bkOf(b, j)} :: 0 <= j && j < b.n && j != i ==> bkOf(b, j) == old(bkOf(b, j))
contract (*BitBucket).CountN(b, v) (r)
  for C02
  requires b != nil && okBB(b)
  ensures r == cntN(seq(b.data), int(b.w), v, b.n)
  inv ?r == cntN(seq(b.data), int(b.w), v, ?i)
  inv ?i <= b.n
  inv ?r <= ?i
contract (*BitBucket).Reset(b)
  for C02
  split b.w in 1..8
  cases j mod 8
  requires b != nil && okBB(b)
  reveal bk
  modifies elems(b.data)
  ensures forall k int :: 0 <= k && k < len(b.data) ==> b.data[k] == 0
  ensures forall j int {bkOf(b, j)} :: 0 <= j && j < b.n ==> bkOf(b, j) == 0
  inv forall k int :: 0 <= k && k < ?i ==> b.data[k] == 0
contract (*BitBucket).Max(b) (r)
  for C02
  requires b != nil
  ensures r == bmax(b.w)
contract (*BitBucket).Count(b) (r)
  for C02
  requires b != nil
  ensures r == b.n
contract (*BitBucket).Width(b) (r)
  for C02
  requires b != nil
  ensures r == b.w
contract New(n, w) (b)
  for C02
  split w in 1..8
  cases j mod 8
  reveal bk
  requires 0 <= n && n <= maxBuckets() && 1 <= int(w) && int(w) <= 8
  ensures okBB(b) && b.n == n && b.w == w && fresh(b.data)
  ensures forall j int {bkOf(b, j)} :: 0 <= j && j < n ==> bkOf(b, j) == 0
  ensures forall k int :: 0 <= k && k < len(b.data) ==> b.data[k] == 0

// ---- serialized form: version, width, count (little endian), packed buckets ----
def bbVersion() = 1
def bbLen(n, w) = 10 + (n*int(w)+7)/8
// the header in front of position p of byte sequence s describes an array of count n and width w
def bbHeader(s, n, w) = at(s, 0) == bbVersion() && at(s, 1) == w && le64(s, 2) == u64(n)

contract (*BitBucket).Len(b) (r)
  for C03
  requires b != nil && okBB(b)
  ensures r == bbLen(b.n, b.w)
contract Len(n, w) (r)
  for C03
  requires 0 <= n && n <= maxBuckets() && 1 <= int(w) && int(w) <= 8
  ensures r == bbLen(n, w)
contract (*BitBucket).WriteTo(b, w) (n, err)
  for C03
  requires b != nil && okBB(b) && w != nil
  modifies out(w)
  let o = old(outlen(w))
  ensures n == outlen(w) - old(outlen(w)) && n >= 0 && n <= bbLen(b.n, b.w)
  ensures (err == nil) == (outfails(w) == old(outfails(w)))
  ensures nofail(w) ==> err == nil
  ensures forall k int {outat(w, k)} :: 0 <= k && k < old(outlen(w)) ==> outat(w, k) == old(outat(w, k))
  ensures err == nil ==> n == bbLen(b.n, b.w)
  ensures err == nil ==> bbHeader(sub(out(w), old(outlen(w)), outlen(w)), b.n, b.w)
  ensures err == nil ==> forall k int {b.data[k]} :: 0 <= k && k < len(b.data) ==> outat(w, old(outlen(w)) + 10 + k) == b.data[k]

// exactly the byte strings that can be opened
def bbOpens(s, avail) = avail >= 10 && at(s, 0) == bbVersion() && at(s, 1) >= 1 && at(s, 1) <= 8 && bbLen(int(le64(s, 2)), at(s, 1)) <= avail

contract WithBytes(buf) (b, err)
  for C03 C04
  split at(seq(buf), 1) in 1..8 else
  ensures (err == nil) == bbOpens(seq(buf), len(buf))
  ensures err == nil ==> okBB(b) && bbHeader(seq(buf), b.n, b.w)
  ensures err == nil ==> base(b.data) == base(buf) && off(b.data) == off(buf) + 10
contract (*BitBucket).ReadFrom(b, r) (n, err)
  for C03 C04
  requires b != nil && r != nil
  split inat(r, inpos(r) + 1) in 1..8 else
  modifies *b, in(r)
  let p = old(inpos(r))
  let avail = inlen(r) - old(inpos(r))
  ensures n == inpos(r) - old(inpos(r)) && n >= 0 && inpos(r) <= inlen(r)
  ensures err == nil ==> okBB(b) && bbLen(b.n, b.w) == n && n == avail && inerr(r) == io.EOF
  ensures err == nil ==> bbHeader(instr(r, old(inpos(r)), inlen(r)), b.n, b.w) && fresh(b.data)
  ensures err == nil ==> forall k int {b.data[k]} :: 0 <= k && k < len(b.data) ==> b.data[k] == inat(r, old(inpos(r)) + 10 + k)
  ensures inerr(r) == io.EOF && bbOpens(instr(r, old(inpos(r)), inlen(r)), avail) && bbLen(int(le64(instr(r, old(inpos(r)), inlen(r)), 2)), inat(r, old(inpos(r)) + 1)) == avail ==> err == nil
  ensures old(okBB(b)) ==> okBB(b)
// a serialized header determines count and width
lemma bb_header_unique(s str, n int, w u8, n2 int, w2 u8)
  for C03
  requires 0 <= n && n <= maxBuckets() && 0 <= n2 && n2 <= maxBuckets()
  requires bbHeader(s, n, w) && bbHeader(s, n2, w2)
  ensures n == n2 && w == w2
