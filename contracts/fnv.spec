// 64-bit FNV-1 and FNV-1a (internal/hash/fnv)
package internal/hash/fnv

// the published recurrence over the first n bytes of s, starting from state h
func fnv1(h u64, s str, n int) u64 = if n <= 0 then h else (fnv1(h, s, n-1) * 0x100000001b3) ^ u64(at(s, n-1))
func fnv1a(h u64, s str, n int) u64 = if n <= 0 then h else (fnv1a(h, s, n-1) ^ u64(at(s, n-1))) * 0x100000001b3
def fnvOffset() = u64(0xcbf29ce484222325)
def bebyte(n, k) = u8(n >> (8*(7-k)))


// hashing in pieces equals hashing the whole
lemma fnv1_prefix(h u64, s str, t str, n int)
  for C01
  requires 0 <= n && n <= len(s)
  ensures fnv1(h, s + t, n) == fnv1(h, s, n)
  induct n
lemma fnv1_tail(h u64, s str, t str, n int)
  for C01
  use fnv1_prefix
  requires 0 <= n && n <= len(t)
  ensures fnv1(h, s + t, len(s) + n) == fnv1(fnv1(h, s, len(s)), t, n)
  induct n
lemma fnv1_pieces(h u64, s str, t str)
  for C01
  use fnv1_tail
  ensures fnv1(h, s + t, len(s + t)) == fnv1(fnv1(h, s, len(s)), t, len(t))

contract New64() (p)
  for C01
  ensures fresh(p) && *p == fnvOffset()
contract (*Fnv64).Reset(s)
  for C01
  requires s != nil
  modifies *s
  ensures *s == fnvOffset()
contract (*Fnv64).Sum64(s) (r)
  for C01
  requires s != nil
  ensures r == *s
contract (*Fnv64).Size(s) (r)
  for C01
  ensures r == 8
contract (*Fnv64).Sum(s, buf) (r)
  for C01
  requires s != nil
  modifies elems(buf[len(buf):cap(buf)])
  ensures len(r) == len(buf) + 8
  ensures forall i int :: 0 <= i && i < len(buf) ==> r[i] == old(buf[i])
  ensures be64(r, len(buf)) == old(*s)
  ensures *s == old(*s)
contract (*Fnv64).Write(s, data) (n, err)
  for C01
  requires s != nil
  modifies *s
  ensures *s == fnv1(old(*s), seq(data), len(data))
  ensures n == len(data) && err == nil
  inv ?h:u64 == fnv1(entry(?h), seq(data), ?i)
contract (*Fnv64).WriteByte(s, b) (err)
  for C01
  requires s != nil
  modifies *s
  ensures *s == ((old(*s) * 0x100000001b3) ^ u64(b))
  ensures err == nil
contract (*Fnv64).WriteString(s, str) (n, err)
  for C01
  requires s != nil
  modifies *s
  ensures *s == fnv1(old(*s), str, len(str))
  ensures n == len(str) && err == nil
  inv ?h:u64 == fnv1(entry(?h), str, ?i)
contract (*Fnv64).WriteUint64(s, n)
  for C01
  requires s != nil
  modifies *s
  ensures *s == ((((((((((((((((old(*s) * 0x100000001b3) ^ u64(bebyte(n,0))) * 0x100000001b3) ^ u64(bebyte(n,1))) * 0x100000001b3) ^ u64(bebyte(n,2))) * 0x100000001b3) ^ u64(bebyte(n,3))) * 0x100000001b3) ^ u64(bebyte(n,4))) * 0x100000001b3) ^ u64(bebyte(n,5))) * 0x100000001b3) ^ u64(bebyte(n,6))) * 0x100000001b3) ^ u64(bebyte(n,7)))
contract String64(str) (r)
  for C01
  ensures r == fnv1(fnvOffset(), str, len(str))
  inv ?h:u64 == fnv1(fnvOffset(), str, ?i)
contract Sum64(buf) (r)
  for C01
  ensures r == fnv1(fnvOffset(), seq(buf), len(buf))
  inv ?h:u64 == fnv1(fnvOffset(), seq(buf), ?i)

// hashing in pieces equals hashing the whole
lemma fnv1a_prefix(h u64, s str, t str, n int)
  for C01
  requires 0 <= n && n <= len(s)
  ensures fnv1a(h, s + t, n) == fnv1a(h, s, n)
  induct n
lemma fnv1a_tail(h u64, s str, t str, n int)
  for C01
  use fnv1a_prefix
  requires 0 <= n && n <= len(t)
  ensures fnv1a(h, s + t, len(s) + n) == fnv1a(fnv1a(h, s, len(s)), t, n)
  induct n
lemma fnv1a_pieces(h u64, s str, t str)
  for C01
  use fnv1a_tail
  ensures fnv1a(h, s + t, len(s + t)) == fnv1a(fnv1a(h, s, len(s)), t, len(t))

contract New64a() (p)
  for C01
  ensures fresh(p) && *p == fnvOffset()
contract (*Fnv64a).Reset(s)
  for C01
  requires s != nil
  modifies *s
  ensures *s == fnvOffset()
contract (*Fnv64a).Sum64(s) (r)
  for C01
  requires s != nil
  ensures r == *s
contract (*Fnv64a).Size(s) (r)
  for C01
  ensures r == 8
contract (*Fnv64a).Sum(s, buf) (r)
  for C01
  requires s != nil
  modifies elems(buf[len(buf):cap(buf)])
  ensures len(r) == len(buf) + 8
  ensures forall i int :: 0 <= i && i < len(buf) ==> r[i] == old(buf[i])
  ensures be64(r, len(buf)) == old(*s)
  ensures *s == old(*s)
contract (*Fnv64a).Write(s, data) (n, err)
  for C01
  requires s != nil
  modifies *s
  ensures *s == fnv1a(old(*s), seq(data), len(data))
  ensures n == len(data) && err == nil
  inv ?h:u64 == fnv1a(entry(?h), seq(data), ?i)
contract (*Fnv64a).WriteByte(s, b) (err)
  for C01
  requires s != nil
  modifies *s
  ensures *s == ((old(*s) ^ u64(b)) * 0x100000001b3)
  ensures err == nil
contract (*Fnv64a).WriteString(s, str) (n, err)
  for C01
  requires s != nil
  modifies *s
  ensures *s == fnv1a(old(*s), str, len(str))
  ensures n == len(str) && err == nil
  inv ?h:u64 == fnv1a(entry(?h), str, ?i)
contract (*Fnv64a).WriteUint64(s, n)
  for C01
  requires s != nil
  modifies *s
  ensures *s == ((((((((((((((((old(*s) ^ u64(bebyte(n,0))) * 0x100000001b3) ^ u64(bebyte(n,1))) * 0x100000001b3) ^ u64(bebyte(n,2))) * 0x100000001b3) ^ u64(bebyte(n,3))) * 0x100000001b3) ^ u64(bebyte(n,4))) * 0x100000001b3) ^ u64(bebyte(n,5))) * 0x100000001b3) ^ u64(bebyte(n,6))) * 0x100000001b3) ^ u64(bebyte(n,7))) * 0x100000001b3)
contract String64a(str) (r)
  for C01
  ensures r == fnv1a(fnvOffset(), str, len(str))
  inv ?h:u64 == fnv1a(fnvOffset(), str, ?i)
contract Sum64a(buf) (r)
  for C01
  ensures r == fnv1a(fnvOffset(), seq(buf), len(buf))
  inv ?h:u64 == fnv1a(fnvOffset(), seq(buf), ?i)
