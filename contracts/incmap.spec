// The counter map (internal/incmap), under any number of goroutines
package internal/incmap

// cyclic distance from slot h to slot y, and the first slot tried for a key
def dist(l int, h int, y int) = if h <= y then y - h else y - h + l
opaque func home(k u64, l int) int = k % l
lemma homeRange(k u64, l int)
  for C19 C17 C18
  mode u64int
  requires l >= 1
  ensures 0 <= home(k, l) && home(k, l) < l
  reveal home
  pattern home(k, l)

// the sum of the amounts added to each key so far, and the slot a key has, or -1
ghost total [u64]u64
ghost where [u64]int
// how often this call has added to its key
ghost added int
// the sum for the key when this call read its value
ghost sumRead u64

contract (*Map).pos(m, k, i) (r)
  for C19
  mode u64int
  requires m != nil && 1 <= m.l && 0 <= i && i <= 1000
  reveal home
  ensures 0 <= r && r < m.l
  ensures i < m.l ==> dist(m.l, home(k, m.l), r) == i

contract New(l) (m)
  for C19
  mode u64int
  requires 1 <= l && l <= 0x100000000000
  ensures m != nil && m.l == l && len(m.keys) == l && len(m.values) == l && off(m.keys) == 0 && off(m.values) == 0 && base(m.keys) != base(m.values)
  ensures forall x int {m.keys[x]} :: 0 <= x && x < l ==> m.keys[x] == 0
  ensures forall x int {m.values[x]} :: 0 <= x && x < l ==> m.values[x] == 0

protocol counters
  shared elems(m.keys), elems(m.values), total, where
  // a key has one slot, among the first eleven tried for it, and none of those before it is empty
  holds forall x int {m.keys[x]} :: 0 <= x && x < m.l && m.keys[x] != 0 ==> where[m.keys[x]] == x && dist(m.l, home(m.keys[x], m.l), x) <= 10
  holds forall q u64 {where[q]} :: q != 0 && where[q] != 0-1 ==> 0 <= where[q] && where[q] < m.l && m.keys[where[q]] == q
  holds forall x int, y int {m.keys[x], m.keys[y]} :: 0 <= x && x < m.l && 0 <= y && y < m.l && m.keys[x] != 0 && dist(m.l, home(m.keys[x], m.l), y) < dist(m.l, home(m.keys[x], m.l), x) ==> m.keys[y] != 0
  // the value in a key's slot is the sum of what was added to it
  holds forall x int {m.values[x]} :: 0 <= x && x < m.l && m.keys[x] != 0 ==> m.values[x] == total[m.keys[x]]
  holds forall x int {m.values[x]} :: 0 <= x && x < m.l && m.keys[x] == 0 ==> m.values[x] == 0
  holds forall q u64 {total[q]} :: q != 0 && where[q] == 0-1 ==> total[q] == 0
  rely forall x int {m.keys[x]} {old(m.keys[x])} :: 0 <= x && x < m.l && old(m.keys[x]) != 0 ==> m.keys[x] == old(m.keys[x])
  guarantee forall x int {m.keys[x]} {old(m.keys[x])} :: 0 <= x && x < m.l && old(m.keys[x]) != 0 ==> m.keys[x] == old(m.keys[x])

contract (*Map).Inc(m, k, d) (ok)
  for C19
  mode u64int
  use homeRange
  conc counters check
  requires m != nil && 1 <= m.l && m.l == len(m.keys) && m.l == len(m.values) && off(m.keys) == 0 && off(m.values) == 0 && base(m.keys) != base(m.values)
  requires added == 0
  modifies elems(m.keys), elems(m.values), total, where, added
  on write m.keys[0] set where = upd(where, k, at)
  on write m.values[0] set total = upd(total, k, (total[k] + d) % 0x10000000000000000)
  on write m.values[0] set added = added + 1
  inv 0 <= ?i && ?i <= 10
  inv 0 <= ?i && ?i <= 11
  inv forall y int {m.keys[y]} :: 0 <= y && y < m.l && dist(m.l, home(k, m.l), y) < ?i ==> m.keys[y] != 0 && m.keys[y] != k
  // success adds the amount once; failure adds nothing and means key 0 or eleven slots with other keys
  ensures ok ==> added == 1 && k != 0
  ensures !ok ==> added == 0
  ensures !ok && k != 0 ==> forall y int {m.keys[y]} :: 0 <= y && y < m.l && dist(m.l, home(k, m.l), y) <= 10 ==> m.keys[y] != 0 && m.keys[y] != k

contract (*Map).Get(m, k) (v, ok)
  for C19
  mode u64int
  use homeRange
  conc counters
  requires m != nil && 1 <= m.l && m.l == len(m.keys) && m.l == len(m.values) && off(m.keys) == 0 && off(m.values) == 0 && base(m.keys) != base(m.values)
  modifies elems(m.keys), elems(m.values), total, where, sumRead
  on read m.values[0] set sumRead = total[k]
  inv 0 <= ?i && ?i <= 10
  inv 0 <= ?i && ?i <= 11
  inv forall x int {m.keys[x]} {old(m.keys[x])} :: 0 <= x && x < m.l && old(m.keys[x]) != 0 ==> m.keys[x] == old(m.keys[x])
  inv forall y int {old(m.keys[y])} :: 0 <= y && y < m.l && dist(m.l, home(k, m.l), y) < ?i ==> old(m.keys[y]) != k
  ensures ok ==> v == sumRead && k != 0 && where[k] != 0-1
  ensures !ok ==> k == 0 || old(where[k]) == 0-1
