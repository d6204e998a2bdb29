// The record map (internal/bufmap), under any number of goroutines
package internal/bufmap

// where a slot's bytes begin
opaque func start(x int, s int) int = x * s
lemma startAt(x int, s int)
  for C17 C18 C25
  ensures start(x, s) == x * s
  reveal start
  pattern start(x, s)
lemma startOrd(x int, y int, s int)
  for C17 C18 C25
  requires 0 <= x && x < y && 0 <= s
  ensures 0 <= start(x, s) && start(x, s) + s <= start(y, s)
  reveal start
  pattern start(x, s), start(y, s)

// per slot: how often its write counter has been raised, its bytes as of the last completed write, and
// whether an update of it has succeeded
ghost wmarks [int]int
ghost kept [int]str
ghost good [int]bool
// this call: the slot it locked and the bytes then, the writes it completed, the bytes before and after
ghost lockAt int
ghost goodAtLock bool
// the slot, the bytes and the marks when this call last looked at a write counter
ghost seenAt int
ghost seenGood bool
ghost fnInit bool
// the slot whose key this call looked at last
ghost probe int

functype bufmap.updater(f, data, init) (err)
  modifies elems(data), fnRuns, fnIn, fnOut, fnErr, fnInit
  ensures fnRuns == old(fnRuns) + 1 && fnIn == old(seq(data)) && fnOut == seq(data) && fnErr == err && fnInit == init

contract (*Map).pos(m, k, i) (r)
  for C17 C18 C25
  mode u64int
  requires m != nil && 1 <= m.l && 0 <= i && i <= 1000
  reveal home
  ensures 0 <= r && r < m.l
  ensures i < m.l ==> dist(m.l, home(k, m.l), r) == i

contract New(l, s) (m)
  for C17 C18 C25
  mode u64int
  requires 1 <= l && l <= 0x1000000 && 0 <= s && s <= 0x1000000
  requires l * s <= 0x1000000000000
  ensures m != nil && m.l == l && m.s == s && len(m.keys) == l && len(m.values) == l * s && cap(m.values) == len(m.values) && off(m.keys) == 0 && off(m.values) == 0
  ensures forall x int {m.keys[x].key} :: 0 <= x && x < l ==> m.keys[x].key == 0 && m.keys[x].seq == 0 && m.keys[x].set == 0

def wellFormed(m *Map) = m != nil && 1 <= m.l && m.l == len(m.keys) && 0 <= m.s && len(m.values) == start(m.l, m.s) && cap(m.values) == len(m.values) && off(m.keys) == 0 && off(m.values) == 0
def bytesOf(m *Map, x int) = seq(m.values[start(x, m.s) : start(x, m.s) + m.s])

protocol records
  shared elems(m.keys), elems(m.values), locks(m.keys), wmarks, kept, good, where
  // a key has one slot, among the first eleven tried for it, and none of those before it is empty
  holds forall x int {m.keys[x].key} :: 0 <= x && x < m.l && m.keys[x].key != 0 ==> where[m.keys[x].key] == x && dist(m.l, home(m.keys[x].key, m.l), x) <= 10
  holds forall q u64 {where[q]} :: q != 0 && where[q] != 0-1 ==> 0 <= where[q] && where[q] < m.l && m.keys[where[q]].key == q
  holds forall x int, y int {m.keys[x].key, m.keys[y].key} :: 0 <= x && x < m.l && 0 <= y && y < m.l && m.keys[x].key != 0 && dist(m.l, home(m.keys[x].key, m.l), y) < dist(m.l, home(m.keys[x].key, m.l), x) ==> m.keys[y].key != 0
  // the write counter is odd only while the lock is held; otherwise the slot's bytes are those last stored
  holds forall x int {m.keys[x].seq} {wmarks[x]} :: 0 <= x && x < m.l ==> wmarks[x] >= 0 && m.keys[x].seq == wmarks[x] % 0x100000000
  holds forall x int {wmarks[x]} :: 0 <= x && x < m.l && wmarks[x] % 2 == 0 ==> bytesOf(m, x) == kept[x]
  holds forall x int {wmarks[x]} :: 0 <= x && x < m.l && wmarks[x] % 2 != 0 ==> held(m.keys, x) != 0
  holds forall x int {m.keys[x].set} {good[x]} :: 0 <= x && x < m.l && wmarks[x] % 2 == 0 ==> (m.keys[x].set != 0) == good[x]
  holds forall x int {good[x]} :: 0 <= x && x < m.l && good[x] ==> m.keys[x].set != 0
  rely forall x int {m.keys[x].key} {old(m.keys[x].key)} :: 0 <= x && x < m.l && old(m.keys[x].key) != 0 ==> m.keys[x].key == old(m.keys[x].key)
  rely forall x int {m.keys[x].set} {old(m.keys[x].set)} :: 0 <= x && x < m.l && old(m.keys[x].set) != 0 ==> m.keys[x].set != 0
  rely forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l ==> wmarks[x] >= old(wmarks[x])
  rely forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l && wmarks[x] == old(wmarks[x]) ==> kept[x] == old(kept[x]) && good[x] == old(good[x])
  rely forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l && wmarks[x] == old(wmarks[x]) && wmarks[x] % 2 == 0 ==> bytesOf(m, x) == old(bytesOf(m, x))
  rely forall x int, i int {start(x, m.s), m.values[i]} :: 0 <= x && x < m.l && start(x, m.s) <= i && i < start(x, m.s) + m.s && wmarks[x] == old(wmarks[x]) && wmarks[x] % 2 == 0 ==> m.values[i] == old(m.values[i])
  rely forall x int {held(m.keys, x)} {old(held(m.keys, x))} :: 0 <= x && x < m.l ==> (held(m.keys, x) == me) == (old(held(m.keys, x)) == me)
  rely forall x int {held(m.keys, x)} {old(held(m.keys, x))} {wmarks[x]} {m.keys[x].set} :: 0 <= x && x < m.l && old(held(m.keys, x)) == me ==> wmarks[x] == old(wmarks[x]) && kept[x] == old(kept[x]) && good[x] == old(good[x]) && m.keys[x].set == old(m.keys[x].set) && bytesOf(m, x) == old(bytesOf(m, x))
  rely forall x int, i int {start(x, m.s), m.values[i]} :: 0 <= x && x < m.l && start(x, m.s) <= i && i < start(x, m.s) + m.s && old(held(m.keys, x)) == me ==> m.values[i] == old(m.values[i])
  stable forall x int {start(x, m.s)} :: 0 <= x && x < m.l && lo == start(x, m.s) && n <= m.s && old(held(m.keys, x)) == me ==> same
  stable forall x int {start(x, m.s)} :: 0 <= x && x < m.l && lo == start(x, m.s) && n <= m.s && wmarks[x] == old(wmarks[x]) && wmarks[x] % 2 == 0 ==> same
  guarantee forall x int {m.keys[x].key} {old(m.keys[x].key)} :: 0 <= x && x < m.l && old(m.keys[x].key) != 0 ==> m.keys[x].key == old(m.keys[x].key)
  guarantee forall x int {m.keys[x].set} {old(m.keys[x].set)} :: 0 <= x && x < m.l && old(m.keys[x].set) != 0 ==> m.keys[x].set != 0
  guarantee forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l ==> wmarks[x] >= old(wmarks[x])
  guarantee forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l && wmarks[x] == old(wmarks[x]) ==> kept[x] == old(kept[x]) && good[x] == old(good[x])
  guarantee forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l && wmarks[x] == old(wmarks[x]) && wmarks[x] % 2 == 0 ==> bytesOf(m, x) == old(bytesOf(m, x))
  guarantee forall x int, i int {start(x, m.s), m.values[i]} :: 0 <= x && x < m.l && start(x, m.s) <= i && i < start(x, m.s) + m.s && wmarks[x] == old(wmarks[x]) && wmarks[x] % 2 == 0 ==> m.values[i] == old(m.values[i])
  guarantee forall x int {held(m.keys, x)} {old(held(m.keys, x))} :: 0 <= x && x < m.l ==> held(m.keys, x) == old(held(m.keys, x)) || (old(held(m.keys, x)) == 0 && held(m.keys, x) == me) || (old(held(m.keys, x)) == me && held(m.keys, x) == 0)
  guarantee forall x int {held(m.keys, x)} {old(held(m.keys, x))} {wmarks[x]} {m.keys[x].set} :: 0 <= x && x < m.l && old(held(m.keys, x)) != me && old(held(m.keys, x)) != 0 ==> wmarks[x] == old(wmarks[x]) && m.keys[x].set == old(m.keys[x].set) && bytesOf(m, x) == old(bytesOf(m, x))
  guarantee forall x int, i int {start(x, m.s), m.values[i]} :: 0 <= x && x < m.l && start(x, m.s) <= i && i < start(x, m.s) + m.s && old(held(m.keys, x)) != me && old(held(m.keys, x)) != 0 ==> m.values[i] == old(m.values[i])

contract (*Map).Get(m, k, buf) (ok)
  for C17 C18
  mode u64int
  use homeRange, startAt, startOrd
  conc records check
  requires wellFormed(m) && base(buf) != base(m.values)
  modifies elems(m.keys), elems(m.values), locks(m.keys), wmarks, kept, good, where, elems(buf), seen, seenMarks, seenAt, seenGood, probe
  on read m.keys[0].key set probe = at
  on read m.keys[0].seq set seen = kept[at]
  on read m.keys[0].seq set seenMarks = wmarks[at]
  on read m.keys[0].seq set seenGood = good[at]
  on read m.keys[0].seq set seenAt = at
  inv 0 <= ?i && ?i <= 10
  inv 0 <= ?i && ?i <= 11
  inv forall x int {m.keys[x].key} {old(m.keys[x].key)} :: 0 <= x && x < m.l && old(m.keys[x].key) != 0 ==> m.keys[x].key == old(m.keys[x].key)
  inv forall x int {wmarks[x]} {old(wmarks[x])} :: 0 <= x && x < m.l ==> wmarks[x] >= old(wmarks[x])
  inv forall x int {m.keys[x].set} {old(m.keys[x].set)} :: 0 <= x && x < m.l && old(m.keys[x].set) != 0 ==> m.keys[x].set != 0
  inv forall y int {old(m.keys[y].key)} :: 0 <= y && y < m.l && dist(m.l, home(k, m.l), y) < ?i ==> old(m.keys[y].key) != k
  inv 0 <= probe && probe < m.l && m.keys[probe].key == k
  inv m.keys[probe].set != 0
  inv seq(buf) == old(seq(buf))
  inv forall x int {held(m.keys, x)} {old(held(m.keys, x))} :: 0 <= x && x < m.l ==> (held(m.keys, x) == me) == (old(held(m.keys, x)) == me)
  // unless the write counter goes round in full meanwhile, the bytes are those of one completed write to the key's slot
  ensures ok ==> k != 0 && 0 <= seenAt && seenAt < m.l && m.keys[seenAt].key == k
  ensures ok && wmarks[seenAt] - old(wmarks)[seenAt] < 0x100000000 ==> seenMarks % 2 == 0 && seenGood
  ensures ok && wmarks[seenAt] - old(wmarks)[seenAt] < 0x100000000 && len(buf) >= m.s ==> seq(buf[0 : m.s]) == seen
  // no key is missed that was updated successfully before
  ensures !ok ==> k == 0 || old(where[k]) == 0-1 || !old(good[old(where[k])])
  ensures !ok ==> seq(buf) == old(seq(buf))
  ensures forall x int {held(m.keys, x)} :: 0 <= x && x < m.l ==> (held(m.keys, x) == me) == (old(held(m.keys, x)) == me)

contract (*Map).Update(m, k, fn) (err)
  for C17 C18 C25
  mode u64int
  use homeRange, startAt, startOrd
  conc records
  calls bufmap.updater
  requires wellFormed(m) && fn != nil && writes == 0 && fnRuns == 0
  requires forall x int {held(m.keys, x)} :: 0 <= x && x < m.l ==> held(m.keys, x) != me
  modifies elems(m.keys), elems(m.values), locks(m.keys), wmarks, kept, good, where, lockAt, goodAtLock, atLock, writes, before, after, fnRuns, fnIn, fnOut, fnErr, fnInit
  on write m.keys[0].key set where = upd(where, k, at)
  on lock set lockAt = at
  on lock set atLock = kept[at]
  on lock set goodAtLock = good[at]
  on write m.keys[0].seq set wmarks = upd(wmarks, at, wmarks[at] + 1)
  on write m.keys[0].seq set kept = upd(kept, at, bytesOf(m, at)) when wmarks[at] % 2 != 0
  on write m.keys[0].seq set good = upd(good, at, good[at] || (fnRuns > 0 && fnErr == nil)) when wmarks[at] % 2 != 0
  on write m.keys[0].seq set before = kept[at] when wmarks[at] % 2 != 0
  on write m.keys[0].seq set after = bytesOf(m, at) when wmarks[at] % 2 != 0
  on write m.keys[0].seq set writes = writes + 1 when wmarks[at] % 2 != 0
  inv 0 <= ?i && ?i <= 10
  inv 0 <= ?i && ?i <= 11
  inv forall y int {m.keys[y].key} :: 0 <= y && y < m.l && dist(m.l, home(k, m.l), y) < ?i ==> m.keys[y].key != 0 && m.keys[y].key != k
  inv forall x int {held(m.keys, x)} :: 0 <= x && x < m.l ==> held(m.keys, x) != me
  // no slot: the function is not called
  ensures k == 0 ==> fnRuns == 0 && err == ErrInvalidKey
  ensures fnRuns == 0 && k != 0 ==> err == ErrOutOfSlots && forall y int {m.keys[y].key} :: 0 <= y && y < m.l && dist(m.l, home(k, m.l), y) <= 10 ==> m.keys[y].key != 0 && m.keys[y].key != k
  // a slot: the function is called once, on what the key's slot held, and told whether that is new
  ensures fnRuns == 0 || fnRuns == 1
  ensures fnRuns == 1 ==> 0 <= lockAt && lockAt < m.l && m.keys[lockAt].key == k && fnIn == atLock && fnInit == !goodAtLock && err == fnErr
  ensures fnRuns == 1 && err == nil ==> writes == 1 && after == fnOut && before == fnIn
  ensures fnRuns == 1 && err != nil ==> writes == 0 || after == before
  ensures fnRuns == 0 ==> writes == 0
  // the lock is released
  ensures forall x int {held(m.keys, x)} :: 0 <= x && x < m.l ==> held(m.keys, x) != me
