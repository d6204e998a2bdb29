// The sequence lock (internal/seqlock), under any number of goroutines
package internal/seqlock

// how often the write counter has been raised, and the value as of the last completed write
ghost marks int
ghost cur str
// this call: the value when it took the lock, the writes it completed, and the values before and after the last
ghost atLock str
ghost writes int
ghost before str
ghost after str
// the value, and the count of marks, when this call last looked at the write counter
ghost seen str
ghost seenMarks int
// what became of the update function
ghost fnRuns int
ghost fnIn str
ghost fnOut str
ghost fnErr ifc

functype seqlock.updater(f, data) (err)
  modifies elems(data), fnRuns, fnIn, fnOut, fnErr
  ensures fnRuns == old(fnRuns) + 1 && fnIn == old(seq(data)) && fnOut == seq(data) && fnErr == err

protocol seqlock
  shared row(s.seq), elems(s.data), locks(s), marks, cur
  holds marks >= 0 && s.seq == marks % 0x100000000
  holds marks % 2 == 0 ==> seq(s.data) == cur
  holds marks % 2 != 0 ==> held(s) != 0
  rely marks >= old(marks)
  rely marks == old(marks) ==> cur == old(cur)
  rely marks == old(marks) && marks % 2 == 0 ==> forall i int {s.data[i]} :: 0 <= i && i < 1024 ==> s.data[i] == old(s.data[i])
  rely old(held(s)) == me ==> held(s) == me && marks == old(marks) && cur == old(cur)
  rely marks == old(marks) && marks % 2 == 0 ==> seq(s.data) == old(seq(s.data))
  rely old(held(s)) == me ==> seq(s.data) == old(seq(s.data))
  rely old(held(s)) == me ==> forall i int {s.data[i]} :: 0 <= i && i < 1024 ==> s.data[i] == old(s.data[i])
  rely held(s) == me ==> old(held(s)) == me
  stable old(held(s)) == me ==> same
  stable marks == old(marks) && marks % 2 == 0 ==> same
  guarantee marks >= old(marks)
  guarantee marks == old(marks) ==> cur == old(cur)
  guarantee marks == old(marks) && marks % 2 == 0 ==> forall i int {s.data[i]} :: 0 <= i && i < 1024 ==> s.data[i] == old(s.data[i])
  guarantee marks == old(marks) && marks % 2 == 0 ==> seq(s.data) == old(seq(s.data))
  guarantee old(held(s)) != me && old(held(s)) != 0 ==> seq(s.data) == old(seq(s.data))
  guarantee old(held(s)) != me && old(held(s)) != 0 ==> held(s) == old(held(s)) && marks == old(marks)
  guarantee old(held(s)) != me && old(held(s)) != 0 ==> forall i int {s.data[i]} :: 0 <= i && i < 1024 ==> s.data[i] == old(s.data[i])
  guarantee held(s) == old(held(s)) || held(s) == me || held(s) == 0

contract New() (s)
  for C20
  ensures s != nil && s.seq == 0 && fresh(s) && seq(s.data) == zeros(1024)

contract (*Seqlock).Get(s) (ret)
  for C20
  mode u64int
  conc seqlock check
  requires s != nil
  modifies row(s.seq), elems(s.data), locks(s), marks, cur, seen, seenMarks
  on read s.seq set seen = cur
  on read s.seq set seenMarks = marks
  inv marks >= old(marks)
  inv held(s) == me ==> old(held(s)) == me
  // the counter has not gone round in full meanwhile: the value is that of one completed write
  ensures marks - old(marks) < 0x100000000 ==> seq(ret) == seen && seenMarks % 2 == 0
  ensures held(s) == me ==> old(held(s)) == me

contract (*Seqlock).Put(s, v)
  for C20
  mode u64int
  conc seqlock
  requires s != nil && held(s) != me && writes == 0
  modifies row(s.seq), elems(s.data), locks(s), marks, cur, atLock, writes, before, after
  on lock set atLock = cur
  on write s.seq set marks = marks + 1
  on write s.seq set cur = seq(s.data) when marks % 2 != 0
  on write s.seq set before = cur when marks % 2 != 0
  on write s.seq set after = seq(s.data) when marks % 2 != 0
  on write s.seq set writes = writes + 1 when marks % 2 != 0
  ensures writes == 1 && after == seq(v)
  ensures held(s) != me

contract (*Seqlock).Update(s, fn) (err)
  for C20
  mode u64int
  conc seqlock
  calls seqlock.updater
  requires s != nil && fn != nil && held(s) != me && writes == 0 && fnRuns == 0
  modifies row(s.seq), elems(s.data), locks(s), marks, cur, atLock, writes, before, after, fnRuns, fnIn, fnOut, fnErr
  on lock set atLock = cur
  on write s.seq set marks = marks + 1
  on write s.seq set cur = seq(s.data) when marks % 2 != 0
  on write s.seq set before = cur when marks % 2 != 0
  on write s.seq set after = seq(s.data) when marks % 2 != 0
  on write s.seq set writes = writes + 1 when marks % 2 != 0
  ensures fnRuns == 1 && fnIn == atLock && err == fnErr
  // success replaces the value the function was given by what it made of it; failure leaves it
  ensures err == nil ==> writes == 1 && after == fnOut && before == fnIn
  ensures err != nil ==> writes == 0 || after == before
  ensures held(s) != me
