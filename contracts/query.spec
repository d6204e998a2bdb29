// Queries: from matches to fields, measures and criteria (internal/query)
package regexp
// what a regular expression finds in a text
func matched(re int, s str) bool
func group(re int, s str, i int, j int) str
func nMatch(re int, s str) int
func nGroups(re int) int
contract (*Regexp).FindStringSubmatch(re, s) (m)
  trusted what a regular expression matches is determined by it and the text
  ensures base(m) < nextref() && len(m) == if matched(ref(re), s) then nGroups(ref(re)) + 1 else 0
  ensures forall j int {m[j]} :: 0 <= j && j < len(m) ==> m[j] == group(ref(re), s, 0, j)
contract (*Regexp).FindAllStringSubmatch(re, s, n) (m)
  trusted what a regular expression matches is determined by it and the text
  ensures base(m) < nextref() && nMatch(ref(re), s) >= 0 && (n < 0 ==> len(m) == nMatch(ref(re), s))
  ensures n >= 0 ==> len(m) == if n < nMatch(ref(re), s) then n else nMatch(ref(re), s)
  ensures forall i int {len(m[i])} :: 0 <= i && i < len(m) ==> len(m[i]) == nGroups(ref(re)) + 1 && base(m[i]) < nextref() && (nGroups(ref(re)) >= 1 ==> m[i][1] == group(ref(re), s, i, 1)) && (nGroups(ref(re)) >= 2 ==> m[i][2] == group(ref(re), s, i, 2))
  ensures forall i int, j int {m[i][j]} :: 0 <= i && i < len(m) && 0 <= j && j < len(m[i]) ==> m[i][j] == group(ref(re), s, i, j)

package internal/query
// fields by first mention: how many the first i selections have, the field of each number, the number of each field
func nSeen(i int) int
func fieldAt(k int) str
func ixOf(f str) int
// how many of the first i selections are of field k
func nOf(i int, k int) int
// the measure selected in place j of field k
func measAt(k int, j int) str
// marks the fields' numbers
func num(k int) int
def parsed(in) = matched(ref(queryRe), in)
def selText(in) = group(ref(queryRe), in, 0, 1)
def whereText(in) = group(ref(queryRe), in, 0, 2)
def selM(in, i) = group(ref(selectRe), selText(in), i, 1)
def selF(in, i) = group(ref(selectRe), selText(in), i, 2)
def nSel(in) = nMatch(ref(selectRe), selText(in))
def nWhere(in) = nMatch(ref(whereRe), whereText(in))

contract RoughParse(in) (q, err)
  for C23
  requires nGroups(ref(queryRe)) == 2 && nGroups(ref(selectRe)) == 2 && nGroups(ref(whereRe)) == 2
  requires nSeen(0) == 0 && (forall k int {nOf(0, k)} :: nOf(0, k) == 0)
  requires forall k int {num(k)} :: num(k) == k
  requires forall i int {selF(in, i)} :: 0 <= i ==> num(ixOf(selF(in, i))) == ixOf(selF(in, i)) && 0 <= ixOf(selF(in, i)) && ixOf(selF(in, i)) <= nSeen(i) && fieldAt(ixOf(selF(in, i))) == selF(in, i) && nSeen(i+1) == nSeen(i) + if ixOf(selF(in, i)) == nSeen(i) then 1 else 0
  requires forall i int, k int {selF(in, i), num(k)} :: 0 <= i ==> nOf(i+1, k) == nOf(i, k) + if ixOf(selF(in, i)) == k then 1 else 0
  requires forall i int {selF(in, i)} :: 0 <= i ==> measAt(ixOf(selF(in, i)), nOf(i, ixOf(selF(in, i)))) == selM(in, i)
  requires forall k int {num(k)} :: 0 <= k ==> ixOf(fieldAt(k)) == k
  ensures err == nil <==> parsed(in)
  // each field once, in order of first mention, with as many measures as it was selected with
  ensures err == nil ==> len(q.FieldMeasures) == nSeen(nSel(in))
  ensures err == nil ==> forall k int {num(k)} :: num(k) == k && 0 <= k && k < nSeen(nSel(in)) ==> seq(q.FieldMeasures[k].F) == fieldAt(k) && len(q.FieldMeasures[k].M) == nOf(nSel(in), k)
  ensures err == nil ==> forall k int, j int {measAt(k, j), num(k)} :: num(k) == k && 0 <= k && k < nSeen(nSel(in)) && 0 <= j && j < nOf(nSel(in), k) ==> seq(q.FieldMeasures[k].M[j]) == measAt(k, j)
  // the criteria, in order
  ensures err == nil ==> len(q.Criteria) == nWhere(in)
  ensures err == nil ==> forall i int {len(q.Criteria[i].F)} :: 0 <= i && i < nWhere(in) ==> seq(q.Criteria[i].F) == group(ref(whereRe), whereText(in), i, 1) && seq(q.Criteria[i].V) == group(ref(whereRe), whereText(in), i, 2)
  inv len((?q:Query).Criteria) == ?i
  inv cap((?q:Query).Criteria) == 0 || fresh((?q:Query).Criteria)
  inv cap((?q:Query).FieldMeasures) == 0 || fresh((?q:Query).FieldMeasures)
  inv base((?q:Query).Criteria) < nextref()
  inv forall i int {len((?q:Query).Criteria[i].F)} :: 0 <= i && i < ?i ==> base((?q:Query).Criteria[i].F) < nextref() && base((?q:Query).Criteria[i].V) < nextref() && seq((?q:Query).Criteria[i].F) == group(ref(whereRe), whereText(in), i, 1) && seq((?q:Query).Criteria[i].V) == group(ref(whereRe), whereText(in), i, 2)
  inv forall i int {num(i)} :: num(i) == i && 0 <= i && i < len((?q:Query).FieldMeasures) ==> base((?q:Query).FieldMeasures[i].M) < nextref() && len((?q:Query).FieldMeasures[i].M) <= cap((?q:Query).FieldMeasures[i].M) && (cap((?q:Query).FieldMeasures[i].M) == 0 || fresh((?q:Query).FieldMeasures[i].M))
  inv len((?q:Query).FieldMeasures) == nSeen(?i) && ?i <= nSel(in)
  inv forall f str {has((?m:map), f)} :: has((?m:map), f) <==> 0 <= ixOf(f) && ixOf(f) < nSeen(?i) && fieldAt(ixOf(f)) == f
  inv forall f str {(?m:map)[f]} :: has((?m:map), f) ==> (?m:map)[f] == ixOf(f)
  inv forall k int {num(k)} :: num(k) == k && 0 <= k && k < nSeen(?i) ==> base((?q:Query).FieldMeasures[k].F) < nextref() && seq((?q:Query).FieldMeasures[k].F) == fieldAt(k)
  inv forall k int {num(k)} :: num(k) == k && 0 <= k && k < nSeen(?i) ==> len((?q:Query).FieldMeasures[k].M) == nOf(?i, k)
  inv forall k int {num(k)} :: num(k) == k && k >= nSeen(?i) ==> nOf(?i, k) == 0
  inv forall k int, j int {measAt(k, j), num(k)} :: num(k) == k && 0 <= k && k < nSeen(?i) && 0 <= j && j < nOf(?i, k) ==> base((?q:Query).FieldMeasures[k].M[j]) < nextref() && seq((?q:Query).FieldMeasures[k].M[j]) == measAt(k, j)
  inv forall k int, l int {num(k), num(l)} :: num(k) == k && num(l) == l && 0 <= k && k < l && l < len((?q:Query).FieldMeasures) ==> base((?q:Query).FieldMeasures[k].M) != base((?q:Query).FieldMeasures[l].M) || cap((?q:Query).FieldMeasures[l].M) == 0
  inv forall k int {num(k)} :: num(k) == k && 0 <= k && k < len((?q:Query).FieldMeasures) ==> base((?q:Query).FieldMeasures[k].M) != base((?q:Query).FieldMeasures) && base((?q:Query).FieldMeasures[k].M) != base((?q:Query).Criteria) || cap((?q:Query).FieldMeasures[k].M) == 0
