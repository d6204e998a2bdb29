// The server: lines of observations (internal/server)
package internal/server

// the end of the timestamp a line begins with
func lineTs(d str) int
def digit(b) = 48 <= b && b <= 57
// it is as many digits as the line begins with, at most 20
def timestamp(data, p) = 0 <= p && p <= 20 && p <= len(data) && (forall i int {data[i]} :: 0 <= i && i < p ==> digit(data[i])) && (p < 20 && p < len(data) ==> !digit(data[p]))
// how much of the line has been split, into how many pieces, and how long the name and value of each is
ghost splitAt int
ghost pieceNo int
ghost sep u8
ghost lineBase int
ghost lineOff int
ghost lineLen int
func nameLen(s int, i int) int
func valBase(s int, i int) int
func valOff(s int, i int) int
func valLen(s int, i int) int
func startAt(s int, i int) int

contract parseFV(data) (fv)
  for C21
  ensures base(fv.F) == base(data) && off(fv.F) == off(data) && 0 <= len(fv.F) && len(fv.F) <= len(data)
  ensures forall j int {data[j]} :: 0 <= j && j < len(fv.F) ==> data[j] != 61
  ensures len(fv.F) < len(data) ==> data[len(fv.F)] == 61 && base(fv.V) == base(data) && off(fv.V) == off(data) + len(fv.F) + 1 && len(fv.V) == len(data) - len(fv.F) - 1
  ensures len(fv.F) == len(data) ==> len(fv.V) == 0
contract[pieces] parseFV(data) (fv)
  trusted numbers the pieces; what each is split into is proved for parseFV
  // each piece begins where the one before ended, and goes on to the next delimiter or the end of the line
  requires base(data) == lineBase && off(data) == lineOff + splitAt && splitAt + len(data) <= lineLen
  requires forall j int {data[j]} :: 0 <= j && j < len(data) ==> data[j] != sep
  requires splitAt + len(data) < lineLen ==> arr(data)[off(data) + len(data)] == sep
  modifies splitAt, pieceNo
  ensures splitAt == old(splitAt) + len(data) + 1 && pieceNo == old(pieceNo) + 1
  ensures base(fv.F) == lineBase && off(fv.F) == lineOff + old(splitAt) && startAt(lineBase, old(pieceNo)) == off(fv.F) && len(fv.F) == nameLen(lineBase, old(pieceNo))
  ensures base(fv.V) == valBase(lineBase, old(pieceNo)) && off(fv.V) == valOff(lineBase, old(pieceNo)) && len(fv.V) == valLen(lineBase, old(pieceNo))

contract parseRow(data) (row, err)
  for C21
  view pieces
  let p = lineTs(seq(data))
  requires timestamp(data, lineTs(seq(data)))
  requires lineBase == base(data) && lineOff == off(data) && lineLen == len(data)
  requires lineTs(seq(data)) < len(data) ==> sep == data[lineTs(seq(data))]
  requires splitAt == lineTs(seq(data)) + 1 && pieceNo == 0
  requires uf("atoi!0", "int", seq(data[0:lineTs(seq(data))])) >= 0
  modifies splitAt, pieceNo
  let ts = uf("atoi!0", "int", seq(data[0:p]))
  // accepted exactly if there is a timestamp that fits
  ensures err == nil <==> p > 0 && uf("atoi!1", "ifc", seq(data[0:p])) == nil
  ensures err == nil ==> row.DataTime.wall == uf("ext!time.Unix!0.wall", "u64", ts / 1000000, ts % 1000000 * 1000)
  ensures err == nil ==> row.DataTime.ext == uf("ext!time.Unix!0.ext", "int", ts / 1000000, ts % 1000000 * 1000)
  // the fields are the pieces, all of them, in order
  ensures err == nil && p == len(data) ==> len(row.Data) == 0
  ensures err == nil && p < len(data) ==> splitAt == len(data) + 1 && len(row.Data) == pieceNo
  ensures err == nil && p < len(data) ==> forall i int {startAt(lineBase, i)} :: 0 <= i && i < pieceNo ==> base(row.Data[i].F) == lineBase && off(row.Data[i].F) == startAt(lineBase, i) && len(row.Data[i].F) == nameLen(lineBase, i)
  ensures err == nil && p < len(data) ==> forall i int {startAt(lineBase, i)} :: 0 <= i && i < pieceNo ==> base(row.Data[i].V) == valBase(lineBase, i) && off(row.Data[i].V) == valOff(lineBase, i) && len(row.Data[i].V) == valLen(lineBase, i)
  inv 0 <= ?i && ?i <= p
  inv cap((?r:Row).Data) == 0 || fresh((?r:Row).Data)
  inv ?p:own == splitAt && splitAt <= lineLen && len((?r:Row).Data) == pieceNo && p < splitAt && pieceNo >= 0
  inv forall i int {startAt(lineBase, i)} :: 0 <= i && i < pieceNo ==> base((?r:Row).Data[i].F) == lineBase && off((?r:Row).Data[i].F) == startAt(lineBase, i) && len((?r:Row).Data[i].F) == nameLen(lineBase, i)
  inv forall i int {startAt(lineBase, i)} :: 0 <= i && i < pieceNo ==> base((?r:Row).Data[i].V) == valBase(lineBase, i) && off((?r:Row).Data[i].V) == valOff(lineBase, i) && len((?r:Row).Data[i].V) == valLen(lineBase, i)
