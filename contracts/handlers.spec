// Requests: what the endpoints do with the stores and answer (internal/server)
package internal/server

// a request's history of events, continuing that of storage.spec
func evReply(h int, w ifc, code int) int
ghost lastCode int
func evQuery(h int, b ifc, cc int, cd int, nkeys int, size int, fm int, fmoff int, fmlen int, cr int, croff int, crlen int) int

package net/http
contract (*Request).FormValue(r, key) (v)
  trusted a request's form values are determined by the request and do not change while it is served
  ensures v == uf("form", "str", ref(r), key)
contract Error(w, text, code)
  trusted answers with this status
  modifies hist, out(w), lastCode
  ensures hist == evReply(old(hist), w, code) && lastCode == code
contract NotFound(w, r)
  trusted answers with status 404
  modifies hist, out(w), lastCode
  ensures hist == evReply(old(hist), w, 404) && lastCode == 404

package internal/query
// the query a text stands for is that of C23
func nCrit(text str) int
func critF(text str, i int) str
func critV(text str, i int) str
func qErr(text str) ifc
func qFields(text str) int
func nFields(text str) int
func qCrits(text str) int
contract[events] RoughParse(in) (q, err)
  trusted a query is determined by its text, which is checked (bounded) for C23
  ensures err == qErr(in)
  ensures len(q.Criteria) == nCrit(in) && off(q.Criteria) == 0
  ensures forall i int {len(q.Criteria[i].F)} :: 0 <= i && i < nCrit(in) ==> len(q.Criteria[i].F) == len(critF(in, i)) && len(q.Criteria[i].V) == len(critV(in, i)) && base(q.Criteria[i].F) < nextref() && base(q.Criteria[i].V) < nextref()
  ensures forall i int, j int {critF(in, i)[j]} :: 0 <= i && i < nCrit(in) && 0 <= j && j < len(critF(in, i)) ==> q.Criteria[i].F[j] == critF(in, i)[j]
  ensures forall i int, j int {critV(in, i)[j]} :: 0 <= i && i < nCrit(in) && 0 <= j && j < len(critV(in, i)) ==> q.Criteria[i].V[j] == critV(in, i)[j]
  ensures base(q.FieldMeasures) == qFields(in) && off(q.FieldMeasures) == 0 && len(q.FieldMeasures) == nFields(in) && base(q.Criteria) == qCrits(in)

package internal/collation
func resN(h int) int
func resF(h int, i int) str
func resM(h int, i int) str
func resV(h int, i int) ifc
func fmvText(m str, f str, v ifc) str
contract[events] (FMV).String(f) (s)
  trusted how a value is written out is left to the fmt package
  ensures s == fmvText(seq(f.M), seq(f.F), f.V)

package internal/storage
contract[queries] (*Store).Read(s, ctx, q) (res, err)
  trusted a read is recorded as one event; what it does is proved for C16
  modifies hist
  ensures hist == evQuery(old(hist), s.Backend, ref(s.Collator.contReaders), ref(s.Collator.discReaders), len(s.Collator.keys), s.Collator.size, base(q.FieldMeasures), off(q.FieldMeasures), len(q.FieldMeasures), base(q.Criteria), off(q.Criteria), len(q.Criteria))
  ensures err == histErr(hist) && len(res.FieldMeasureValues) == resN(hist)
  ensures forall i int {len(res.FieldMeasureValues[i].F)} :: 0 <= i && i < resN(hist) ==> seq(res.FieldMeasureValues[i].F) == resF(hist, i) && seq(res.FieldMeasureValues[i].M) == resM(hist, i) && res.FieldMeasureValues[i].V == resV(hist, i)

package internal/server
ifc http.ResponseWriter.Write(w, p) (n, err)
  modifies out(w)
  ensures outlen(w) == old(outlen(w)) + len(p)
  ensures forall i int {outat(w, i)} :: 0 <= i && i < old(outlen(w)) ==> outat(w, i) == old(outat(w, i))
  ensures forall i int {outat(w, i)} :: old(outlen(w)) <= i && i < outlen(w) ==> outat(w, i) == p[i - old(outlen(w))]
// the first store of that name, if there is one
func named(name str) int
// the answer, byte by byte: where each criterion and each value begins in it
func ansByte(i int) u8
func critAt(i int) int
func valAt(i int) int

def asks(req) = uf("form", "str", ref(req), "q")
def reads(st, text) = evQuery(hist, st.Backend, ref(st.Collator.contReaders), ref(st.Collator.discReaders), len(st.Collator.keys), st.Collator.size, qFields(text), 0, nFields(text), qCrits(text), 0, nCrit(text))
def valText(h, i) = fmvText(resM(h, i), resF(h, i), resV(h, i))
// name=value lines, then the values found, each on a line
def critLines(text) = (forall i int {critF(text, i)} :: 0 <= i ==> critAt(i+1) == critAt(i) + len(critF(text, i)) + len(critV(text, i)) + 2) && (forall i int, x int {critF(text, i), ansByte(x)} :: 0 <= i && critAt(i) <= x && x < critAt(i) + len(critF(text, i)) ==> ansByte(x) == critF(text, i)[x - critAt(i)]) && (forall i int {critF(text, i)} :: 0 <= i ==> ansByte(critAt(i) + len(critF(text, i))) == 61 && ansByte(critAt(i+1) - 1) == 10) && (forall i int, x int {critV(text, i), ansByte(x)} :: 0 <= i && critAt(i) + len(critF(text, i)) < x && x < critAt(i+1) - 1 ==> ansByte(x) == critV(text, i)[x - critAt(i) - len(critF(text, i)) - 1])
def valLines(h) = (forall i int {resV(h, i)} :: 0 <= i ==> valAt(i+1) == valAt(i) + len(valText(h, i)) + 1) && (forall i int, x int {resV(h, i), ansByte(x)} :: 0 <= i && valAt(i) <= x && x < valAt(i+1) - 1 ==> ansByte(x) == valText(h, i)[x - valAt(i)]) && (forall i int {resV(h, i)} :: 0 <= i ==> ansByte(valAt(i+1) - 1) == 10)

contract (*Server).queryCollation(s, ctx, cname, w, req)
  for C24
  view events queries
  requires s != nil && w != nil && req != nil && ctx != nil
  requires 0 <= named(cname) && named(cname) <= len(s.Stores)
  requires forall i int {s.Stores[i].Collator.name} :: 0 <= i && i < named(cname) ==> s.Stores[i].Collator.name != cname
  requires named(cname) < len(s.Stores) ==> s.Stores[named(cname)].Collator.name == cname
  requires 0 <= outlen(w) && critAt(0) == outlen(w)
  requires critLines(asks(req))
  requires valAt(0) == critAt(nCrit(asks(req)))
  requires valLines(reads(s.Stores[named(cname)], asks(req)))
  modifies hist, out(w), lastCode
  let text = asks(req)
  let read = reads(s.Stores[named(cname)], asks(req))
  // no query, no collation, or no success in reading it: no other event than the answer
  ensures qErr(text) != nil ==> hist == evReply(old(hist), w, 400)
  ensures qErr(text) == nil && named(cname) == len(s.Stores) ==> hist == evReply(old(hist), w, 404)
  ensures qErr(text) == nil && named(cname) < len(s.Stores) && histErr(read) != nil ==> hist == evReply(read, w, 500)
  // otherwise one read of the named collation, and its values
  ensures qErr(text) == nil && named(cname) < len(s.Stores) && histErr(read) == nil ==> hist == read && outlen(w) == valAt(resN(read))
  ensures qErr(text) == nil && named(cname) < len(s.Stores) && histErr(read) == nil ==> forall x int {outat(w, x)} :: old(outlen(w)) <= x && x < outlen(w) ==> outat(w, x) == ansByte(x)
  inv ?i <= named(cname)
  inv outlen(w) == critAt(?i)
  inv outlen(w) == valAt(?i)
  inv old(outlen(w)) <= outlen(w)
  inv forall x int {outat(w, x)} :: old(outlen(w)) <= x && x < outlen(w) ==> outat(w, x) == ansByte(x)

// ---- observations ----
func lineErr(text str) ifc
func rowAt(text str) int
func rowLen(text str) int
func rowWall(text str) u64
func rowExt(text str) int
// the stores, as the handler is given them
func nStores(s int) int
func storeB(s int, i int) ifc
func storeCI(s int, i int) int
func storeCW(s int, i int) int
func storeCC(s int, i int) int
func storeCD(s int, i int) int
func storeK(s int, i int) int
// where a request is: 0 between lines, 1 a line was found, 2 it was parsed and is being stored,
// 3 there are no more lines, 4 it did not parse, 5 a store refused it, 6 an error was answered
ghost stage int
ghost stageWas int
ghost lines int
ghost stored int
ghost theLine str
ghost scanErr ifc
ghost source ifc
ghost fed str
ghost server int
def allStored() = stage == 0 || stage == 2 && stored == nStores(server)

package bufio
contract NewScanner(r) (s)
  trusted a scanner reads from the reader it is given
  modifies source
  ensures s != nil && source == r
contract (*Scanner).Scan(s) (ok)
  trusted a scan finds the next line or ends, possibly with an error
  // lines are read one at a time, when all before have reached every store
  requires allStored()
  modifies stage, lines, stored, theLine, scanErr
  ensures ok ==> stage == 1 && lines == old(lines) + 1 && stored == 0
  ensures !ok ==> stage == 3 && lines == old(lines)
contract (*Scanner).Bytes(s) (b)
  trusted the line found by the last scan
  ensures stage == 1 ==> seq(b) == theLine
contract (*Scanner).Err(s) (err)
  trusted the error of the last scan
  ensures err == scanErr

package strings
contract NewReader(s) (r)
  trusted a reader of this text
  modifies fed
  ensures r != nil && fed == s

package net/http
contract (Header).Get(h, key) (v)
  trusted a request's header does not change while it is served
  ensures v == uf("header", "str", ref(h), key)
contract[obs] Error(w, text, code)
  trusted answers with this status
  requires stage != 6
  modifies stage, stageWas, out(w), lastCode
  ensures stage == 6 && stageWas == old(stage) && lastCode == code

package internal/server
ifc io.ReadCloser.Close(r) (err)
  ensures true
contract[obs] parseRow(data) (row, err)
  trusted a row is determined by its line, which is proved for C21
  requires stage == 1 && seq(data) == theLine
  modifies stage
  ensures err == lineErr(theLine) && (stage == if err == nil then 2 else 4)
  ensures err == nil ==> base(row.Data) == rowAt(theLine) && off(row.Data) == 0 && len(row.Data) == rowLen(theLine) && row.DataTime.wall == rowWall(theLine) && row.DataTime.ext == rowExt(theLine)

package internal/storage
contract[obs] (*Store).Write(s, ctx, r) (err)
  trusted what handing a row to a store does is proved for C16
  // the rows of a line are handed to the stores in turn, each once
  requires stage == 2 && 0 <= stored && stored < nStores(server)
  requires s.Backend == storeB(server, stored) && base(s.Collator.inits) == storeCI(server, stored) && base(s.Collator.writers) == storeCW(server, stored) && ref(s.Collator.contWriters) == storeCC(server, stored) && ref(s.Collator.discWriters) == storeCD(server, stored) && len(s.Collator.keys) == storeK(server, stored)
  requires base(r.Data) == rowAt(theLine) && off(r.Data) == 0 && len(r.Data) == rowLen(theLine) && r.DataTime.wall == rowWall(theLine) && r.DataTime.ext == rowExt(theLine)
  modifies stage, stored
  ensures stored == old(stored) + 1 && (stage == if err == nil then 2 else 5)

package internal/server
def mime(req) = uf("header", "str", ref(req.Header), "Content-Type")
def isStore(s, i) = s.Stores[i].Backend == storeB(ref(s), i) && base(s.Stores[i].Collator.inits) == storeCI(ref(s), i) && base(s.Stores[i].Collator.writers) == storeCW(ref(s), i) && ref(s.Stores[i].Collator.contWriters) == storeCC(ref(s), i) && ref(s.Stores[i].Collator.discWriters) == storeCD(ref(s), i) && len(s.Stores[i].Collator.keys) == storeK(ref(s), i)

contract (*Server).recvObservation(s, ctx, w, req)
  for C22
  view obs
  requires s != nil && w != nil && req != nil && ctx != nil && req.Body != nil
  requires stage == 0 && lines == 0 && server == ref(s) && nStores(ref(s)) == len(s.Stores) && !seenDone
  requires forall i int {s.Stores[i].Backend} :: 0 <= i && i < len(s.Stores) ==> isStore(s, i)
  modifies stage, stageWas, lines, stored, theLine, scanErr, out(w), source, fed, lastCode, seenDone
  let h = mime(req)
  let bad = h != "" && uf("ext!mime.ParseMediaType!2", "ifc", h) != nil
  let kind = uf("ext!mime.ParseMediaType!0", "str", h)
  let isForm = h != "" && kind == "application/x-www-form-urlencoded"
  let isText = h == "" || kind == "text/plain" || kind == "application/octet-stream"
  let noData = uf("form", "str", ref(req), "data") == ""
  // a request that cannot be read is refused and nothing stored
  ensures bad ==> stage == 6 && stageWas == 0 && lines == 0 && lastCode == 400
  ensures !bad && !isForm && !isText ==> stage == 6 && stageWas == 0 && lines == 0 && lastCode == 415
  ensures !bad && isForm && noData ==> stage == 6 && stageWas == 0 && lines == 0 && lastCode == 400
  // otherwise its lines are read, from the form or the body
  ensures !bad && isText ==> source == req.Body
  ensures !bad && isForm && !noData ==> fed == uf("form", "str", ref(req), "data")
  // accepted exactly if all its lines were read and stored
  ensures stage == 3 && scanErr == nil || stage == 6 && (lines == 0 && stageWas == 0 || lastCode >= 500 && (stageWas == 4 || stageWas == 5 || stageWas == 3 && scanErr != nil || stageWas == 1 && seenDone))
  ensures !bad && (isText || isForm && !noData) ==> stage == 3 || stageWas != 0
  inv allStored()
  inv stage == 2 && stored == ?i && ?i <= len(s.Stores) && server == ref(s)
  inv lineErr(theLine) == nil

// ---- routing ----
package net/http
contract (*Request).Context(r) (c)
  trusted every request has a context
  ensures c != nil

package internal/server
contract (*Server).registerHandlers$recvObservation(w, req, s)
  for C22
  view obs
  requires s != nil && *s != nil && w != nil && req != nil && req.Body != nil
  requires stage == 0 && lines == 0 && server == ref(*s) && nStores(ref(*s)) == len((*s).Stores) && !seenDone
  requires forall i int {(*s).Stores[i].Backend} :: 0 <= i && i < len((*s).Stores) ==> isStore(*s, i)
  modifies stage, stageWas, lines, stored, theLine, scanErr, out(w), source, fed, lastCode, seenDone
  // only a POST stores anything
  ensures req.Method != "POST" ==> stage == 6 && stageWas == 0 && lines == 0 && lastCode == 405
  ensures req.Method == "POST" ==> stage == 3 && scanErr == nil || stage == 6 && (lines == 0 && stageWas == 0 || lastCode >= 500)

contract (*Server).registerHandlers$queryCollation(w, req, s)
  for C24
  view events
  requires s != nil && *s != nil && w != nil && req != nil && req.URL != nil
  requires 0 <= named(req.URL.Path) && named(req.URL.Path) <= len((*s).Stores)
  requires forall i int {(*s).Stores[i].Collator.name} :: 0 <= i && i < named(req.URL.Path) ==> (*s).Stores[i].Collator.name != req.URL.Path
  requires named(req.URL.Path) < len((*s).Stores) ==> (*s).Stores[named(req.URL.Path)].Collator.name == req.URL.Path
  requires 0 <= outlen(w) && critAt(0) == outlen(w)
  requires critLines(asks(req))
  requires valAt(0) == critAt(nCrit(asks(req)))
  requires valLines(reads((*s).Stores[named(req.URL.Path)], asks(req)))
  modifies hist, out(w), lastCode
  let name = req.URL.Path
  let text = asks(req)
  let read = reads((*s).Stores[named(name)], text)
  let routed = name != "" && !uf("ext!strings.ContainsRune!0", "bool", name, 47) && (req.Method == "POST" || req.Method == "GET")
  ensures !routed ==> hist == evReply(old(hist), w, lastCode) && (lastCode == 404 || lastCode == 405)
  ensures routed && qErr(text) != nil ==> hist == evReply(old(hist), w, 400)
  ensures routed && qErr(text) == nil && named(name) == len((*s).Stores) ==> hist == evReply(old(hist), w, 404)
  ensures routed && qErr(text) == nil && named(name) < len((*s).Stores) && histErr(read) != nil ==> hist == evReply(read, w, 500)
  ensures routed && qErr(text) == nil && named(name) < len((*s).Stores) && histErr(read) == nil ==> hist == read && outlen(w) == valAt(resN(read))
  ensures routed && qErr(text) == nil && named(name) < len((*s).Stores) && histErr(read) == nil ==> forall x int {outat(w, x)} :: old(outlen(w)) <= x && x < outlen(w) ==> outat(w, x) == ansByte(x)
