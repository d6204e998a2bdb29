import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Hashes equal standard 64-bit FNV-1 and FNV-1a however the bytes are fed",
"For every byte sequence, every way of hashing it (one-shot over bytes or a string, or a running hash fed with byte slices, strings, single bytes and big-endian 64-bit integers in any split) yields exactly the standard 64-bit FNV-1 (or FNV-1a) value of the concatenated bytes. Feeding reports the number of bytes consumed and no error, reset returns to the initial state, and appending the digest adds its 8 bytes in big-endian order after the caller's bytes.",
["inputs","histories"],"every byte sequence, every split of it into writes, every integer",
"Tests compare a few fixed strings and integers; keys and sketches depend on every byte of every length.",
["internal/hash/fnv/fnv.go"],[("streaming and one-shot FNV loops","internal/hash/fnv/fnv.go: Fnv64.Write, WriteString, WriteByte, WriteUint64, Sum; Fnv64a.*; String64, String64a, Sum64, Sum64a")],
observe=["return values of the fnv package"])

p("C02","Bit buckets are independent saturating cells",
"In a bucket array of any count and any width from 1 to 8 bits, storing v in one bucket makes it read back as min(v, maximum) and incrementing by v makes it read back as min(old + v, maximum), and in both cases every other bucket keeps its value. Counting reports exactly how many buckets hold a value, reset makes every bucket zero, and no in-range operation panics or touches memory outside the array.",
["inputs","histories"],"every count, width 1..8, index, value and prior content",
"Tests set a few buckets in three fixed layouts; buckets straddle byte boundaries differently for every width and index.",
["internal/bitbucket/bitbucket.go"],[("bit extraction and masking","internal/bitbucket/bitbucket.go: get, set, incn, extract"),("capping","internal/bitbucket/bitbucket.go: Set, IncN"),("scan","internal/bitbucket/bitbucket.go: CountN, Reset")],
state=[("data","packed buckets, big-endian bit order","BitBucket.data")],observe=["BitBucket.Get/CountN results"])

p("C03","Bit bucket serialization round-trips and predicts its length",
"Writing a bucket array and reading the bytes back (from a stream, or in place over a buffer) gives an array with the same count, width and contents, the number of bytes produced and consumed is the reported length, and an in-place array reads and writes that buffer itself. A failing writer or a truncated, over-long or wrong-version stream is reported as an error together with the number of bytes transferred.",
["inputs","fault_sequences"],"every count, width and content; every point at which the writer or reader fails",
"Tests round-trip a few fixed arrays; short writes and reader failures at each offset are hardly sampled.",
["internal/bitbucket/bitbucket.go"],[("header and payload codec","internal/bitbucket/bitbucket.go: WriteTo, ReadFrom, WithBytes, Len")],
observe=["bytes written, counts and errors returned"])

p("C04","Malformed serialized sketches are refused, never crash or corrupt",
"Opening any byte buffer as a bucket array, bloom filter or cardinality counter either returns an error or returns an object on which every in-range operation is safe and stays inside the buffer; it never panics, whatever the bytes. Buffers that are too short, carry an unknown version, an unsupported width or a size that does not fit the buffer (or the counter's precision) are refused.",
["inputs"],"every byte buffer of every length",
"Tests try a few hand-made headers; a header has 2^80 values and sizes that overflow or disagree are never sampled.",
["internal/bitbucket/bitbucket.go","internal/summary/bloom/bloom.go","internal/summary/hll/hll.go"],[("header validation","bitbucket.WithBytes, bitbucket.ReadFrom, bloom.WithBytes, hll.WithBytes")],
observe=["errors returned, panics"])

p("C05","A bloom filter never forgets an added item",
"For any number of bits and hash functions and any sequence of additions, every item that was added is afterwards always reported as possibly present, additions never turn a positive answer into a negative one, and an empty or reset filter with at least one hash function reports every item absent. Adding an item sets exactly the bits its hash sequence selects and no probe leaves the filter's bit range.",
["inputs","histories"],"every m >= 1, k, item and addition history",
"Tests add some random items to a few configurations; one missing item in a rare (m,k,hash) combination is a false negative they never see.",
["internal/summary/bloom/bloom.go","internal/bitbucket/bitbucket.go","internal/hash/fnv/fnv.go"],[("double hashing","bloom.go: newHasher, hasher.next"),("bit set and test","bloom.go: Add, Has")],
observe=["Bloom.Has results"])

p("C06","Serialized bloom filters and counters behave exactly like the original",
"A bloom filter or cardinality counter that is written and then restored, from a stream or in place over a buffer, has the same parameters and the same bits, hence answers every query like the original. The bytes produced equal the reported length, which equals the length computed from the parameters alone, and stream errors are passed on with the number of bytes transferred.",
["inputs","fault_sequences"],"every parameter, content and failure point of the stream",
"Tests round-trip a few random filters and counters over buffers that never fail.",
["internal/summary/bloom/bloom.go","internal/summary/hll/hll.go","internal/bitbucket/bitbucket.go"],[("codec","bloom.go and hll.go: WriteTo, ReadFrom, WithBytes, Len")],
observe=["bytes written, restored object's answers"])

p("C07","Cardinality counters depend only on the set of items added",
"After any sequence of additions each register of a counter of precision 4 to 18 holds the largest rank (position of the first one bit after the index bits of the item's FNV-1 hash, at most 64-p+1) of the items routed to it by the first p hash bits, and zero if there was none. So the state and the estimate do not depend on the order or repetition of additions, an addition changes at most one register and never lowers it.",
["inputs","histories"],"every precision, every multiset of items and every order",
"Tests feed some random data sets to a few precisions and compare estimates within a wide tolerance, which hides small rank errors.",
["internal/summary/hll/hll.go","internal/bitbucket/bitbucket.go","internal/hash/fnv/fnv.go"],[("index and rank","hll.go: Add, initParams"),("6-bit registers","bitbucket.go")],
observe=["register contents, Counter.Count"])

p("C08","Cardinality estimates are a pure function of the registers",
"Asking for any of the estimates never changes the counter and depends on its registers and precision only; with no items the count is 0, and while empty registers remain and the linear-counting estimate m*ln(m/empty) is within the published threshold for the precision it is the rounded-up linear-counting estimate. Otherwise the count is ceil(alpha*m*m/z) for the documented alpha of m and z computed from all m registers.",
["inputs"],"every precision and register content",
"Tests compare estimates of random sets within a tolerance, at one precision in effect.",
["internal/summary/hll/hll.go"],[("estimators","hll.go: Count, LinearCount, HarmonicCount, PoissonCount, harmonic, poisson, sigma, tau")],
observe=["Counter.Count and friends"])

p("C09","Running statistics equal the exact recurrence over the whole history",
"For every sequence of observations a summary's count is the number of observations, its sum the left-to-right floating-point sum, and its mean and variance exactly what Welford's recurrence gives in IEEE arithmetic, with variance undefined (NaN) below two observations; adding a batch equals adding its items one by one. Over real arithmetic these are exactly the arithmetic mean and the n-1 sample variance of all observations, and no operation touches anything but the summary's 32 bytes.",
["inputs","histories"],"every sequence of float64 observations, any batching",
"Tests feed a few random series and compare with a tolerance.",
["internal/summary/stat64/stats.go"],[("Welford update","stats.go: Summary.Update, UpdateMulti"),("readers","stats.go: Count, Sum, Mean, Variance, Reset")],
state=[("summary buffer","count, sum, mean, sum of squared differences","32-byte little-endian buffer")],observe=["Summary readers"])

p("C10","Maximum and minimum are the extremes of all observed values",
"For every sequence of observations of a field within one collation record, the maximum (minimum) reported is an observed value that no observed number exceeds (is below), whichever rows carried the field and whether or not the first row of the record did. The state is 8 bytes and nothing outside them changes.",
["inputs","histories"],"every sequence of observed numbers, every pattern of rows with and without the field",
"No test exercises max or min at all; they would sample a few sequences that always start with the field present.",
["internal/collation/measure.go","internal/collation/schema.go"],[("Max and Min writers","measure.go: Max.ContWriter, Min.ContWriter"),("record initialisation","schema.go: Collator.Update")],
observe=["result of reading max(field), min(field)"])

p("C11","A record's unique count equals a cardinality counter fed the same values",
"The unique-count measure of a field in a collation record holds, after any sequence of rows, exactly the state of a stand-alone cardinality counter of the configured precision fed the field's values from those rows, and reports that counter's estimate; a record whose rows never carried the field reports 0 and no error. Updating it never writes outside the measure's part of the record.",
["inputs","histories"],"every precision 4..18, every sequence of values, every pattern of rows with and without the field",
"One test feeds twelve values at one precision to a record whose first row carries the field.",
["internal/collation/measure.go","internal/collation/schema.go","internal/summary/hll/hll.go"],[("Cardinality writer and reader","measure.go: Cardinality.DiscWriter, ContReader, Size")],
observe=["result of reading uniquecount(field)"])

p("C12","Compiling a schema gives every measure its own storage inside the record",
"For every schema the compiled collation gives each configured measure a byte range inside the record size, wide enough for that measure; ranges of different measures never overlap except that count, sum, mean and variance of one field entry share one summary which is written once per observation. Each measure is read from the range it is written to, and its keys are the schema's key fields in schema order.",
["programs","configurations"],"every schema: any number of keys, fields and measures in any order",
"Tests compile four tiny schemas with at most one field.",
["internal/collation/compile.go","internal/collation/measure.go"],[("layout","compile.go: Schema.Compile")],
state=[("writer and reader tables","per-field byte ranges and functions","Collator")],observe=["Collator.Size, effect of Update, result of Read"])

p("C13","A row updates exactly the measures its fields configure, once each",
"Applying a row to a record runs every record-level measure exactly once and, for each field of the row in order, every numeric measure of that field with the number the field's text denotes and every discrete measure with its raw bytes, each on its own byte range; nothing else in the record changes. A field with numeric measures whose text is not a number, or a failing measure, makes the update report an error.",
["inputs","configurations"],"every compiled collation, row and record content",
"Tests apply single-field rows to single-measure schemas.",
["internal/collation/schema.go"],[("dispatch","schema.go: Collator.Update, anyWriter.Update, contWriter.UpdateFloat64, discWriter.UpdateItem")],
observe=["record bytes after Update, error"])

p("C14","A query returns exactly the requested measures the collation has",
"Reading a record returns, in the order of the request, one value for each requested field and measure that the collation defines and nothing for those it does not, each computed from that measure's own bytes of the record; the record is not modified and a reader's error is passed on.",
["inputs","configurations"],"every compiled collation, request list and record content",
"No test reads through a collation; field and measure lookups with several fields, repeated or unknown names are not sampled.",
["internal/collation/schema.go"],[("lookup","schema.go: Collator.Read, contReader.ReadFloat64, discReader.ReadItem")],
observe=["Result of Collator.Read"])

p("C15","Grouping depends only on the collation's key fields",
"The record an observation or query addresses is determined by the values of the collation's key fields alone, taken in the collation's order: rows and queries that agree on those values address the same record whatever their other fields and field order, and a row or query lacking a key field addresses none. The address is the FNV-1 hash of the key names and values.",
["inputs"],"every key list, every row and query",
"Tests hash four small rows; permutations, prefixes, repeated and missing fields are not covered.",
["internal/collation/schema.go","internal/hash/fnv/fnv.go"],[("key derivation","schema.go: FVList.KeyValue, Row.KeyValue, Query.KeyValue")],
observe=["KeyValue results"])

p("C16","Stored observations are applied to and read from exactly one record",
"Writing a row applies the collation's update exactly once to the record addressed by the row's key values and to no other; a row lacking a key field or a cancelled request changes nothing. Reading a query returns the measures of the record addressed by the query's key values, computed from a full copy of that record, and an empty result when the query lacks a key field or the record does not exist.",
["inputs","histories"],"every collation, row, query and store content",
"The storage package has no tests.",
["internal/storage/storage.go"],[("routing","storage.go: Store.Write, Store.Read, Transaction.Do")],
observe=["backend calls and results of Store.Read"])

p("C17","The record map keeps each key's buffer separate and retrievable",
"In a map of at least one slot, after a successful update of a key its whole buffer is returned by every later read of that key until its next successful update, and no operation on one key changes the buffer of another; every in-range access stays inside its own slot and no call panics. An update is told the buffer is new exactly until the first update of that key has succeeded; key 0 is refused, a key never updated is not found, and a key for which no slot is found is refused without calling the update.",
["inputs","histories"],"every capacity, buffer size, key set (including colliding keys) and operation history",
"One test uses a single key in a map of 1000 slots; slot arithmetic and collisions depend on key, capacity and stride.",
["internal/bufmap/bufmap.go"],[("linear probing and slot slicing","bufmap.go: Map.Get, Map.Update, pos")],
state=[("keys","slot owner, write counter, lock","Map.keys"),("values","l*s bytes, s per slot","Map.values")],observe=["Get results, arguments of the update function"])

p("C18","Concurrent record reads are never torn and updates never lost",
"Under any interleaving of reads and updates from any number of goroutines, a read of a key returns bytes that were all present together after some completed update of that key, updates of one key run one at a time each seeing the previous one's result, and a key never comes to own two slots. Update functions run only while their slot is locked and marked as being written, and the lock and mark are released on every return.",
["schedules"],"every interleaving of any number of readers and writers on any keys",
"One stress test with five writers on one key and no concurrent reader; it samples a handful of schedules.",
["internal/bufmap/bufmap.go"],[("seqlock per slot","bufmap.go: slot.seq, slot.mu, Map.Get, Map.Update"),("slot claim by compare-and-swap","bufmap.go: Map.Update")],
observe=["Get results under concurrency"])

p("C19","The counter map loses no increment and mixes up no keys",
"Under any interleaving, the value reported for a key is the sum modulo 2^64 of the amounts of the successful increments of that key before it and of no other key's; increments report failure, and change nothing, exactly for key 0 and when no slot is found within the probe limit. A key never incremented is reported as not found.",
["inputs","histories","schedules"],"every capacity, key set (including colliding keys), amounts and interleaving",
"Tests use up to 49 non-colliding keys and one contended key.",
["internal/incmap/incmap.go"],[("linear probing with compare-and-swap and atomic add","incmap.go: Map.Inc, Map.Get, pos")],
observe=["Inc and Get results"])

p("C20","The sequence lock yields only whole values and aborts failed updates",
"Under any interleaving, a read returns exactly a value stored by one completed put or update (or the initial value); updates run one at a time each seeing the latest value, and an update whose function fails leaves the value unchanged and passes the error on. Lock and write mark are released on every return.",
["schedules","inputs"],"every interleaving of any number of readers and writers, every value",
"One put/get test and one stress test with writers only.",
["internal/seqlock/seqlock.go"],[("seqlock protocol","seqlock.go: Seqlock.Get, Put, Update")],
observe=["Get results"])

p("C21","Every observation line is split into exactly its timestamp and fields",
"For every line, parsing succeeds exactly if it begins with a decimal timestamp of at most 20 digits that fits 64 bits; the fields are then the pieces of the rest of the line separated by the byte after the timestamp, in order, each split at its first '=' into name and value (whole piece and empty value when there is none), so that no byte is lost or invented. The row's data time is the timestamp in microseconds, and no line makes the parser panic.",
["inputs"],"every byte string",
"The server package has no tests.",
["internal/server/server.go"],[("line parser","server.go: parseRow, parseFV")],
observe=["rows written to the stores"])

p("C22","Posted observations reach every store once, in order, or are reported",
"For every request the observation endpoint hands each line's row, in line order, once to every store in order, stopping at the first line that does not parse or that a store rejects and then answering with an error status; a request it accepts has had all its lines stored. Unsupported methods, media types and missing form data are answered with the matching 4xx status and store nothing.",
["inputs","fault_sequences"],"every request, body and store failure point",
"The server package has no tests.",
["internal/server/server.go"],[("ingest loop","server.go: recvObservation, contentType, registerHandlers")],
observe=["store writes and HTTP status"])

p("C23","Parsed queries list fields, measures and criteria in query order",
"A query's text alone determines the parsed query: fields appear once each in order of first mention, each with its measures in order of mention, criteria in order of mention, and nothing is added or dropped from what the select and where clauses match. Text that is not of the form 'select ... where ...' is refused.",
["inputs"],"every query text, on every evaluation",
"The tests compare a few queries but accept or fail at random, because the order of several fields changes from run to run.",
["internal/query/rough.go"],[("parser","rough.go: RoughParse")],observe=["Query returned"])

p("C24","A collation query is answered from the named collation only",
"A well-formed query for a collation is answered from the first store whose collation has exactly the requested name, listing the criteria and then each value found in result order; an unknown name is answered 404, malformed query text 400, a failing read 500, and in none of these cases is any store modified or another collation read.",
["inputs","configurations"],"every set of stores, name and query",
"The server package has no tests.",
["internal/server/server.go"],[("query handler","server.go: queryCollation, registerHandlers")],observe=["HTTP response, backend calls"])

p("C25","A rejected observation leaves no trace in the record",
"If applying a row to a record fails at any point (a value that is not a number, a failing measure), the record read afterwards is byte for byte what it was before, and a key whose only updates failed is still reported as not found and is initialised by the first update that succeeds.",
["inputs","fault_sequences","histories"],"every row, record content and failure point",
"No test makes an update fail.",
["internal/bufmap/bufmap.go","internal/storage/storage.go","internal/collation/schema.go"],[("transactional update","bufmap.go: Map.Update"),("row update","schema.go: Collator.Update")],observe=["record contents after a failed write"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
