// Running statistics (internal/summary/stat64): 32 bytes holding count, sum, mean and sum of squared differences
package internal/summary/stat64

def sCount(d) = le64(d, 0)
def sSum(d) = frombits(le64(d, 8))
def sMean(d) = frombits(le64(d, 16))
def sSS(d) = frombits(le64(d, 24))
// Welford's recurrence after n further observations a[o..o+n)
func foldSum(a [int]f64, o int, s f64, n int) f64 = if n <= 0 then s else foldSum(a, o, s, n-1) + a[o+n-1]
func foldMean(a [int]f64, o int, c u64, m f64, n int) f64 = if n <= 0 then m else foldMean(a, o, c, m, n-1) + (a[o+n-1] - foldMean(a, o, c, m, n-1)) / i2f(c + u64(n))
func foldSS(a [int]f64, o int, c u64, m f64, q f64, n int) f64 = if n <= 0 then q
  else foldSS(a, o, c, m, q, n-1) + (a[o+n-1] - foldMean(a, o, c, m, n-1)) * (a[o+n-1] - foldMean(a, o, c, m, n))

contract Reset(buf) (err)
  for C09
  requires len(buf) >= 32
  modifies elems(buf[0:32])
  ensures err == nil && sCount(seq(buf)) == u64(0) && le64(seq(buf), 8) == u64(0) && le64(seq(buf), 16) == u64(0) && le64(seq(buf), 24) == u64(0)
contract New() (s)
  for C09
  ensures len(s) == 32 && fresh(s) && sCount(seq(s)) == u64(0) && le64(seq(s), 8) == u64(0) && le64(seq(s), 16) == u64(0) && le64(seq(s), 24) == u64(0)
contract WithBytes(buf) (s)
  for C09
  ensures base(s) == base(buf) && off(s) == off(buf) && len(s) == len(buf)
contract Len() (n)
  for C09
  ensures n == 32
contract (Summary).Len(s) (n)
  for C09
  ensures n == 32
contract (Summary).Count(s) (n)
  for C09
  requires len(s) >= 32
  ensures n == sCount(seq(s))
contract (Summary).Sum(s) (v)
  for C09
  requires len(s) >= 32
  ensures v == sSum(seq(s))
contract (Summary).Mean(s) (v)
  for C09
  requires len(s) >= 32
  ensures v == sMean(seq(s))
contract (Summary).Variance(s) (v)
  for C09
  requires len(s) >= 32
  ensures sCount(seq(s)) < u64(2) ==> isnan(v)
  ensures sCount(seq(s)) >= u64(2) ==> v == sSS(seq(s)) / i2f(sCount(seq(s)) - u64(1))
contract (Summary).Update(s, v)
  for C09
  requires len(s) >= 32
  modifies elems(s[0:32])
  let d = seq(s)
  ensures sCount(seq(s)) == sCount(d) + u64(1)
  ensures sSum(seq(s)) == sSum(d) + v
  ensures sMean(seq(s)) == sMean(d) + (v - sMean(d)) / i2f(sCount(d) + u64(1))
  ensures sSS(seq(s)) == sSS(d) + (v - sMean(d)) * (v - sMean(seq(s)))
contract (Summary).UpdateMulti(s, vs)
  for C09
  requires len(s) >= 32
  modifies elems(s[0:32])
  let d = seq(s)
  let a = arr(vs)
  let o = off(vs)
  inv ?c:u64 == sCount(d) + u64(?i)
  inv ?f:f64 == foldSum(a, o, sSum(d), ?i)
  inv ?f:f64 == foldMean(a, o, sCount(d), sMean(d), ?i)
  inv ?f:f64 == foldSS(a, o, sCount(d), sMean(d), sSS(d), ?i)
  ensures sCount(seq(s)) == sCount(d) + u64(len(vs))
  ensures sSum(seq(s)) == foldSum(a, o, sSum(d), len(vs))
  ensures sMean(seq(s)) == foldMean(a, o, sCount(d), sMean(d), len(vs))
  ensures sSS(seq(s)) == foldSS(a, o, sCount(d), sMean(d), sSS(d), len(vs))
contract (Summary).Reset(s) (err)
  for C09
  requires len(s) >= 32
  modifies elems(s[0:32])
  ensures err == nil && sCount(seq(s)) == u64(0) && le64(seq(s), 8) == u64(0) && le64(seq(s), 16) == u64(0) && le64(seq(s), 24) == u64(0)

// Over real arithmetic the recurrence is the mean and the sum of squared differences of
// everything observed: rN observations with total rT and total of squares rQ.
func rSum(a [int]real, o int, n int) real = if n <= 0 then 0.0 else rSum(a, o, n-1) + a[o+n-1]
func rSq(a [int]real, o int, n int) real = if n <= 0 then 0.0 else rSq(a, o, n-1) + a[o+n-1] * a[o+n-1]
func rMean(a [int]real, o int, n int) real = if n <= 0 then 0.0 else rMean(a, o, n-1) + (a[o+n-1] - rMean(a, o, n-1)) / toreal(n)
func rSS(a [int]real, o int, n int) real = if n <= 0 then 0.0
  else rSS(a, o, n-1) + (a[o+n-1] - rMean(a, o, n-1)) * (a[o+n-1] - rMean(a, o, n))
lemma step_mean(m real, v real, k real)
  for C09
  mode real
  requires k > 0.0
  ensures (m + (v - m) / k) * k == m * (k - 1.0) + v
lemma step_ss(q real, m real, w real, v real, k real)
  for C09
  mode real
  requires w * k == m * (k - 1.0) + v
  ensures q + (v - m) * (v - w) + k * (w * w) == q + (k - 1.0) * (m * m) + v * v
lemma mean_is_arithmetic_mean(a [int]real, o int, n int)
  for C09
  mode real
  induct n
  use step_mean(rMean(a, o, n-1), a[o+n-1], toreal(n))
  requires n >= 0
  ensures rMean(a, o, n) * toreal(n) == rSum(a, o, n)
lemma ss_is_sum_of_squares(a [int]real, o int, n int)
  for C09
  mode real
  induct n
  use step_mean(rMean(a, o, n-1), a[o+n-1], toreal(n))
  use step_ss(rSS(a, o, n-1), rMean(a, o, n-1), rMean(a, o, n), a[o+n-1], toreal(n))
  requires n >= 0
  ensures rSS(a, o, n) + toreal(n) * (rMean(a, o, n) * rMean(a, o, n)) == rSq(a, o, n)
lemma variance_is_sample_variance(a [int]real, o int, n int)
  for C09
  mode real
  use mean_is_arithmetic_mean(a, o, n)
  use ss_is_sum_of_squares(a, o, n)
  requires n >= 2
  ensures rSS(a, o, n) / toreal(n - 1) == (rSq(a, o, n) - rSum(a, o, n) * rSum(a, o, n) / toreal(n)) / toreal(n - 1)
// the code performs this recurrence on the state reached after k observations h[0..k)
contract[real] (Summary).Update(s, v)
  for C09
  ghost h [int]real
  ghost k int
  requires len(s) >= 32
  requires k >= 0 && k < 9007199254740992 && sCount(seq(s)) == u64(k) && h[k] == v
  requires sSum(seq(s)) == rSum(h, 0, k) && sMean(seq(s)) == rMean(h, 0, k) && sSS(seq(s)) == rSS(h, 0, k)
  modifies elems(s[0:32])
  ensures sCount(seq(s)) == u64(k + 1)
  ensures sSum(seq(s)) == rSum(h, 0, k + 1)
  ensures sMean(seq(s)) == rMean(h, 0, k + 1)
  ensures sSS(seq(s)) == rSS(h, 0, k + 1)
