--------------------------------- MODULE Xia ---------------------------------
(* XIA data sets: maps of spectra written as one file per map, line and
   detector, with the statistics of a line in one file and one file per map and
   counter; and the array such a data set stands for, corrected as configured.

   A data set d: shape <<maps, rows, columns, channels>>; labels of the
   detectors, det[k] = the position of detector k in the statistics (0: none);
   data, stats (6 per spectrum and statistics detector), ctrs: in C order, the
   last dimension being the detector/detector/counter; cdet: the detector every
   counter belongs to ("": none).  A configuration c: skip, keep (labels), dt,
   sum (booleans), norm [k, n, f, l] (f: factor, l: factor per map, 0 = f),
   short (only two statistics).
   v: what is looked at: [k |-> "stack", maps], [k |-> "image", m, rows] or
   [k |-> "line", m, r]; maps, rows: those asked for, <<>> = as found. *)
EXTENDS NdIndex, TLC
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, m) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(n, m) IN <<n \div g, m \div g>>
Mul(x, y) == Fr(x[1] * y[1], x[2] * y[2])
Div(x, y) == Fr(x[1] * y[2], x[2] * y[1])
Add(x, y) == Fr(x[1] * y[2] + y[1] * x[2], x[2] * y[2])

NStat == 6
ICR == 3
OCR == 4
Selected(c, label) == label \notin ToSet(c.skip) /\ (c.keep = <<>> \/ label \in ToSet(c.keep))
Used(d, c) == SelectSeq([k \in DOMAIN d.labels |-> k], LAMBDA k : Selected(c, d.labels[k]))
UsedCtrs(d, c) == SelectSeq([k \in DOMAIN d.cdet |-> k], LAMBDA k : d.cdet[k] = "" \/ Selected(c, d.cdet[k]))
(* ---- values at <<map, row, column>> (0-based), channel, detector number ---- *)
NDet(d) == Len(d.labels)
Raw(d, p, ch, k) == d.data[Ravel(p \o <<ch, k - 1>>, d.shape \o <<NDet(d)>>) + 1]
Stat(d, p, s, k) == IF d.det[k] = 0 THEN 0
  ELSE d.stats[Ravel(p \o <<s - 1, d.det[k] - 1>>, SubSeq(d.shape, 1, 3) \o <<NStat, d.nstatdet>>) + 1]
Ctr(d, p, n) == d.ctrs[Ravel(p \o <<n - 1>>, SubSeq(d.shape, 1, 3) \o <<Len(d.cdet)>>) + 1]
(* incoming over outgoing count rate; no correction when that is unreliable *)
DeadTime(d, p, k) ==
  LET i == Stat(d, p, ICR, k)
      o == Stat(d, p, OCR, k)
  IN IF o = 0 \/ i < 1000 \/ i < o THEN <<1, 1>> ELSE Fr(i, o)
(* by a counter, by a number, or not (also when there is no such counter);
   scaled by c.norm.f; zero does not count *)
NormOf(d, c, p) ==
  LET m == CASE c.norm.k = "none" -> 1
             [] c.norm.k = "num" -> c.norm.n
             [] c.norm.k = "missing" -> 1
             [] c.norm.k = "ctr" -> Ctr(d, p, c.norm.n)
      x == IF c.norm.k = "none" THEN 1 ELSE m * (IF c.norm.l[p[1] + 1] # 0 THEN c.norm.l[p[1] + 1] ELSE c.norm.f)
  IN IF x = 0 THEN <<1, 1>> ELSE <<x, 1>>
Corrected(d, c, p, ch, k) == IF c.dt THEN Mul(<<Raw(d, p, ch, k), 1>>, DeadTime(d, p, k)) ELSE <<Raw(d, p, ch, k), 1>>
(* ---- the view: its leading dimensions, and where they are in the data set.
   Maps or lines of which a file is missing do not count ---- *)
Gone(d, m) == \E g \in ToSet(d.gone) : g[1] = m
Maps(d, v) == SelectSeq(IF v.maps # <<>> THEN v.maps ELSE [k \in 1..d.shape[1] |-> k - 1], LAMBDA m : ~Gone(d, m))
Rows(d, v) == IF v.rows # <<>> THEN v.rows
  ELSE SelectSeq([k \in 1..d.shape[2] |-> k - 1], LAMBDA r : <<v.m, r>> \notin ToSet(d.gone))
Lead(d, v) == CASE v.k = "stack" -> <<Len(Maps(d, v)), d.shape[2], d.shape[3]>>
                [] v.k = "image" -> <<Len(Rows(d, v)), d.shape[3]>>
                [] v.k = "line" -> <<d.shape[3]>>
Point(d, v, mi) == CASE v.k = "stack" -> <<Maps(d, v)[mi[1] + 1], mi[2], mi[3]>>
                     [] v.k = "image" -> <<v.m, Rows(d, v)[mi[1] + 1], mi[2]>>
                     [] v.k = "line" -> <<v.m, v.r, mi[1]>>
(* ---- reading ---- *)
Replaced(ex, k) == [ex EXCEPT ![k] = Full]
Read(sh, ix, F(_)) == IF ~Valid(ix, sh) THEN [err |-> "IndexError"]
  ELSE LET g == Get(ix, sh, FALSE) IN [sh |-> g.sh, v |-> [q \in DOMAIN g.at |-> F(Unravel(g.at[q] - 1, sh))]]
Data(d, c, v, ix) ==
  LET u == Used(d, c)
      lead == Lead(d, v)
      n == Len(lead)
      ex == Expand(ix, n + 2)
      p(mi) == Point(d, v, SubSeq(mi, 1, n))
      one(mi) == Div(Corrected(d, c, p(mi), mi[n + 1], u[mi[n + 2] + 1]), NormOf(d, c, p(mi)))
      sel == SliceList(ex[n + 2], Len(u))
      all(mi) == Div(FoldLeft(LAMBDA a, k : Add(a, Corrected(d, c, p(mi), mi[n + 1], u[k + 1])), <<0, 1>>, sel), NormOf(d, c, p(mi)))
  IN IF c.sum THEN Read(lead \o <<d.shape[4], 1>>, Replaced(ex, n + 2), all)
     ELSE Read(lead \o <<d.shape[4], Len(u)>>, ex, one)
Stats(d, c, v, ix) ==
  LET u == Used(d, c)
      lead == Lead(d, v)
      n == Len(lead)
      p(mi) == Point(d, v, SubSeq(mi, 1, n))
      one(mi) == <<Stat(d, p(mi), IF c.short THEN <<ICR, OCR>>[mi[n + 1] + 1] ELSE mi[n + 1] + 1, u[mi[n + 2] + 1]), 1>>
  IN Read(lead \o <<IF c.short THEN 2 ELSE NStat, Len(u)>>, Replaced(Expand(ix, n + 2), n + 1), one)
Counters(d, c, v, ix) ==
  LET u == UsedCtrs(d, c)
      lead == Lead(d, v)
      n == Len(lead)
      one(mi) == <<Ctr(d, Point(d, v, SubSeq(mi, 1, n)), u[mi[n + 1] + 1]), 1>>
  IN Read(lead \o <<Len(u), 1>>, Replaced(Replaced(Expand(ix, n + 2), n + 1), n + 2), one)
Want(d, c, v, ix, what) ==
  CASE what = "data" -> Data(d, c, v, ix)
    [] what = "stats" -> Stats(d, c, v, ix)
    [] what = "counters" -> Counters(d, c, v, ix)
(* ---- names: files are tuples <<radix, map, line (-1: counter), label>> of
   ranks; grouping lists them in order ---- *)
Less(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1)
InOrder(s) == \A k \in 1..Len(s) - 1 : Less(s[k], s[k + 1])
==============================================================================
