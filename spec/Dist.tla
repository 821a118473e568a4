-------------------------------- MODULE Dist ----------------------------------
(***************************************************************************)
(* Distances between two rows u and v of whole numbers, with weights w     *)
(* (all one when a metric is used without weights), as SciPy defines them. *)
(* A distance is given as a ratio num/den of whole numbers, after a        *)
(* transformation that makes it one:                                       *)
(*   euclidean, minkowski    the p-th power of the distance                *)
(*   cosine, correlation     the signed square of one minus the distance   *)
(*   jensenshannon           the square of the distance, scaled by LnScale *)
(*                           (logarithms of whole numbers from a table)    *)
(*   every other metric      the distance itself                           *)
(* den = 0 where the metric is undefined.                                  *)
(***************************************************************************)
EXTENDS NdArray

Ratio(n, d) == [num |-> n, den |-> d]
\* the sum over the columns of F(column)
Over(u, F(_)) == FoldLeft(LAMBDA a, i : a + F(i), 0, [i \in 1 .. Len(u) |-> i])
MaxOver(u, F(_)) == FoldLeft(LAMBDA a, i : Max2(a, F(i)), 0, [i \in 1 .. Len(u) |-> i])
Power(x, p) == FoldLeft(LAMBDA a, i : a * x, 1, [i \in 1 .. p |-> i])
SqSigned(x) == IF x >= 0 THEN x * x ELSE -(x * x)
\* common multiple of the denominators 1..8 that Canberra meets
CanUnit == 840

Powers(u, v, w, p) == Ratio(Over(u, LAMBDA i : w[i] * Power(Abs(u[i] - v[i]), p)), 1)
Chebyshev(u, v, w) == Ratio(MaxOver(u, LAMBDA i : IF w[i] = 0 THEN 0 ELSE Abs(u[i] - v[i])), 1)
Canberra(u, v, w) ==
    Ratio(Over(u, LAMBDA i : LET d == Abs(u[i]) + Abs(v[i])
                             IN  IF d = 0 THEN 0 ELSE w[i] * Abs(u[i] - v[i]) * (CanUnit \div d)), CanUnit)
BrayCurtis(u, v, w) ==
    Ratio(Over(u, LAMBDA i : w[i] * Abs(u[i] - v[i])), Over(u, LAMBDA i : w[i] * Abs(u[i] + v[i])))
Hamming(u, v, w) == Ratio(Over(u, LAMBDA i : IF u[i] # v[i] THEN w[i] ELSE 0), SumSeq(w))

\* rows of truth values, 0 and 1
NTT(u, v, w) == Over(u, LAMBDA i : IF u[i] = 1 /\ v[i] = 1 THEN w[i] ELSE 0)
NFF(u, v, w) == Over(u, LAMBDA i : IF u[i] = 0 /\ v[i] = 0 THEN w[i] ELSE 0)
NTF(u, v, w) == Over(u, LAMBDA i : IF u[i] = 1 /\ v[i] = 0 THEN w[i] ELSE 0)
NFT(u, v, w) == Over(u, LAMBDA i : IF u[i] = 0 /\ v[i] = 1 THEN w[i] ELSE 0)
Truth(met, u, v, w) ==
    LET tt == NTT(u, v, w)
        ff == NFF(u, v, w)
        tf == NTF(u, v, w)
        ft == NFT(u, v, w)
        ne == tf + ft
    IN  CASE met = "jaccard" -> Ratio(ne, tt + ne)
          [] met = "dice" -> Ratio(ne, 2 * tt + ne)
          [] met = "yule" -> IF tf * ft = 0 THEN Ratio(0, 1) ELSE Ratio(2 * tf * ft, tt * ff + tf * ft)
          [] met = "rogerstanimoto" -> Ratio(2 * ne, tt + ff + 2 * ne)
          [] met = "russellrao" -> Ratio(ff + ne, tt + ff + ne)
          [] met = "sokalsneath" -> Ratio(2 * ne, tt + 2 * ne)

WDot(u, v, w) == Over(u, LAMBDA i : w[i] * u[i] * v[i])
Cosine(u, v, w) == Ratio(SqSigned(WDot(u, v, w)), WDot(u, u, w) * WDot(v, v, w))
\* SumSeq(w) squared times the weighted covariance
Cov(u, v, w) == SumSeq(w) * WDot(u, v, w) - Over(u, LAMBDA i : w[i] * u[i]) * Over(v, LAMBDA i : w[i] * v[i])
Correlation(u, v, w) == Ratio(SqSigned(Cov(u, v, w)), Cov(u, u, w) * Cov(v, v, w))

LnScale == 8192
LnTab == << 0, 5678, 9000, 11357, 13185, 14678, 15941, 17035, 18000, 18863, 19644, 20356, 21012, 21619, 22184,
    22713, 23210, 23678, 24121, 24541, 24941, 25322, 25686, 26035, 26369, 26690, 26999, 27297, 27585,
    27863, 28131, 28391, 28643, 28888, 29125, 29356, 29581, 29799, 30012, 30219, 30422, 30619, 30812,
    31000, 31184, 31364, 31540, 31713, 31882, 32047, 32210, 32369, 32525, 32678, 32828, 32976, 33121,
    33263, 33403, 33541, 33676, 33809, 33941, 34070, 34197, 34322, 34445, 34566, 34686, 34804, 34920,
    35034, 35147, 35259, 35369, 35477, 35584, 35690, 35795, 35898, 35999, 36100, 36199, 36297, 36394,
    36490, 36585, 36678, 36771, 36862, 36953, 37042, 37131, 37219, 37305, 37391, 37476, 37560, 37643,
    37726, 37807, 37888, 37968, 38047, 38125, 38203, 38280, 38356, 38432, 38506, 38580, 38654, 38727,
    38799, 38870, 38941, 39012, 39081, 39151, 39219, 39287, 39355, 39421, 39488, 39554, 39619, 39684,
    39748, 39812, 39875, 39938, 40000, 40062, 40123, 40184, 40244, 40304, 40364, 40423, 40482, 40540,
    40598, 40656, 40713, 40769, 40826, 40882, 40937, 40992, 41047, 41102, 41156, 41209, 41263, 41316,
    41368, 41421, 41473, 41524, 41576, 41627, 41678, 41728, 41778, 41828, 41877, 41927, 41976, 42024,
    42072, 42121, 42168, 42216, 42263, 42310, 42357, 42403, 42449, 42495, 42541, 42586, 42631, 42676,
    42721, 42765, 42809, 42853, 42897, 42940, 42984, 43027, 43069, 43112, 43154, 43196, 43238, 43280,
    43321, 43363, 43404, 43445, 43485, 43526, 43566, 43606, 43646, 43686, 43725, 43764, 43804, 43842,
    43881, 43920, 43958, 43996, 44034, 44072, 44110, 44147, 44185, 44222, 44259, 44296, 44332, 44369,
    44405, 44441, 44477, 44513, 44549, 44584, 44620, 44655, 44690, 44725, 44760, 44794, 44829, 44863,
    44897, 44931, 44965, 44999, 45033, 45066, 45100, 45133, 45166, 45199, 45232, 45265, 45297, 45330,
    45362, 45394, 45426 >>
\* for rows without negative entries and of positive sums (unweighted)
JensenShannon(u, v) ==
    LET su == SumSeq(u)
        sv == SumSeq(v)
        \* ln p - ln m for p = a / s against the mean m of u_i/su and v_i/sv, s' the other sum
        Term(a, i, other) == IF a = 0 THEN 0
                             ELSE a * other * (LnTab[a] + LnTab[2] + LnTab[other] - LnTab[u[i] * sv + v[i] * su])
    IN  IF su = 0 \/ sv = 0 THEN Ratio(0, 0)
        ELSE Ratio(Over(u, LAMBDA i : Term(u[i], i, sv) + Term(v[i], i, su)), 2 * su * sv * LnScale)

Metrics == {"euclidean", "sqeuclidean", "cityblock", "minkowski", "chebyshev", "canberra", "braycurtis", "hamming",
            "jaccard", "dice", "yule", "rogerstanimoto", "russellrao", "sokalsneath",
            "cosine", "correlation", "jensenshannon"}
Distance(met, p, u, v, w) ==
    CASE met = "euclidean" -> Powers(u, v, w, 2)
      [] met = "sqeuclidean" -> Powers(u, v, w, 2)
      [] met = "cityblock" -> Powers(u, v, w, 1)
      [] met = "minkowski" -> Powers(u, v, w, p)
      [] met = "chebyshev" -> Chebyshev(u, v, w)
      [] met = "canberra" -> Canberra(u, v, w)
      [] met = "braycurtis" -> BrayCurtis(u, v, w)
      [] met = "hamming" -> Hamming(u, v, w)
      [] met = "cosine" -> Cosine(u, v, w)
      [] met = "correlation" -> Correlation(u, v, w)
      [] met = "jensenshannon" -> JensenShannon(u, v)
      [] OTHER -> Truth(met, u, v, w)

\* ------------------------------------------------------------ the table of all pairs
Row(x, i) == SubSeq(x.v, i * x.sh[2] + 1, (i + 1) * x.sh[2])       \* zero-based row of a matrix [sh, v]
Ones(n) == [i \in 1 .. n |-> 1]
\* a call is honoured exactly when both operands are matrices of one width and the weights, if any, match it
CDistOk(a, b, w) ==
    /\ Len(a.sh) = 2 /\ Len(b.sh) = 2 /\ a.sh[2] = b.sh[2]
    /\ (Len(w) > 0 => Len(w[1].sh) = 1 /\ w[1].sh[1] = a.sh[2])
CDist(met, p, a, b, w) ==
    LET n == b.sh[1]
        ws == IF Len(w) > 0 THEN w[1].v ELSE Ones(a.sh[2])
        ra == [i \in 1 .. a.sh[1] |-> Row(a, i - 1)]
        rb == [j \in 1 .. n |-> Row(b, j - 1)]
        R(q) == ra[((q - 1) \div n) + 1]
        C(q) == rb[((q - 1) % n) + 1]
    IN  [q \in 1 .. (a.sh[1] * n) |-> Distance(met, p, R(q), C(q), ws)]
===============================================================================
