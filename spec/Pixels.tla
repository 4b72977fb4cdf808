------------------------------- MODULE Pixels -------------------------------
(* Ground pixels of a rectangular instrument (C23): at every sample time one *)
(* record per pixel (i across track, j along track), the pixels evenly       *)
(* spread over the field of view.                                            *)
EXTENDS Common

\* doubled offset of pixel i of n, in units of (field of view) / n, before
\* oversampling: odd and even counts are both symmetric about the pointing
Offset2(i, n) == 2 * i + 1 - n

VARIABLES nt, nc, na, inside, at, recs
pvars == <<nt, nc, na, inside, at, recs>>
PixInit(t, c, a, I) == nt = t /\ nc = c /\ na = a /\ inside = I /\ at = 0 /\ recs = <<>>
\* record number q (from 0) is pixel (i, j) of sample k
KOf(q, c, a) == (q \div (c * a)) + 1
IOf(q, c, a) == (q % (c * a)) \div a
JOf(q, c, a) == q % a
Emit == /\ at < nt * nc * na
        /\ at' = at + 1
        /\ recs' = IF at \in inside THEN Append(recs, <<KOf(at, nc, na), IOf(at, nc, na), JOf(at, nc, na)>>) ELSE recs
        /\ UNCHANGED <<nt, nc, na, inside>>
PixDone == at = nt * nc * na
All == (1..nt) \X (0..(nc - 1)) \X (0..(na - 1))
\* every pixel of every sample once, in time order; a mask only selects
EveryPixelOnce == PixDone =>
  /\ Len(recs) = Cardinality(Range(recs))
  /\ Range(recs) \subseteq All
  /\ Len(recs) = Cardinality(inside)
  /\ (inside = 0..(nt * nc * na - 1) => Range(recs) = All)
TimeOrder == \A r \in DOMAIN recs : r > 1 => recs[r - 1][1] <= recs[r][1]
\* within the field of view, evenly spaced, symmetric
Spread == \A n \in {nc, na} : \A i \in 0..(n - 1) :
  /\ Abs(Offset2(i, n)) < n
  /\ Offset2(i, n) = -Offset2(n - 1 - i, n)
  /\ (i > 0 => Offset2(i, n) - Offset2(i - 1, n) = 2)

-----------------------------------------------------------------------------
(* Recorded: ins: [nc, na, fc, fa, oc, oa] (fields of view in millidegrees,  *)
(* oversampling in percent); dirs: offsets of each pixel as [i, j, c, a]     *)
(* (microdegrees; left to right, fore to aft); rows: [k, p, cmp] with p the  *)
(* pixel number (from 0, or -1) at whose expected place the record lies.     *)
DirFailing(ins, dirs) ==
  LET near(got, n, o2, os, f, rad) == Abs(got * 2 * n - o2 * (100 - os) * f * 10) <= 40 * n + 2 * n IN
  Clause({<<dirs[d].i, dirs[d].j>> : d \in DOMAIN dirs} = (0..(ins.nc - 1)) \X (0..(ins.na - 1)), "pixels")
  \cup Clause(\A d \in DOMAIN dirs : near(dirs[d].c, ins.nc, Offset2(dirs[d].i, ins.nc), ins.oc, ins.fc, 0), "cross_direction")
  \cup Clause(\A d \in DOMAIN dirs : near(dirs[d].a, ins.na, -Offset2(dirs[d].j, ins.na), ins.oa, ins.fa, 0), "along_direction")
RowsFailing(n, ins, rws) ==
  Clause(Len(rws) = n * ins.nc * ins.na, "count")
  \cup Clause(\A r \in DOMAIN rws : rws[r].k = KOf(r - 1, ins.nc, ins.na), "times")
  \cup Clause(\A r \in DOMAIN rws : rws[r].p \in {(r - 1) % (ins.nc * ins.na), -2}, "position")
  \cup UNION {CmpFailing(rws[r].cmp) : r \in DOMAIN rws}
\* where: per record of the unmasked result "in", "out", "edge"; kept: the
\* numbers (from 1) of the unmasked records found in the masked result
SelectFailing(where, kept) ==
  Clause(\A x \in Range(kept) : x \in DOMAIN where, "known")
  \cup Clause(Len(kept) = Cardinality(Range(kept)), "once")
  \cup Clause(\A x \in DOMAIN where : where[x] = "in" => x \in Range(kept), "kept")
  \cup Clause(\A x \in DOMAIN where : where[x] = "out" => x \notin Range(kept), "dropped")
=============================================================================
