-------------------------------- MODULE Runs --------------------------------
(* Byte strings as run-length encodings: <<<<byte, count>>, ...>> with count > 0 and no two    *)
(* neighbouring runs of the same byte (canonical form), so equality of contents is equality.  *)
EXTENDS Naturals, Integers, Sequences

RECURSIVE RLenFrom(_, _)
RLenFrom(r, i) == IF i > Len(r) THEN 0 ELSE r[i][2] + RLenFrom(r, i + 1)
RLen(r) == RLenFrom(r, 1)

\* append one run, keeping the canonical form
RPush(r, b, n) ==
  IF n = 0 THEN r
  ELSE IF r # <<>> /\ r[Len(r)][1] = b
       THEN [r EXCEPT ![Len(r)] = <<b, @[2] + n>>]
       ELSE Append(r, <<b, n>>)

RECURSIVE RConcatFrom(_, _, _)
RConcatFrom(a, b, i) == IF i > Len(b) THEN a ELSE RConcatFrom(RPush(a, b[i][1], b[i][2]), b, i + 1)
RConcat(a, b) == RConcatFrom(a, b, 1)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* bytes [from, to) of r
RECURSIVE RSliceFrom(_, _, _, _, _, _)
RSliceFrom(r, i, off, from, to, acc) ==
  IF i > Len(r) \/ off >= to THEN acc
  ELSE LET n  == r[i][2]
           lo == Max2(from, off)
           hi == Min2(to, off + n)
       IN  RSliceFrom(r, i + 1, off + n, from, to, IF hi > lo THEN RPush(acc, r[i][1], hi - lo) ELSE acc)
RSlice(r, from, to) == RSliceFrom(r, 1, 0, from, to, <<>>)

\* contents zero-padded (or cut) to exactly n bytes
RFit(r, n) == LET l == RLen(r) IN IF n <= l THEN RSlice(r, 0, n) ELSE RPush(r, 0, n - l)

\* overwrite r at position pos with w; pos <= Len required by callers (pad first otherwise)
RWrite(r, pos, w) ==
  LET p  == RFit(r, Max2(pos, RLen(r)))
      lw == RLen(w)
  IN  RConcat(RConcat(RSlice(p, 0, pos), w), RSlice(p, pos + lw, Max2(RLen(p), pos + lw)))
=============================================================================
