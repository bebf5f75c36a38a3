-------------------------------- MODULE Okvs --------------------------------
(* An oblivious key-value store: every key stands for one linear equation    *)
(* over the columns of a table, and the table is a solution of the system.   *)
(* The sparse part of the equations is put into a triangle; the equations    *)
(* left over (the gap) are solved on the dense columns; columns that nothing *)
(* determines are free, and are drawn at random when that is asked for.      *)
EXTENDS Naturals, FiniteSets, Sequences, Functions, FiniteSetsExt

Xor(a, b) == IF a = b THEN 0 ELSE 1
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : Xor(f(x), acc), 0, S)
\* rows: function item -> [sp: set of sparse columns, d: set of dense columns]
Value(row, t) == Sum(row.sp \union row.d, LAMBDA c : t[c])
Decodes(rows, val, t) == \A i \in DOMAIN rows : Value(rows[i], t) = val[i]

\* the rows of the triangle that cancel row i on the pivots: piv is a sequence of <<row, column>>;
\* a column chosen later occurs in no row chosen before it
RECURSIVE Cancel(_, _, _, _)
Cancel(rows, piv, sp, k) ==
  IF k > Len(piv) THEN {}
  ELSE IF piv[k][2] \in sp THEN {piv[k][1]} \union Cancel(rows, piv, SymDiff(sp, rows[piv[k][1]].sp), k + 1)
  ELSE Cancel(rows, piv, sp, k + 1)

Pivots(piv) == {piv[k][2] : k \in DOMAIN piv}
\* what is left of equation i once the pivots are gone: [free sparse columns, dense columns, value]
RECURSIVE FoldRows(_, _, _)
FoldRows(rows, S, acc) ==
  IF S = {} THEN acc
  ELSE LET j == CHOOSE x \in S : TRUE
       IN FoldRows(rows, S \ {j}, [sp |-> SymDiff(acc.sp, rows[j].sp), d |-> SymDiff(acc.d, rows[j].d)])
Left(rows, val, piv, i) ==
  LET S == Cancel(rows, piv, rows[i].sp, 1)
      r == FoldRows(rows, S, rows[i])
  IN [row |-> r, v |-> Xor(val[i], Sum(S, LAMBDA j : val[j]))]

\* dense parts that solve the gap for the free part r
GapSolutions(rows, val, piv, gap, r, Dense) ==
  {p \in [Dense -> {0, 1}] :
     \A i \in gap : LET e == Left(rows, val, piv, i)
                    IN Xor(Sum(e.row.sp, LAMBDA c : r[c]), Sum(e.row.d, LAMBDA c : p[c])) = e.v}

\* the pivots are filled in from the last one back
RECURSIVE Backfill(_, _, _, _, _)
Backfill(rows, val, piv, t, k) ==
  IF k = 0 THEN t
  ELSE LET i == piv[k][1] c == piv[k][2]
           others == (rows[i].sp \ {c}) \union rows[i].d
       IN Backfill(rows, val, piv, [t EXCEPT ![c] = Xor(val[i], Sum(others, LAMBDA x : t[x]))], k - 1)
=============================================================================
