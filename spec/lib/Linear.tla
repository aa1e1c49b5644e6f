------------------------------- MODULE Linear --------------------------------
(* Exact linear algebra over CNum (finite-field domain: pivots are units).      *)
(* A matrix is a sequence of rows.                                              *)
EXTENDS Maxwell

(* matrix of a linear map f on grid functions of a given shape                  *)
UnitGrid(Nx, Ny, k) == Grid(Nx, Ny, LAMBDA i, j : IF (i - 1) * Ny + j = k THEN CN(1) ELSE CN(0))
Columns(Nx, Ny, f(_)) == TLCEval([k \in 1..(Nx * Ny) |-> Flat(f(UnitGrid(Nx, Ny, k)))])
Transpose(A) == TLCEval([i \in 1..Len(A[1]) |-> TLCEval([j \in 1..Len(A) |-> A[j][i]])])
Apply(A, x) == TLCEval([i \in 1..Len(A) |-> CDot(A[i], x)])

(* Gauss-Jordan elimination of the augmented rows T; <<>> if singular            *)
RECURSIVE Eliminate(_, _)
Eliminate(T, k) ==
  LET n == Len(T) IN
  IF k > n THEN T
  ELSE LET ps == {i \in k..n : CUnit(T[i][k])} IN
    IF ps = {} THEN <<>>
    ELSE LET p == CHOOSE i \in ps : \A x \in ps : i <= x
             S == TLCEval([T EXCEPT ![k] = T[p], ![p] = T[k]])
             d == S[k][k]
             row == TLCEval([j \in 1..Len(S[k]) |-> CDiv(S[k][j], d)])
             R == TLCEval([i \in 1..n |-> IF i = k THEN row
                    ELSE LET c == S[i][k] IN TLCEval([j \in 1..Len(row) |-> CSub(S[i][j], CMul(c, row[j]))])])
         IN Eliminate(R, k + 1)
SolveLinear(A, b) ==
  LET T == Eliminate(TLCEval([i \in 1..Len(A) |-> Append(A[i], b[i])]), 1)
  IN IF T = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(T) |-> T[i][Len(T[i])]])

(* A x + B conj(x) = b as a system twice as large over the reals                *)
Coupled(A, B, b) ==
  LET n == Len(A)
      top(i) == [j \in 1..(2 * n) |-> IF j <= n THEN CAdd(CRe(A[i][j]), CRe(B[i][j]))
                                      ELSE CSub(CIm(B[i][j - n]), CIm(A[i][j - n]))]
      low(i) == [j \in 1..(2 * n) |-> IF j <= n THEN CAdd(CIm(A[i][j]), CIm(B[i][j]))
                                      ELSE CSub(CRe(A[i][j - n]), CRe(B[i][j - n]))]
      T == TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN TLCEval(top(i)) ELSE TLCEval(low(i - n))])
      y == SolveLinear(T, TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN CRe(b[i]) ELSE CIm(b[i - n])]))
  IN IF y = <<>> THEN <<>> ELSE TLCEval([i \in 1..n |-> CAdd(y[i], CMul(CMk(0, 1), y[n + i]))])
=============================================================================
