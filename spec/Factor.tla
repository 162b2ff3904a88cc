------------------------------- MODULE Factor -------------------------------
(* The factorization of a sparse matrix J: an object that holds J'J or nothing.
   A matrix is a sequence of rows; a row is a sequence of <<column, value>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumS(_,_)
SumS(s,k) == IF k = 0 THEN 0 ELSE s[k] + SumS(s,k-1)
Tot(s) == SumS(s,Len(s))
At(row,j) == Tot([k \in DOMAIN row |-> IF row[k][1] = j THEN row[k][2] ELSE 0])
Dense(m) == [i \in DOMAIN m.rows |-> [j \in 1..m.n |-> At(m.rows[i],j-1)]]
Gram(m) == LET d == TLCEval(Dense(m)) IN [i \in 1..m.n |-> [j \in 1..m.n |-> Tot([k \in DOMAIN d |-> d[k][i]*d[k][j]])]]
Mul(A,x) == [i \in DOMAIN A |-> Tot([j \in DOMAIN x |-> A[i][j]*x[j]])]
(* a determinant, by the first row *)
Without(r,j) == [k \in 1..(Len(r)-1) |-> r[IF k < j THEN k ELSE k+1]]
RECURSIVE DetM(_)
DetM(A) == IF A = <<>> THEN 1 ELSE Tot([j \in DOMAIN A |-> IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1)*A[1][j]*DetM([i \in 1..(Len(A)-1) |-> Without(A[i+1],j)])])
Singular(m) == DetM(TLCEval(Gram(m))) = 0
(* variables that no row knows of: seen exactly, whatever the rounding *)
Hopeless(m) == LET d == TLCEval(Dense(m)) IN \E j \in 1..m.n : \A i \in DOMAIN d : d[i][j] = 0
(* ---- what may be given ---- *)
Acceptable(m) == m.form = "csr"
(* the object: the number of the matrix it holds, or 0 *)
After(c,st,op) == CASE op.op = "init" -> (IF Acceptable(c.mats[op.m]) /\ ~Singular(c.mats[op.m]) THEN op.m ELSE 0)
                    [] op.op = "clear" -> 0
                    [] OTHER -> st
RECURSIVE StateAt(_,_)
StateAt(c,k) == IF k = 0 THEN 0 ELSE After(c,StateAt(c,k-1),c.ops[k])
Systems == {"A","LDLt","LD","DLt","L","Lt","D","P","Pt"}
RhsOk(form) == form \in {"vector","rows","cube","none","one"}
=============================================================================
