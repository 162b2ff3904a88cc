---------------------------------- MODULE Rat ----------------------------------
(* Exact rational arithmetic: <<numerator, denominator>>, reduced, denominator > 0 *)
EXTENDS Integers, Sequences, TLC
RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RGcd(_,_)
RGcd(a,b) == IF b = 0 THEN RAbs(a) ELSE RGcd(b, RAbs(a) % RAbs(b))
RSgn(x) == IF x < 0 THEN -1 ELSE 1
Rt(n,d) == LET g == RGcd(n,d) s == RSgn(d) IN << s*RSgn(n)*(RAbs(n) \div g), RAbs(d) \div g >>
I(n) == <<n,1>>
Zero == <<0,1>>
One == <<1,1>>
Add(a,b) == LET g == RGcd(a[2],b[2]) IN Rt(a[1]*(b[2] \div g) + b[1]*(a[2] \div g), a[2]*(b[2] \div g))
Neg(a) == <<-a[1],a[2]>>
Sub(a,b) == Add(a,Neg(b))
Mul(a,b) == LET g == RGcd(a[1],b[2]) h == RGcd(b[1],a[2]) IN
   << (RSgn(a[1])*(RAbs(a[1]) \div g))*(RSgn(b[1])*(RAbs(b[1]) \div h)), (a[2] \div h)*(b[2] \div g) >>
Inv(a) == << RSgn(a[1])*a[2], RAbs(a[1]) >>
Div(a,b) == Mul(a,Inv(b))
Scale(k,a) == Mul(I(k),a)
Lt(a,b) == a[1]*b[2] < b[1]*a[2]
RECURSIVE SumR(_)
SumR(s) == IF s = <<>> THEN Zero ELSE Add(Head(s),SumR(Tail(s)))
=============================================================================
