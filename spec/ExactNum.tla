------------------------------ MODULE ExactNum ------------------------------
(***************************************************************************)
(* Exact complex rational arithmetic.                                      *)
(*                                                                         *)
(* A number is <<re, im, den>> with integers re, im and den > 0, meaning   *)
(* (re + i im)/den.  Every finite IEEE double is such a number, so inputs  *)
(* and outputs recorded from the implementation enter the specification    *)
(* without any rounding, as strings ("0x1.8p3", "1/3", "re;im"); a float   *)
(* NaN or infinity becomes the value NaN, of which no comparison is true.  *)
(*                                                                         *)
(* TLC integers are 32-bit, so TLC evaluates these operators with          *)
(* java/walrus/ExactNum.java (java.math.BigInteger); MC_Exact.tla checks   *)
(* that evaluation against the definitions below.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NaN == CHOOSE x : x \notin (Int \X Int \X Nat)

(* Num(x): an integer, or the number a string denotes. *)
Num(x) == IF x \in Int THEN <<x, 0, 1>> ELSE x
(* Nums(s): the same on arbitrarily nested sequences. *)
Nums(s) == s
Frac(n, d) == IF d < 0 THEN <<-n, 0, -d>> ELSE <<n, 0, d>>

Add(a, b) == <<a[1] * b[3] + b[1] * a[3], a[2] * b[3] + b[2] * a[3], a[3] * b[3]>>
Neg(a)    == <<-a[1], -a[2], a[3]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1], a[3] * b[3]>>
Conj(a)   == <<a[1], -a[2], a[3]>>
Re(a)     == <<a[1], 0, a[3]>>
Im(a)     == <<a[2], 0, a[3]>>
Cx(a, b)  == Add(a, Mul(b, <<0, 1, 1>>))
Abs2(a)   == <<a[1] * a[1] + a[2] * a[2], 0, a[3] * a[3]>>
Inv(a)    == LET m == a[1] * a[1] + a[2] * a[2]
             IN IF m = 0 THEN NaN ELSE <<a[1] * a[3], -a[2] * a[3], m>>
Div(a, b) == Mul(a, Inv(b))

a ++ b == Add(a, b)
a -- b == Sub(a, b)
a ** b == Mul(a, b)
a // b == Div(a, b)

RECURSIVE PowN(_, _)
PowN(a, k) == IF k = 0 THEN <<1, 0, 1>> ELSE Mul(a, PowN(a, k - 1))
Pow(a, k) == IF k >= 0 THEN PowN(a, k) ELSE PowN(Inv(a), -k)

IsNum(a)     == a # NaN
IsRealNum(a) == IsNum(a) /\ a[2] = 0
IsInteger(a) == IsRealNum(a) /\ a[1] % a[3] = 0
ToInt(a)     == a[1] \div a[3]
Eq(a, b)     == IsNum(a) /\ IsNum(b) /\ a[1] * b[3] = b[1] * a[3] /\ a[2] * b[3] = b[2] * a[3]
(* Order of the real parts. *)
Leq(a, b)    == IsNum(a) /\ IsNum(b) /\ a[1] * b[3] <= b[1] * a[3]
Lt(a, b)     == IsNum(a) /\ IsNum(b) /\ a[1] * b[3] < b[1] * a[3]
(* |a - b| <= tol *)
Within(a, b, tol) == IsNum(tol) /\ IsNum(a) /\ IsNum(b) /\ Leq(<<0, 0, 1>>, tol)
                     /\ Leq(Abs2(Sub(a, b)), Mul(tol, tol))

Zero == Num(0)
One  == Num(1)
Two  == Num(2)
Half == Frac(1, 2)
ImagUnit == Cx(Num(0), Num(1))
(* 10^-k *)
Tiny(k) == Pow(Frac(1, 10), k)

Max2(a, b) == IF Leq(a, b) THEN b ELSE a
Min2(a, b) == IF Leq(a, b) THEN a ELSE b

(* Sum and product of all values of a function: SumF([x \in S |-> e]). *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN <<0, 0, 1>>
                 ELSE LET x == CHOOSE x \in S : TRUE IN Add(f[x], SumOver(f, S \ {x}))
SumF(f) == SumOver(f, DOMAIN f)
RECURSIVE ProdOver(_, _)
ProdOver(f, S) == IF S = {} THEN <<1, 0, 1>>
                  ELSE LET x == CHOOSE x \in S : TRUE IN Mul(f[x], ProdOver(f, S \ {x}))
ProdF(f) == ProdOver(f, DOMAIN f)

(***************************************************************************)
(* Real functions, to about 2^-240 (their Java evaluation truncates).      *)
(***************************************************************************)
(* round to a multiple of 2^-k: only ever used with k >= 200 *)
Round(a, k) == a
Sqrt(a) == CHOOSE s \in Int \X {0} \X (Nat \ {0}) : Leq(Num(0), s) /\ Eq(Mul(s, s), a)
Abs(a)  == Sqrt(Abs2(a))
Exp(a)  == CHOOSE s \in Int \X Int \X (Nat \ {0}) : TRUE   (* sum of a^k / k! *)
Log(a)  == CHOOSE s \in Int \X {0} \X (Nat \ {0}) : Exp(s) = a
Cos(a)  == Re(Exp(Mul(ImagUnit, a)))
Sin(a)  == Im(Exp(Mul(ImagUnit, a)))
Cosh(a) == Div(Add(Exp(a), Exp(Neg(a))), Num(2))
Sinh(a) == Div(Sub(Exp(a), Exp(Neg(a))), Num(2))
Tanh(a) == Div(Sinh(a), Cosh(a))
(* the largest modulus in a nested sequence, 0 when empty *)
MaxAbs(f) == CHOOSE s \in Int \X {0} \X (Nat \ {0}) : TRUE
(* for reports and replay files *)
Show(a) == a
Hex(a)  == a
=============================================================================
