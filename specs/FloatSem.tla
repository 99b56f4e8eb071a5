------------------------------ MODULE FloatSem ------------------------------
(* The floating point operations of NumPy on a finite lattice of values: NaN, infinities, signed zeros, the smallest
   subnormal and the largest finite number of the type (whatever they are), and small exact fractions.
   A result is again such a value; a fraction stands for the number of the type nearest to it.  "undef" marks a result
   that depends on the type (it is then not checked here).  sg = 2: zero of either sign. *)
EXTENDS Integers, Sequences, TLC

F(k, s, n, d) == [k |-> k, s |-> s, n |-> n, d |-> d]
NaN == F("nan", 0, 0, 1)
Inf(s) == F("inf", s, 0, 1)
Zero(s) == F("zero", s, 0, 1)
Tiny(s) == F("tiny", s, 0, 1)
Huge(s) == F("huge", s, 0, 1)
Undef == F("undef", 0, 0, 1)
Frac(s, n, d) == IF n = 0 THEN Zero(s) ELSE F("fin", s, n, d)
T(p) == F("bool", 0, IF p THEN 1 ELSE 0, 1)
Nat_(s, n) == Frac(s, n, 1)

IsNaN(x) == x.k = "nan"
IsInf(x) == x.k = "inf"
IsZero(x) == x.k = "zero"
Finite(x) == x.k \notin {"nan", "inf"}
Exact(x) == x.k \in {"zero", "fin"}              \* its value is known
Neg(x) == x.s = 1
XorS(x, y) == (x.s + y.s) % 2
Flip(x) == [x EXCEPT !.s = 1 - @]
Pos(x) == [x EXCEPT !.s = 0]
Signed(x) == IF x.s = 1 THEN -x.n ELSE x.n       \* signed numerator

Class(x) == CASE x.k = "zero" -> 0 [] x.k = "tiny" -> 1 [] x.k = "fin" -> 2 [] x.k = "huge" -> 3 [] x.k = "inf" -> 4
LtMag(x, y) == Class(x) < Class(y) \/ (x.k = "fin" /\ y.k = "fin" /\ x.n * y.d < y.n * x.d)
LessX(x, y) == /\ ~IsNaN(x) /\ ~IsNaN(y)
               /\ IF IsZero(x) THEN ~IsZero(y) /\ ~Neg(y)
                  ELSE IF IsZero(y) THEN Neg(x)
                  ELSE IF x.s # y.s THEN Neg(x)
                  ELSE IF Neg(x) THEN LtMag(y, x) ELSE LtMag(x, y)
Same(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ ~LessX(x, y) /\ ~LessX(y, x)

----------------------------------------------------------------------------
AddF(x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF IsInf(x) THEN IF IsInf(y) /\ x.s # y.s THEN NaN ELSE x
    ELSE IF IsInf(y) THEN y
    ELSE IF IsZero(x) /\ IsZero(y) THEN Zero(IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0)
    ELSE IF IsZero(x) THEN y
    ELSE IF IsZero(y) THEN x
    ELSE IF x.k = y.k /\ x.k \in {"tiny", "huge"} /\ x.s # y.s THEN Zero(0)
    ELSE IF x.k = "huge" /\ y.k = "huge" THEN Inf(x.s)
    ELSE IF x.k = "huge" THEN x ELSE IF y.k = "huge" THEN y           \* the other is less than half of its last place
    ELSE IF x.k = "tiny" /\ y.k = "tiny" THEN Undef
    ELSE IF x.k = "tiny" THEN y ELSE IF y.k = "tiny" THEN x
    ELSE LET v == Signed(x) * y.d + Signed(y) * x.d
         IN Frac(IF v < 0 THEN 1 ELSE 0, IF v < 0 THEN -v ELSE v, x.d * y.d)
SubF(x, y) == AddF(x, IF IsNaN(y) THEN y ELSE Flip(y))
GtOne(x) == x.k = "huge" \/ (x.k = "fin" /\ x.n > x.d)
EqOne(x) == x.k = "fin" /\ x.n = x.d
MulF(x, y) ==
    LET s == XorS(x, y) IN
    IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF IsInf(x) \/ IsInf(y) THEN IF IsZero(x) \/ IsZero(y) THEN NaN ELSE Inf(s)
    ELSE IF IsZero(x) \/ IsZero(y) THEN Zero(s)
    ELSE IF EqOne(x) THEN [y EXCEPT !.s = s] ELSE IF EqOne(y) THEN [x EXCEPT !.s = s]
    ELSE IF x.k = "tiny" /\ y.k = "tiny" THEN Zero(s)
    ELSE IF (x.k = "huge" /\ GtOne(y)) \/ (y.k = "huge" /\ GtOne(x)) THEN Inf(s)
    ELSE IF ~Exact(x) \/ ~Exact(y) THEN Undef
    ELSE Frac(s, x.n * y.n, x.d * y.d)
DivF(x, y) ==
    LET s == XorS(x, y) IN
    IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF IsInf(x) THEN IF IsInf(y) THEN NaN ELSE Inf(s)
    ELSE IF IsInf(y) THEN Zero(s)
    ELSE IF IsZero(y) THEN IF IsZero(x) THEN NaN ELSE Inf(s)
    ELSE IF IsZero(x) THEN Zero(s)
    ELSE IF EqOne(y) THEN [x EXCEPT !.s = s]
    ELSE IF x.k = y.k /\ x.k \in {"tiny", "huge"} THEN Nat_(s, 1)
    ELSE IF x.k = "tiny" /\ y.k = "huge" THEN Zero(s)
    ELSE IF x.k = "huge" /\ y.k = "tiny" THEN Inf(s)
    ELSE IF ~Exact(x) \/ ~Exact(y) THEN Undef
    ELSE Frac(s, x.n * y.d, x.d * y.n)

\* floor of the exact quotient; both exact, y # 0
FloorQ(x, y) == LET n == x.n * y.d d == x.d * y.n IN
    IF XorS(x, y) = 0 THEN n \div d ELSE -((n + d - 1) \div d)
FloorDivF(x, y) ==
    LET s == XorS(x, y) IN
    IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF IsZero(y) THEN DivF(x, y)
    ELSE IF IsInf(x) THEN NaN
    ELSE IF IsZero(x) THEN Zero(s)
    ELSE IF IsInf(y) \/ (LtMag(x, y) /\ (~Exact(x) \/ ~Exact(y))) THEN IF s = 0 THEN Zero(0) ELSE Nat_(1, 1)
    ELSE IF ~Exact(x) \/ ~Exact(y) THEN IF x.k = y.k THEN Nat_(s, 1) ELSE Undef
    ELSE LET q == FloorQ(x, y) IN Frac(s, IF q < 0 THEN -q ELSE q, 1)
RemF(x, y) ==
    IF IsNaN(x) \/ IsNaN(y) \/ IsInf(x) \/ IsZero(y) THEN NaN
    ELSE IF IsZero(x) THEN Zero(y.s)
    ELSE IF IsInf(y) THEN IF x.s = y.s THEN x ELSE y
    ELSE IF ~Exact(x) \/ ~Exact(y) THEN IF x.k = y.k THEN Zero(y.s) ELSE IF LtMag(x, y) /\ x.s = y.s THEN x ELSE Undef
    ELSE LET v == Signed(x) * y.d - FloorQ(x, y) * Signed(y) * x.d
         IN Frac(y.s, IF v < 0 THEN -v ELSE v, x.d * y.d)
MinF(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN ELSE IF IsZero(x) /\ IsZero(y) THEN Zero(IF x.s = y.s THEN x.s ELSE 2)
              ELSE IF LessX(y, x) THEN y ELSE x
MaxF(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN ELSE IF IsZero(x) /\ IsZero(y) THEN Zero(IF x.s = y.s THEN x.s ELSE 2)
              ELSE IF LessX(x, y) THEN y ELSE x

IsInt(y) == y.k = "fin" /\ y.n % y.d = 0
OddInt(y) == IsInt(y) /\ (y.n \div y.d) % 2 = 1
RECURSIVE PowN(_, _)
PowN(b, e) == IF e = 0 THEN 1 ELSE b * PowN(b, e - 1)
RECURSIVE OddPart(_)
OddPart(n) == IF n % 2 = 0 THEN OddPart(n \div 2) ELSE n
LtOne(x) == x.k \in {"zero", "tiny"} \/ (x.k = "fin" /\ x.n < x.d)
PowF(x, y) ==
    IF IsZero(y) \/ (EqOne(x) /\ ~Neg(x)) THEN Nat_(0, 1)
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF IsInf(y) THEN IF EqOne(x) THEN Nat_(0, 1) ELSE IF LtOne(x) = Neg(y) THEN Inf(0) ELSE Zero(0)
    ELSE IF IsInf(x) \/ IsZero(x) THEN
         LET s == IF Neg(x) /\ OddInt(y) THEN 1 ELSE 0 IN IF y.k = "tiny" /\ FALSE THEN Undef
              ELSE IF y.k = "huge" THEN IF IsInf(x) = Neg(y) THEN Zero(0) ELSE Inf(0)
              ELSE IF IsInf(x) = Neg(y) THEN Zero(s) ELSE Inf(s)
    ELSE IF y.k \in {"tiny", "huge"} \/ x.k \in {"tiny", "huge"} THEN Undef
    ELSE IF ~IsInt(y) THEN IF Neg(x) THEN NaN ELSE Undef
    ELSE LET e == y.n \div y.d s == IF Neg(x) /\ OddInt(y) THEN 1 ELSE 0 IN
         IF e > 4 THEN Undef
         ELSE IF Neg(y) THEN IF PowN(x.d, e) % PowN(OddPart(x.n), e) = 0 THEN Frac(s, PowN(x.d, e), PowN(x.n, e))
                             ELSE Undef                   \* not a number of the type: power is not correctly rounded
              ELSE Frac(s, PowN(x.n, e), PowN(x.d, e))

Truth(x) == ~IsZero(x)
BinF(op, x, y) ==
    CASE op = "add" -> AddF(x, y)
      [] op = "subtract" -> SubF(x, y)
      [] op = "multiply" -> MulF(x, y)
      [] op = "true_divide" -> DivF(x, y)
      [] op = "floor_divide" -> FloorDivF(x, y)
      [] op = "remainder" -> RemF(x, y)
      [] op = "power" -> PowF(x, y)
      [] op = "minimum" -> MinF(x, y)
      [] op = "maximum" -> MaxF(x, y)
      [] op = "equal" -> T(Same(x, y))
      [] op = "not_equal" -> T(~Same(x, y))
      [] op = "less" -> T(LessX(x, y))
      [] op = "less_equal" -> T(LessX(x, y) \/ Same(x, y))
      [] op = "greater" -> T(LessX(y, x))
      [] op = "greater_equal" -> T(LessX(y, x) \/ Same(x, y))
      [] op = "logical_and" -> T(Truth(x) /\ Truth(y))
      [] op = "logical_or" -> T(Truth(x) \/ Truth(y))

----------------------------------------------------------------------------
(* rounding to an integer: by the magnitude, up, down or to even *)
Mag(x, m) == Frac(x.s, m, 1)
FloorM(x) == x.n \div x.d
CeilM(x) == (x.n + x.d - 1) \div x.d
EvenM(x) == LET q == x.n \div x.d r == 2 * (x.n - q * x.d) IN IF r < x.d THEN q ELSE IF r > x.d THEN q + 1 ELSE q + (q % 2)
Rounded(x, tinyM, m) == IF x.k = "tiny" THEN Mag(x, tinyM) ELSE IF x.k = "fin" THEN Mag(x, m) ELSE x
Root(n) == IF \E r \in 0..60 : r * r = n THEN CHOOSE r \in 0..60 : r * r = n ELSE -1
SqrtF(x) == IF IsNaN(x) \/ IsZero(x) THEN x ELSE IF Neg(x) THEN NaN ELSE IF IsInf(x) THEN x
            ELSE IF x.k = "fin" /\ Root(x.n) >= 0 /\ Root(x.d) >= 0 THEN Frac(0, Root(x.n), Root(x.d)) ELSE Undef
UnF(op, x) ==
    CASE op = "absolute" -> Pos(x)
      [] op = "fabs" -> Pos(x)
      [] op = "negative" -> IF IsNaN(x) THEN x ELSE Flip(x)
      [] op = "positive" -> x
      [] op = "sign" -> IF IsNaN(x) THEN x ELSE IF IsZero(x) THEN Zero(0) ELSE Nat_(x.s, 1)
      [] op = "signbit" -> T(x.s = 1)
      [] op = "square" -> IF IsNaN(x) THEN x ELSE MulF(x, x)
      [] op = "sqrt" -> SqrtF(x)
      [] op = "reciprocal" -> IF x.k = "tiny" THEN Inf(x.s) ELSE DivF(Nat_(0, 1), x)
      [] op = "floor" -> Rounded(x, IF Neg(x) THEN 1 ELSE 0, IF Neg(x) THEN CeilM(x) ELSE FloorM(x))
      [] op = "ceil" -> Rounded(x, IF Neg(x) THEN 0 ELSE 1, IF Neg(x) THEN FloorM(x) ELSE CeilM(x))
      [] op = "trunc" -> Rounded(x, 0, FloorM(x))
      [] op = "rint" -> Rounded(x, 0, EvenM(x))
      [] op = "isnan" -> T(IsNaN(x))
      [] op = "isinf" -> T(IsInf(x))
      [] op = "isfinite" -> T(Finite(x))
      [] op = "logical_not" -> T(IsZero(x))

----------------------------------------------------------------------------
Mags == {<<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<5, 4>>, <<6, 4>>, <<8, 4>>, <<9, 4>>, <<10, 4>>, <<12, 4>>, <<14, 4>>, <<16, 4>>, <<28, 4>>, <<36, 4>>, <<40, 4>>}
Values == {NaN} \cup {Inf(s) : s \in {0, 1}} \cup {Zero(s) : s \in {0, 1}} \cup {Tiny(s) : s \in {0, 1}} \cup {Huge(s) : s \in {0, 1}}
          \cup {Frac(s, m[1], m[2]) : s \in {0, 1}, m \in Mags}
\* reduced fractions, so that equal values are equal records
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(x) == IF x.k # "fin" THEN x ELSE LET g == Gcd(x.n, x.d) IN [x EXCEPT !.n = @ \div g, !.d = @ \div g]
Eq(x, y) == Norm(x) = Norm(y)
\* laws of the arithmetic
LawsF(x, y) ==
    /\ Eq(AddF(x, y), AddF(y, x)) /\ Eq(MulF(x, y), MulF(y, x))
    /\ Eq(SubF(x, y), AddF(x, MulF(Nat_(1, 1), y)))
    /\ (Exact(x) /\ Exact(y) /\ ~IsZero(y)) =>
         /\ Eq(Norm(AddF(MulF(FloorDivF(x, y), y), RemF(x, y))), Norm(IF IsZero(x) THEN AddF(MulF(FloorDivF(x, y), y), RemF(x, y)) ELSE x))
         /\ RemF(x, y).s = y.s /\ (IsZero(RemF(x, y)) \/ LtMag(RemF(x, y), y))
         /\ Eq(UnF("floor", DivF(x, y)), FloorDivF(x, y))
    /\ IF IsNaN(x) \/ IsNaN(y) THEN ~LessX(x, y) /\ ~LessX(y, x) /\ ~Same(x, y)
       ELSE (IF LessX(x, y) THEN 1 ELSE 0) + (IF LessX(y, x) THEN 1 ELSE 0) + (IF Same(x, y) THEN 1 ELSE 0) = 1
    /\ (~IsNaN(x) /\ ~IsNaN(y)) => (LessX(x, y) <=> LessX(Flip(y), Flip(x)))
    /\ (~IsNaN(x) /\ ~IsNaN(y) /\ LessX(x, y)) => Eq(MinF(x, y), x) /\ Eq(MaxF(x, y), y)
    /\ Eq(MinF(x, y), MinF(y, x)) /\ Eq(MaxF(x, y), MaxF(y, x))
LawsU(x) ==
    /\ UnF("absolute", x).s = 0
    /\ ~IsNaN(x) => /\ Eq(UnF("negative", UnF("negative", x)), x)
                    /\ Eq(UnF("ceil", x), Flip(UnF("floor", Flip(x))))
                    /\ Eq(UnF("rint", x), Flip(UnF("rint", Flip(x))))
                    /\ Eq(UnF("trunc", x), UnF(IF Neg(x) THEN "ceil" ELSE "floor", x))
                    /\ UnF("floor", x).s = x.s
    /\ Finite(x) /\ Exact(x) => /\ ~LessX(x, UnF("floor", x)) /\ ~LessX(UnF("ceil", x), x)
                                /\ UnF("rint", x) \in {UnF("floor", x), UnF("ceil", x), Zero(x.s)}
=============================================================================
