------------------------------ MODULE TransSem ------------------------------
(* The transcendental functions on the lattice of FloatSem.  A result is an interval [lo, hi] of such values; where lo = hi
   the result is exact (special values, domain edges, exact cases), otherwise the result is within the bounds.
   One state per function; its laws are checked and its table is written. *)
EXTENDS FloatSem, Json, SequencesExt, FiniteSets
CONSTANTS Fns, OutDir, Bug

Pow2 == [k \in 0..15 |-> 2^k]
TMags == {<<1, 8>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<8, 1>>, <<10, 1>>, <<12, 1>>, <<16, 1>>, <<20, 1>>, <<27, 1>>, <<64, 1>>,
        <<100, 1>>, <<125, 1>>, <<1000, 1>>, <<1024, 1>>}
XS == {NaN} \cup UNION {{Inf(s), Zero(s), Tiny(s), Huge(s)} \cup {Frac(s, m[1], m[2]) : m \in TMags} : s \in {0, 1}}

I(lo, hi) == [lo |-> lo, hi |-> hi]
E(x) == I(x, x)
R(n, d) == Frac(IF n < 0 THEN 1 ELSE 0, IF n < 0 THEN -n ELSE n, d)
One == R(1, 1)
NegI(i) == IF IsNaN(i.lo) THEN i ELSE I(Flip(i.hi), Flip(i.lo))
Times(x, n, d) == Norm(Frac(x.s, x.n * n, x.d * d))
LeOne(x) == x.k = "fin" /\ x.n <= x.d
Le(x, y) == ~LessX(y, x)
Over(x) == Norm(Frac(x.s, x.d, x.n))                          \* 1 / x
Minus1(x) == Norm(AddF(x, R(-1, 1)))
Plus1(x) == Norm(AddF(x, One))
IsPow2(x) == x.k = "fin" /\ (\E k \in 0..15 : (x.n = Pow2[k] /\ x.d = 1) \/ (x.d = Pow2[k] /\ x.n = 1))
Lg2(x) == CHOOSE k \in -15..15 : IF k >= 0 THEN x.n = Pow2[k] /\ x.d = 1 ELSE x.d = Pow2[-k] /\ x.n = 1
Whole(x) == x.k = "fin" /\ x.d = 1
Top == Inf(0)

\* positive arguments of the odd functions; x is tiny, fin, huge or inf
OddPos(f, x) ==
    IF x.k = "tiny" /\ f # "cbrt" THEN E(x)
    ELSE CASE f = "sin" -> IF x.k = "inf" THEN E(NaN) ELSE IF LeOne(x) THEN I(Times(x, 5, 6), x) ELSE I(R(-1, 1), One)
      [] f = "tan" -> IF x.k = "inf" THEN E(NaN) ELSE IF LeOne(x) THEN I(x, Times(x, 2, 1)) ELSE I(Huge(1), Huge(0))
      [] f = "arcsin" -> IF LeOne(x) THEN I(x, Times(x, 2, 1)) ELSE E(NaN)
      [] f = "arctan" -> IF LeOne(x) THEN I(Times(x, 3, 4), x) ELSE IF x.k \in {"inf", "huge"} THEN I(R(3, 2), R(11, 7)) ELSE I(R(3, 4), R(11, 7))
      [] f = "sinh" -> IF x.k \in {"inf", "huge"} THEN E(Top) ELSE IF LeOne(x) THEN I(x, Times(x, 2, 1)) ELSE I(x, Top)
      [] f = "tanh" -> IF x.k \in {"inf", "huge"} \/ LessX(R(20, 1), x) THEN E(One) ELSE IF LeOne(x) THEN I(Times(x, 3, 4), x) ELSE I(R(3, 4), One)
      [] f = "arcsinh" -> IF x.k = "inf" THEN E(x) ELSE IF x.k = "huge" THEN I(R(80, 1), R(1000, 1)) ELSE IF LeOne(x) THEN I(Times(x, 3, 4), x) ELSE I(R(3, 4), x)
      [] f = "arctanh" -> IF EqOne(x) THEN E(Top) ELSE IF ~LeOne(x) THEN E(NaN) ELSE I(x, Times(x, 2, 1))
      [] f = "cbrt" -> IF x.k = "inf" THEN E(x) ELSE IF x.k = "tiny" THEN I(x, One) ELSE IF x.k = "huge" THEN I(R(1000, 1), x)
                       ELSE IF \E r \in 1..20 : r * r * r = x.n /\ x.d = 1 THEN E(R(CHOOSE r \in 1..20 : r * r * r = x.n, 1))
                       ELSE IF x.n = 1 /\ x.d = 8 THEN E(R(1, 2))
                       ELSE IF LeOne(x) THEN I(x, One) ELSE I(One, x)
Odd == {"sin", "tan", "arcsin", "arctan", "sinh", "tanh", "arcsinh", "arctanh", "cbrt"}
Even == {"cos", "cosh"}
Increasing == {"arcsin", "arctan", "sinh", "tanh", "arcsinh", "arccosh", "arctanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt"}

\* the logarithms of 1 + d, d > -1: between d / (1 + d) and d
Ln(x) == I(Norm(MulF(Minus1(x), Over(x))), Minus1(x))
Fn0(f, x) ==
    IF IsNaN(x) THEN E(NaN)
    ELSE IF f \in Odd THEN IF IsZero(x) THEN E(x) ELSE IF Neg(x) THEN NegI(OddPos(f, Pos(x))) ELSE OddPos(f, x)
    ELSE CASE f = "cos" -> IF IsInf(x) THEN E(NaN) ELSE IF x.k \in {"zero", "tiny"} THEN E(One) ELSE IF LeOne(x) THEN I(R(1, 2), One) ELSE I(R(-1, 1), One)
      [] f = "cosh" -> IF x.k \in {"inf", "huge"} THEN E(Top) ELSE IF x.k \in {"zero", "tiny"} THEN E(One) ELSE I(One, Top)
      [] f = "arccos" -> IF EqOne(x) THEN IF Neg(x) THEN I(R(3, 1), R(22, 7)) ELSE E(Zero(0))
                         ELSE IF x.k \in {"zero", "tiny"} THEN I(R(3, 2), R(11, 7))
                         ELSE IF ~LeOne(x) THEN E(NaN)
                         ELSE IF Neg(x) THEN I(R(3, 2), R(22, 7)) ELSE I(Zero(0), R(11, 7))
      [] f = "arccosh" -> IF EqOne(x) /\ ~Neg(x) THEN E(Zero(0)) ELSE IF LessX(x, One) THEN E(NaN) ELSE IF IsInf(x) THEN E(x)
                          ELSE IF x.k = "huge" THEN I(R(80, 1), R(1000, 1)) ELSE I(R(1, 2), x)
      [] f \in {"exp", "exp2"} -> IF IsInf(x) \/ x.k = "huge" THEN E(IF Neg(x) THEN Zero(0) ELSE Top)
                         ELSE IF x.k \in {"zero", "tiny"} THEN E(One)
                         ELSE IF f = "exp2" /\ Whole(x) /\ x.n <= 15 THEN E(IF Neg(x) THEN Frac(0, 1, Pow2[x.n]) ELSE R(Pow2[x.n], 1))
                         ELSE IF Neg(x) THEN I(Zero(0), One) ELSE I(IF f = "exp" THEN Plus1(x) ELSE One, Top)
      [] f = "expm1" -> IF x.k \in {"zero", "tiny"} THEN E(x) ELSE IF IsInf(x) \/ x.k = "huge" THEN E(IF Neg(x) THEN R(-1, 1) ELSE Top)
                         ELSE IF ~Neg(x) THEN I(x, Top) ELSE IF LeOne(x) THEN I(x, Times(x, 1, 2)) ELSE I(R(-1, 1), R(-1, 2))
      [] f \in {"log", "log2", "log10"} -> IF IsZero(x) THEN E(Inf(1)) ELSE IF Neg(x) THEN E(NaN) ELSE IF IsInf(x) THEN E(x)
                         ELSE IF EqOne(x) THEN E(Zero(0))
                         ELSE IF x.k = "huge" THEN I(R(30, 1), R(1024, 1)) ELSE IF x.k = "tiny" THEN I(R(-1074, 1), R(-40, 1))
                         ELSE IF f = "log" THEN Ln(x)
                         ELSE IF f = "log2" /\ IsPow2(x) THEN E(R(Lg2(x), 1))
                         ELSE IF f = "log10" /\ x \in {R(10, 1), R(100, 1), R(1000, 1)} THEN E(R(IF x.n = 10 THEN 1 ELSE IF x.n = 100 THEN 2 ELSE 3, 1))
                         ELSE IF LessX(x, One) THEN I(NegI(E(Times(Over(x), 2, 1))).lo, Zero(1)) ELSE I(Zero(0), x)
      [] f = "log1p" -> IF x.k \in {"zero", "tiny"} THEN E(x) ELSE IF EqOne(x) /\ Neg(x) THEN E(Inf(1)) ELSE IF LessX(x, R(-1, 1)) THEN E(NaN)
                         ELSE IF IsInf(x) THEN E(x) ELSE IF x.k = "huge" THEN I(R(30, 1), R(1024, 1)) ELSE Ln(Plus1(x))
Fn(f, x) == IF Bug = "signzero" /\ f = "arctan" /\ IsZero(x) THEN E(Zero(0))
            ELSE IF Bug = "edge" /\ f = "log1p" /\ EqOne(x) THEN E(NaN)
            ELSE IF Bug = "flush" /\ f = "exp" /\ Neg(x) THEN E(Zero(0)) ELSE Fn0(f, x)

\* laws
EqI(i, j) == Eq(i.lo, j.lo) /\ Eq(i.hi, j.hi)
IsPoint(i) == Eq(i.lo, i.hi) /\ ~IsNaN(i.lo)
Within(x, i) == ~IsNaN(i.lo) /\ Le(i.lo, x) /\ Le(x, i.hi)
Meets(i, j) == IsNaN(i.lo) \/ IsNaN(j.lo) \/ (Le(i.lo, j.hi) /\ Le(j.lo, i.hi))
Pairs == {<<"sin", "arcsin">>, <<"tan", "arctan">>, <<"sinh", "arcsinh">>, <<"exp", "log">>, <<"exp2", "log2">>, <<"expm1", "log1p">>}
Laws(f, x) ==
    LET i == Fn(f, x) IN
    /\ (IsNaN(i.lo) <=> IsNaN(i.hi)) /\ (~IsNaN(i.lo) => Le(i.lo, i.hi))
    /\ IsNaN(x) => IsNaN(i.lo)
    /\ f \in Odd => EqI(Fn(f, IF IsNaN(x) THEN x ELSE Flip(x)), NegI(i))
    /\ f \in Even => EqI(Fn(f, IF IsNaN(x) THEN x ELSE Flip(x)), i)
    /\ f \in Increasing => \A y \in XS : LessX(x, y) => LET j == Fn(f, y) IN IsNaN(i.lo) \/ IsNaN(j.lo) \/ Le(i.lo, j.hi)
    \* an exact result of one function, taken back by its inverse, is the argument (results that saturate excepted)
    /\ \A p \in Pairs : p[1] = f /\ IsPoint(i) /\ x.k = "fin" /\ i.lo.k = "fin" => Within(x, Fn(p[2], i.lo))
    /\ \A p \in Pairs : p[2] = f /\ IsPoint(i) /\ x.k = "fin" /\ i.lo.k \in {"fin", "zero"} => Within(x, Fn(p[1], i.lo))
    /\ f = "expm1" /\ ~IsNaN(x) /\ Exact(x) =>
         Meets(I(IF IsInf(i.lo) THEN i.lo ELSE Plus1(i.lo), IF IsInf(i.hi) THEN i.hi ELSE Plus1(i.hi)), Fn("exp", x))
    /\ f = "log1p" /\ Exact(x) /\ Le(R(-1, 1), x) => Meets(i, IF EqOne(x) /\ Neg(x) THEN E(Inf(1)) ELSE Fn("log", Plus1(x)))
    /\ f \in {"log2", "log10"} /\ ~IsNaN(i.lo) => ~LessX(Fn("log", x).hi, Zero(0)) \/ ~LessX(Zero(0), i.lo)
    \* positive wherever the true value is
    /\ f \in {"exp", "exp2"} /\ ~IsNaN(x) => Le(Zero(0), i.lo) /\ (x.k = "fin" => LessX(Zero(0), i.hi))
    \* the sign of a zero is kept by the functions that go through the origin
    /\ (IsZero(x) /\ IsPoint(i) /\ IsZero(i.lo)) => i.lo.s = x.s
    \* a logarithm falls to minus infinity at the edge of its domain
    /\ f \in {"log", "log2", "log10", "log1p", "arctanh"} =>
         \A y \in XS : ~IsNaN(y) /\ ~IsNaN(x) /\ LessX(y, x) /\ IsNaN(Fn(f, y).lo) /\ ~IsNaN(i.lo)
                       /\ (\A z \in XS : ~IsNaN(z) /\ LessX(y, z) /\ LessX(z, x) => IsNaN(Fn(f, z).lo)) => Eq(i.lo, Inf(1)) /\ Eq(i.hi, Inf(1))

VARIABLES f, done
Vals == SetToSeq(XS)
N == Len(Vals)
Short(x) == <<x.k, x.s, x.n, x.d>>
Out == [alphabet |-> [i \in 1..N |-> Short(Vals[i])],
        lo |-> [i \in 1..N |-> Short(Fn(f, Vals[i]).lo)], hi |-> [i \in 1..N |-> Short(Fn(f, Vals[i]).hi)]]
Init == f \in Fns /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED f /\ (Bug = "" => JsonSerialize(OutDir \o "/t-" \o f \o ".json", Out))
Spec == Init /\ [][Next]_<<f, done>>
LawsHold == done => \A x \in XS : Laws(f, x)
=============================================================================
