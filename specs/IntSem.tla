------------------------------- MODULE IntSem -------------------------------
(* The integer operations of NumPy on two's complement numbers of 8, 16, 32 and 64 bits.
   The numbers of TLC have 32 bits, so a number is here a sequence of bytes, least significant first.
   An independent definition over TLC's own numbers (MathBin) is used to check this one exhaustively for 8 bits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Byte == 0..255
B(x) == Len(x)
Const(b, v) == [i \in 1..b |-> IF i = 1 THEN v ELSE 0]      \* 0 <= v <= 255
Zero(b) == Const(b, 0)
One(b) == Const(b, 1)
AllOnes(b) == [i \in 1..b |-> 255]
MinS(b) == [i \in 1..b |-> IF i = b THEN 128 ELSE 0]
Neg(x) == x[Len(x)] >= 128
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0

RECURSIVE AddC(_, _, _, _)
AddC(x, y, i, c) == IF i > Len(x) THEN <<>>          \* the carry into every byte
                    ELSE LET s == (x[i] + y[i] + c) \div 256 IN <<s>> \o AddC(x, y, i + 1, s)
Add(x, y) == LET c == AddC(x, y, 1, 0) IN [i \in 1..Len(x) |-> (x[i] + y[i] + IF i = 1 THEN 0 ELSE c[i - 1]) % 256]
NotL(x) == [i \in 1..Len(x) |-> 255 - x[i]]
Minus(x) == Add(NotL(x), One(Len(x)))
Sub(x, y) == Add(x, Minus(y))
Shift8(x, k) == [i \in 1..Len(x) |-> IF i > k THEN x[i - k] ELSE 0]       \* by whole bytes, to the left

RECURSIVE MulByte(_, _, _, _)
MulByte(x, d, i, c) == IF i > Len(x) THEN <<>>
                       ELSE LET s == x[i] * d + c IN <<s % 256>> \o MulByte(x, d, i + 1, s \div 256)
RECURSIVE MulFrom(_, _, _)
MulFrom(x, y, k) == IF k > Len(y) THEN Zero(Len(x))
                    ELSE Add(Shift8(MulByte(x, y[k], 1, 0), k - 1), MulFrom(x, y, k + 1))
Mul(x, y) == MulFrom(x, y, 1)

RECURSIVE CmpU(_, _, _)
CmpU(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE CmpU(x, y, i - 1)
LtU(x, y) == CmpU(x, y, Len(x)) = -1
Flip(x) == [x EXCEPT ![Len(x)] = (@ + 128) % 256]
LtS(x, y) == LtU(Flip(x), Flip(y))
Lt(sg, x, y) == IF sg THEN LtS(x, y) ELSE LtU(x, y)

Bit(x, n) == (x[(n \div 8) + 1] \div (2 ^ (n % 8))) % 2
\* <<x * 2 + bit, bit shifted out>>
RECURSIVE DblC(_, _, _)
DblC(x, i, c) == IF i > Len(x) THEN <<>> ELSE LET s == 2 * x[i] + c IN <<s % 256>> \o DblC(x, i + 1, s \div 256)
Dbl(x, c) == DblC(x, 1, c)

\* long division of unsigned numbers, one bit at a time; one more byte so that the remainder cannot overflow
RECURSIVE DivBits(_, _, _, _, _)
DivBits(x, y, n, q, r) ==
    IF n < 0 THEN <<q, r>>
    ELSE LET r2 == Dbl(r, Bit(x, n))
             ge == ~LtU(r2, y)
         IN DivBits(x, y, n - 1, Dbl(q, IF ge THEN 1 ELSE 0), IF ge THEN Sub(r2, y) ELSE r2)
Wide(x) == x \o <<0>>
Narrow(x) == SubSeq(x, 1, Len(x) - 1)
DivModU(x, y) == LET d == DivBits(x, Wide(y), 8 * Len(x) - 1, Zero(Len(x)), Zero(Len(x) + 1)) IN <<d[1], Narrow(d[2])>>
AbsV(x) == IF Neg(x) THEN Minus(x) ELSE x        \* magnitude, as an unsigned number

\* division rounds to minus infinity, the remainder has the sign of the divisor; by zero both give 0
DivMod(sg, x, y) ==
    IF IsZero(y) THEN <<Zero(Len(x)), Zero(Len(x))>>
    ELSE IF ~sg THEN DivModU(x, y)
    ELSE LET d == DivModU(AbsV(x), AbsV(y))
             opp == Neg(x) # Neg(y)
             exact == IsZero(d[2])
             q == IF opp THEN IF exact THEN Minus(d[1]) ELSE Sub(Minus(d[1]), One(Len(x))) ELSE d[1]
             m == IF exact THEN d[2] ELSE IF opp THEN Sub(AbsV(y), d[2]) ELSE d[2]
         IN <<q, IF Neg(y) THEN Minus(m) ELSE m>>
FloorDiv(sg, x, y) == DivMod(sg, x, y)[1]
Rem(sg, x, y) == DivMod(sg, x, y)[2]

RECURSIVE PowBits(_, _, _, _)
PowBits(x, y, n, acc) == IF n < 0 THEN acc
                         ELSE LET s == Mul(acc, acc) IN PowBits(x, y, n - 1, IF Bit(y, n) = 1 THEN Mul(s, x) ELSE s)
Power(x, y) == PowBits(x, y, 7, One(Len(x)))      \* for exponents of one byte

BitOp(x, y, f(_, _)) == [i \in 1..Len(x) |-> f(x[i], y[i])]
AndB(a, b) == a & b
OrB(a, b) == a | b
XorB(a, b) == a ^^ b
AndL(x, y) == BitOp(x, y, AndB)
OrL(x, y) == BitOp(x, y, OrB)
XorL(x, y) == BitOp(x, y, XorB)

\* the shift count as a small number: >= width when it does not fit (negative counts are huge ones)
Count(y) == IF \A i \in 2..Len(y) : y[i] = 0 THEN y[1] ELSE 999
FromBits(b, f(_)) ==         \* a number of b bytes from its bits
    [n \in 1..b |-> f(8*n-8) + 2*f(8*n-7) + 4*f(8*n-6) + 8*f(8*n-5) + 16*f(8*n-4) + 32*f(8*n-3) + 64*f(8*n-2) + 128*f(8*n-1)]
Shl(x, y) == LET c == Count(y) w == 8 * Len(x) bit(n) == IF n < c \/ c >= w THEN 0 ELSE Bit(x, n - c)
             IN FromBits(Len(x), bit)
Shr(sg, x, y) == LET c == Count(y) w == 8 * Len(x) fill == IF sg /\ Neg(x) THEN 1 ELSE 0
                     bit(n) == IF n + c >= w THEN fill ELSE Bit(x, n + c)
                 IN FromBits(Len(x), bit)

Bool(p) == <<IF p THEN 1 ELSE 0>>
MinOp(sg, x, y) == IF Lt(sg, y, x) THEN y ELSE x
MaxOp(sg, x, y) == IF Lt(sg, x, y) THEN y ELSE x
Sign(sg, x) == IF IsZero(x) THEN x ELSE IF sg /\ Neg(x) THEN AllOnes(Len(x)) ELSE One(Len(x))
Absolute(sg, x) == IF sg THEN AbsV(x) ELSE x
\* the integer reciprocal is the truncated 1/x: nothing but 1 and -1 have one; that of 0 is not defined
Recip(sg, x) == IF x = One(Len(x)) \/ (sg /\ x = AllOnes(Len(x))) THEN x ELSE Zero(Len(x))

BinOp(op, sg, x, y) ==
    CASE op = "add" -> Add(x, y)
      [] op = "subtract" -> Sub(x, y)
      [] op = "multiply" -> Mul(x, y)
      [] op = "floor_divide" -> FloorDiv(sg, x, y)
      [] op = "remainder" -> Rem(sg, x, y)
      [] op = "power" -> Power(x, y)
      [] op = "minimum" -> MinOp(sg, x, y)
      [] op = "maximum" -> MaxOp(sg, x, y)
      [] op = "bitwise_and" -> AndL(x, y)
      [] op = "bitwise_or" -> OrL(x, y)
      [] op = "bitwise_xor" -> XorL(x, y)
      [] op = "left_shift" -> Shl(x, y)
      [] op = "right_shift" -> Shr(sg, x, y)
      [] op = "equal" -> Bool(x = y)
      [] op = "not_equal" -> Bool(x # y)
      [] op = "less" -> Bool(Lt(sg, x, y))
      [] op = "less_equal" -> Bool(~Lt(sg, y, x))
      [] op = "greater" -> Bool(Lt(sg, y, x))
      [] op = "greater_equal" -> Bool(~Lt(sg, x, y))
      [] op = "logical_and" -> Bool(~IsZero(x) /\ ~IsZero(y))
      [] op = "logical_or" -> Bool(~IsZero(x) \/ ~IsZero(y))
Defined2(op, sg, x, y) == op = "power" => ~(sg /\ Neg(y)) /\ Count(y) <= 255
UnOp(op, sg, x) ==
    CASE op = "absolute" -> Absolute(sg, x)
      [] op = "negative" -> Minus(x)
      [] op = "positive" -> x
      [] op = "sign" -> Sign(sg, x)
      [] op = "square" -> Mul(x, x)
      [] op = "reciprocal" -> Recip(sg, x)
      [] op = "invert" -> NotL(x)
      [] op = "logical_not" -> Bool(IsZero(x))
      [] op = "isnan" -> Bool(FALSE)
      [] op = "isinf" -> Bool(FALSE)
      [] op = "isfinite" -> Bool(TRUE)
Defined1(op, sg, x) == op = "reciprocal" => ~IsZero(x)

----------------------------------------------------------------------------
(* The same for 8 bits, over numbers: what the words of the NumPy documentation say. *)
ToS(v) == ((v + 128) % 256) - 128
Wrap(sg, v) == IF sg THEN ToS(v) ELSE v % 256
Val(sg, x) == IF sg THEN ToS(x[1]) ELSE x[1]
Enc(v) == <<v % 256>>
AbsI(v) == IF v < 0 THEN -v ELSE v
FloorD(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)      \* TLC's \div rounds down for a positive divisor
RECURSIVE PowI(_, _, _)
PowI(sg, a, b) == IF b = 0 THEN 1 ELSE LET h == PowI(sg, a, b \div 2) q == Wrap(sg, h * h) IN IF b % 2 = 1 THEN Wrap(sg, q * a) ELSE q
RECURSIVE Half(_, _)
Half(a, k) == IF k = 0 THEN a ELSE Half(FloorD(a, 2), k - 1)
MathBin(op, sg, a, b) ==
    CASE op = "add" -> Wrap(sg, a + b)
      [] op = "subtract" -> Wrap(sg, a - b)
      [] op = "multiply" -> Wrap(sg, a * b)
      [] op = "floor_divide" -> IF b = 0 THEN 0 ELSE Wrap(sg, FloorD(a, b))
      [] op = "remainder" -> IF b = 0 THEN 0 ELSE a - b * FloorD(a, b)
      [] op = "minimum" -> IF a < b THEN a ELSE b
      [] op = "maximum" -> IF a > b THEN a ELSE b
      [] op = "left_shift" -> IF b < 0 \/ b > 7 THEN 0 ELSE Wrap(sg, a * 2 ^ b)
      [] op = "right_shift" -> Half(a, IF b < 0 \/ b > 8 THEN 8 ELSE b)
      [] op = "equal" -> IF a = b THEN 1 ELSE 0
      [] op = "not_equal" -> IF a # b THEN 1 ELSE 0
      [] op = "less" -> IF a < b THEN 1 ELSE 0
      [] op = "less_equal" -> IF a <= b THEN 1 ELSE 0
      [] op = "greater" -> IF a > b THEN 1 ELSE 0
      [] op = "greater_equal" -> IF a >= b THEN 1 ELSE 0
      [] op = "logical_and" -> IF a # 0 /\ b # 0 THEN 1 ELSE 0
      [] op = "logical_or" -> IF a # 0 \/ b # 0 THEN 1 ELSE 0
      [] op = "bitwise_and" -> Wrap(sg, (a % 256) & (b % 256))
      [] op = "bitwise_or" -> Wrap(sg, (a % 256) | (b % 256))
      [] op = "bitwise_xor" -> Wrap(sg, (a % 256) ^^ (b % 256))
      [] op = "power" -> IF b < 0 THEN 0 ELSE PowI(sg, a, b)
MathUn(op, sg, a) ==
    CASE op = "absolute" -> Wrap(sg, AbsI(a))
      [] op = "negative" -> Wrap(sg, -a)
      [] op = "positive" -> a
      [] op = "sign" -> IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
      [] op = "square" -> Wrap(sg, a * a)
      [] op = "reciprocal" -> IF AbsI(a) = 1 THEN a ELSE 0
      [] op = "invert" -> Wrap(sg, -a - 1)
      [] op = "logical_not" -> IF a = 0 THEN 1 ELSE 0
      [] op = "isnan" -> 0
      [] op = "isinf" -> 0
      [] op = "isfinite" -> 1
BoolOps == {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "logical_and", "logical_or"}
BinOps == BoolOps \cup {"add", "subtract", "multiply", "floor_divide", "remainder", "power", "minimum", "maximum",
          "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"}
UnOps == {"absolute", "negative", "positive", "sign", "square", "reciprocal", "invert", "logical_not", "isnan", "isinf", "isfinite"}
\* the two definitions agree (checked for every pair of bytes)
Agree2(op, sg, x, y) == Defined2(op, sg, x, y)
    => BinOp(op, sg, x, y) = Enc(MathBin(op, sg, Val(sg, x), Val(sg, y)))
Agree1(op, sg, x) == UnOp(op, sg, x) = Enc(MathUn(op, sg, Val(sg, x)))
\* laws for any width
Laws(sg, x, y) ==
    /\ Add(x, y) = Add(y, x)
    /\ Mul(x, y) = Mul(y, x)
    /\ Sub(Add(x, y), y) = x
    /\ Mul(x, Sub(y, One(Len(x)))) = Sub(Mul(x, y), x)
    /\ ~IsZero(y) => /\ Add(Mul(FloorDiv(sg, x, y), y), Rem(sg, x, y)) = x
                     /\ IsZero(Rem(sg, x, y)) \/ (sg => Neg(Rem(sg, x, y)) = Neg(y))
                     /\ LtU(IF sg THEN AbsV(Rem(sg, x, y)) ELSE Rem(sg, x, y), IF sg THEN AbsV(y) ELSE y)
    /\ {MinOp(sg, x, y), MaxOp(sg, x, y)} = {x, y}
    /\ ~Lt(sg, MaxOp(sg, x, y), MinOp(sg, x, y))
    /\ Cardinality({r \in {"less", "equal", "greater"} : BinOp(r, sg, x, y) = <<1>>}) = 1
    /\ OrL(AndL(x, y), AndL(x, NotL(y))) = x
    /\ XorL(XorL(x, y), y) = x
    /\ Add(AndL(x, y), OrL(x, y)) = Add(x, y)
    /\ Minus(x) = Add(NotL(x), One(Len(x)))
=============================================================================
