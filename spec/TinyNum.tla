------------------------------ MODULE TinyNum ------------------------------
(* Values and exact arithmetic of the Tiny language.                         *)
(*                                                                           *)
(* A value is a record tagged by t:                                          *)
(*   n null | b bool (b) | i int (i) | I wide int (g sign, d base-10^4       *)
(*   digits, least significant first) | f float (m * 2^-e, m odd; zero is    *)
(*   m=0,e=0 and negative zero m=0,e=1) | x float whose exact value is not   *)
(*   represented here | s string (byte codes) | S struct (a address) |       *)
(*   N native object (a address) | L light native (l payload value)          *)
(*   U unspecified: the operation has no prescribed result (it traps, is     *)
(*   undefined in C, or is outside of what this module represents)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

MAXI == 2147483647

VNull  == [t |-> "n"]
VBool(x) == [t |-> "b", b |-> x]
VInt(x)  == [t |-> "i", i |-> x]      \* requires |x| <= MAXI
VStr(x)  == [t |-> "s", s |-> x]
VU     == [t |-> "U"]
VX     == [t |-> "x"]
VTrue  == VBool(TRUE)
VFalse == VBool(FALSE)

IsU(v) == v.t = "U"
IsIntV(v)   == v.t = "i" \/ v.t = "I"
IsFloatV(v) == v.t = "f" \/ v.t = "x"
IsNumV(v)   == IsIntV(v) \/ IsFloatV(v)
IsStrV(v)   == v.t = "s"

AbsI(x) == IF x < 0 THEN -x ELSE x
SgnI(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Magnitudes: little endian base 10^4 digit sequences without leading zeros *)
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN << >> ELSE <<n % 10000>> \o MagOf(n \div 10000)

MagAt(d, k) == IF k <= Len(d) THEN d[k] ELSE 0

RECURSIVE MagTrim(_)
MagTrim(d) == IF d = << >> THEN d
              ELSE IF d[Len(d)] = 0 THEN MagTrim(SubSeq(d, 1, Len(d) - 1)) ELSE d

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, k) == IF k = 0 THEN 0
                       ELSE IF a[k] # b[k] THEN (IF a[k] < b[k] THEN -1 ELSE 1)
                       ELSE MagCmpFrom(a, b, k - 1)
MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE MagCmpFrom(a, b, Len(a))

RECURSIVE MagAddR(_, _, _, _)
MagAddR(a, b, k, c) ==
    IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET s == MagAt(a, k) + MagAt(b, k) + c
         IN  <<s % 10000>> \o MagAddR(a, b, k + 1, s \div 10000)
MagAdd(a, b) == MagAddR(a, b, 1, 0)

RECURSIVE MagSubR(_, _, _, _)
MagSubR(a, b, k, c) ==      \* a >= b
    IF k > Len(a) THEN << >>
    ELSE LET s == a[k] - MagAt(b, k) - c
         IN  <<(s + 10000) % 10000>> \o MagSubR(a, b, k + 1, IF s < 0 THEN 1 ELSE 0)
MagSub(a, b) == MagTrim(MagSubR(a, b, 1, 0))

RECURSIVE MagMul1(_, _, _, _)
MagMul1(a, x, k, c) ==
    IF k > Len(a) THEN MagOf(c)
    ELSE LET s == a[k] * x + c
         IN  <<s % 10000>> \o MagMul1(a, x, k + 1, s \div 10000)
RECURSIVE MagMul(_, _)
MagMul(a, b) ==
    IF b = << >> \/ a = << >> THEN << >>
    ELSE MagTrim(MagAdd(MagMul1(a, b[1], 1, 0), IF Len(b) = 1 THEN << >> ELSE <<0>> \o MagMul(a, Tail(b))))

RECURSIVE MagDivR(_, _, _, _)
MagDivR(a, x, k, r) ==      \* a div x for 0 < x <= 200000, most significant first
    IF k = 0 THEN << >>
    ELSE LET s == r * 10000 + a[k]
         IN  Append(MagDivR(a, x, k - 1, s % x), s \div x)
RECURSIVE MagModR(_, _, _, _)
MagModR(a, x, k, r) == IF k = 0 THEN r ELSE MagModR(a, x, k - 1, (r * 10000 + a[k]) % x)

MagMaxI == MagOf(MAXI)
Mag63   == <<5807, 5477, 3685, 3720, 922>>       \* 2^63 - 1

RECURSIVE MagToI(_)
MagToI(d) == IF d = << >> THEN 0 ELSE d[1] + 10000 * MagToI(Tail(d))

\* The int value with sign g and magnitude d; U beyond 64 bits
BigV(g, d) ==
    IF MagCmp(d, MagMaxI) <= 0 THEN VInt(g * MagToI(d))
    ELSE IF MagCmp(d, Mag63) > 0 THEN VU
    ELSE [t |-> "I", g |-> g, d |-> d]

SignOf(v) == IF v.t = "i" THEN (IF v.i < 0 THEN -1 ELSE 1) ELSE v.g
MagV(v)   == IF v.t = "i" THEN MagOf(AbsI(v.i)) ELSE v.d

BigAdd(a, b) ==
    IF SignOf(a) = SignOf(b) THEN BigV(SignOf(a), MagAdd(MagV(a), MagV(b)))
    ELSE LET c == MagCmp(MagV(a), MagV(b))
         IN  IF c = 0 THEN VInt(0)
             ELSE IF c > 0 THEN BigV(SignOf(a), MagSub(MagV(a), MagV(b)))
             ELSE BigV(SignOf(b), MagSub(MagV(b), MagV(a)))
BigMul(a, b) == BigV(SignOf(a) * SignOf(b), MagMul(MagV(a), MagV(b)))

NegI(v) == IF v.t = "i" THEN VInt(-(v.i)) ELSE [v EXCEPT !.g = -(v.g)]

AddFits(x, y) == IF y >= 0 THEN x <= MAXI - y ELSE x >= -MAXI - y
MulFits(x, y) == x = 0 \/ y = 0 \/ AbsI(y) <= MAXI \div AbsI(x)

IntAdd(a, b) == IF a.t = "i" /\ b.t = "i" /\ AddFits(a.i, b.i) THEN VInt(a.i + b.i) ELSE BigAdd(a, b)
IntSub(a, b) == IntAdd(a, NegI(b))
IntMul(a, b) == IF a.t = "i" /\ b.t = "i" /\ MulFits(a.i, b.i) THEN VInt(a.i * b.i) ELSE BigMul(a, b)
IntDiv(a, b) ==   \* truncates toward zero
    IF b.t = "i" /\ b.i = 0 THEN VU
    ELSE IF a.t = "i" /\ b.t = "i"
         THEN VInt(SgnI(a.i) * SgnI(b.i) * (AbsI(a.i) \div AbsI(b.i)))
    ELSE IF MagCmp(MagV(a), MagV(b)) < 0 THEN VInt(0)
    ELSE IF b.t = "i" /\ AbsI(b.i) <= 200000
         THEN BigV(SignOf(a) * SignOf(b), MagTrim(MagDivR(MagV(a), AbsI(b.i), Len(MagV(a)), 0)))
    ELSE VU
IntCmp(a, b) ==   \* -1, 0, 1
    IF a.t = "i" /\ b.t = "i" THEN (IF a.i < b.i THEN -1 ELSE IF a.i > b.i THEN 1 ELSE 0)
    ELSE IF SignOf(a) # SignOf(b) THEN SignOf(a)
    ELSE SignOf(a) * MagCmp(MagV(a), MagV(b))

-----------------------------------------------------------------------------
(* Operations whose result is truncated to 32 bits: % & | << >>              *)
IntMod(a, b) ==
    IF b.t # "i" \/ b.i = 0 THEN VU
    ELSE IF a.t = "i" THEN VInt(SgnI(a.i) * (AbsI(a.i) % AbsI(b.i)))
    ELSE IF AbsI(b.i) <= 200000 THEN VInt(a.g * MagModR(a.d, AbsI(b.i), Len(a.d), 0))
    ELSE VU

BNot(x) == -x - 1
\* Operands are at most MAXI in magnitude; both negative: -BNeg - 1
BNeg(x, y) == BNot(x) | BNot(y)
BAnd(x, y) == IF x >= 0 /\ y >= 0 THEN x & y
              ELSE IF x >= 0 THEN x - (x & BNot(y))
              ELSE IF y >= 0 THEN y - (y & BNot(x))
              ELSE BNot(BNeg(x, y))
BOr(x, y)  == IF x >= 0 /\ y >= 0 THEN x | y
              ELSE IF x >= 0 THEN BNot(BNot(y) - (BNot(y) & x))
              ELSE IF y >= 0 THEN BNot(BNot(x) - (BNot(x) & y))
              ELSE BNot(BNot(x) & BNot(y))
\* -2^31 is the one 32-bit int outside of the small range
MinInt32 == [t |-> "I", g |-> -1, d |-> <<3648, 4748, 21>>]
IntAnd(a, b) == IF a.t # "i" \/ b.t # "i" THEN VU
                ELSE IF a.i < 0 /\ b.i < 0 /\ BNeg(a.i, b.i) = MAXI THEN MinInt32
                ELSE VInt(BAnd(a.i, b.i))
IntOr(a, b)  == IF a.t = "i" /\ b.t = "i" THEN VInt(BOr(a.i, b.i)) ELSE VU

Pow2 == [k \in 0..30 |-> 2 ^ k]
IntShl(a, b) ==
    IF a.t # "i" \/ b.t # "i" \/ b.i < 0 \/ b.i > 63 THEN VU
    ELSE IF b.i = 0 THEN a
    ELSE IF b.i >= 32 THEN VInt(0)
    ELSE LET low == IF b.i = 31 THEN 0 ELSE (a.i % Pow2[31 - b.i]) * Pow2[b.i]
             neg == (IF b.i = 31 THEN a.i ELSE a.i \div Pow2[31 - b.i]) % 2 = 1
         IN  IF ~neg THEN VInt(low)
             ELSE IF low = 0 THEN MinInt32 ELSE VInt((low - MAXI) - 1)
IntShr(a, b) ==
    IF a.t # "i" \/ b.t # "i" \/ b.i < 0 \/ b.i > 63 THEN VU
    ELSE IF b.i >= 31 THEN VInt(IF a.i < 0 THEN -1 ELSE 0)
    ELSE VInt(a.i \div Pow2[b.i])

-----------------------------------------------------------------------------
(* Floats: exact dyadic rationals while they fit, otherwise VX               *)
RECURSIVE NormF(_, _)
NormF(m, e) == IF m = 0 THEN [t |-> "f", m |-> 0, e |-> 0]
               ELSE IF m % 2 = 0 THEN NormF(m \div 2, e - 1)
               ELSE IF AbsI(e) > 200 THEN VX
               ELSE [t |-> "f", m |-> m, e |-> e]
FNegZero == [t |-> "f", m |-> 0, e |-> 1]
FZero    == [t |-> "f", m |-> 0, e |-> 0]
\* m * 2^k if it fits, else 0
ShlFits(m, k) == k <= 30 /\ MulFits(m, Pow2[k])

ToF(v) == IF v.t = "i" THEN NormF(v.i, 0) ELSE IF v.t = "I" THEN VX ELSE v

FloatAdd(a, b) ==
    IF a.t = "x" \/ b.t = "x" THEN VX
    ELSE IF a.m = 0 THEN (IF b.m = 0 THEN (IF a.e = 1 /\ b.e = 1 THEN a ELSE FZero) ELSE b)
    ELSE IF b.m = 0 THEN a
    ELSE LET e  == MaxI(a.e, b.e)
         IN  IF ~ShlFits(a.m, e - a.e) \/ ~ShlFits(b.m, e - b.e) THEN VX
             ELSE LET x == a.m * Pow2[e - a.e]
                      y == b.m * Pow2[e - b.e]
                  IN  IF AddFits(x, y) THEN NormF(x + y, e) ELSE VX
FloatNeg(a) == IF a.t = "x" THEN a
               ELSE IF a.m = 0 THEN (IF a.e = 1 THEN FZero ELSE FNegZero)
               ELSE [a EXCEPT !.m = -(a.m)]
FloatSub(a, b) == FloatAdd(a, FloatNeg(b))
FNeg(a) == a.m < 0 \/ (a.m = 0 /\ a.e = 1)
FloatMul(a, b) ==
    IF a.t = "x" \/ b.t = "x" THEN VX
    ELSE IF a.m = 0 \/ b.m = 0 THEN (IF FNeg(a) # FNeg(b) THEN FNegZero ELSE FZero)
    ELSE IF MulFits(a.m, b.m) THEN NormF(a.m * b.m, a.e + b.e) ELSE VX
FloatDiv(a, b) ==
    IF a.t = "x" \/ b.t = "x" THEN VX
    ELSE IF b.m = 0 THEN VX
    ELSE IF a.m = 0 THEN (IF FNeg(a) # FNeg(b) THEN FNegZero ELSE FZero)
    ELSE IF AbsI(a.m) % AbsI(b.m) = 0
         THEN NormF(SgnI(a.m) * SgnI(b.m) * (AbsI(a.m) \div AbsI(b.m)), a.e - b.e)
    ELSE VX
\* -1, 0, 1; 2 if not decidable here
FloatCmp(a, b) ==
    IF a.t = "x" \/ b.t = "x" THEN 2
    ELSE IF SgnI(a.m) # SgnI(b.m) THEN (IF SgnI(a.m) < SgnI(b.m) THEN -1 ELSE 1)
    ELSE IF a.m = 0 THEN 0
    ELSE LET e == MaxI(a.e, b.e)
         IN  IF ~ShlFits(a.m, e - a.e)
             THEN SgnI(a.m)       \* |a| is larger: its scaled mantissa needs more bits than b's
             ELSE IF ~ShlFits(b.m, e - b.e) THEN -SgnI(a.m)
             ELSE LET x == a.m * Pow2[e - a.e]
                      y == b.m * Pow2[e - b.e]
                  IN  IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* The binary operators on values; U when the operands have no such result   *)
Arith(op, a, b) ==
    IF ~IsNumV(a) \/ ~IsNumV(b) THEN VU
    ELSE IF IsIntV(a) /\ IsIntV(b)
         THEN CASE op = "+" -> IntAdd(a, b)
                [] op = "-" -> IntSub(a, b)
                [] op = "*" -> IntMul(a, b)
                [] op = "/" -> IntDiv(a, b)
    ELSE CASE op = "+" -> FloatAdd(ToF(a), ToF(b))
           [] op = "-" -> FloatSub(ToF(a), ToF(b))
           [] op = "*" -> FloatMul(ToF(a), ToF(b))
           [] op = "/" -> FloatDiv(ToF(a), ToF(b))
IntOp(op, a, b) ==
    IF ~IsIntV(a) \/ ~IsIntV(b) THEN VU
    ELSE CASE op = "%"  -> IntMod(a, b)
           [] op = "&"  -> IntAnd(a, b)
           [] op = "|"  -> IntOr(a, b)
           [] op = "<<" -> IntShl(a, b)
           [] op = ">>" -> IntShr(a, b)
Rel(op, a, b) ==
    IF ~IsNumV(a) \/ ~IsNumV(b) THEN VU
    ELSE LET c == IF IsIntV(a) /\ IsIntV(b) THEN IntCmp(a, b) ELSE FloatCmp(ToF(a), ToF(b))
         IN  IF c = 2 THEN VU
             ELSE CASE op = "<"  -> VBool(c < 0)
                    [] op = ">"  -> VBool(c > 0)
                    [] op = "<=" -> VBool(c <= 0)
                    [] op = ">=" -> VBool(c >= 0)
=============================================================================
