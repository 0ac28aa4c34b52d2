------------------------------ MODULE TinyDisasm ------------------------------
(* The listing of a program: what the text of each instruction says.        *)
(*                                                                          *)
(* A listing is a sequence of entries [p, q, ok, s]: asked for the          *)
(* instruction at p, the disassembler wrote the text s and went on to q     *)
(* (-1: the end of the program). The text is                                *)
(*     p (file:line) TAB OPERATION operands                                 *)
(* Nothing about the encoding of instructions is known here.                *)
EXTENDS TinyExec

AsciiText == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiTab == TLCEval([c \in 32..126 |-> SubSeq(AsciiText, c - 31, c - 31)])
CodesToText(s) == FoldLeft(LAMBDA n, c : n \o (IF c \in 32..126 THEN AsciiTab[c] ELSE "?"), "", s)

PlainOps == {"PUSH_NULL", "PUSH_TRUE", "PUSH_FALSE", "PUSH_0", "PUSH_1", "ADD", "SUB", "MUL", "DIV", "MOD", "OR", "AND",
             "SHIFT_LEFT", "SHIFT_RIGHT", "LT", "LTE", "GT", "GTE", "ADD1", "SUB1", "EQU", "LOG_NOT", "RETURN",
             "RETURN_VALUE", "GET_RETVAL", "HALT"}
NumberOps == {"PUSH_NULL_N", "PUSH_STRUCT", "STRUCT_GET", "STRUCT_SET", "SET", "GET", "GETLOCAL", "GETLOCAL_W", "SETLOCAL"}
JumpOps == {"GOTO", "GOTOZ"}

\* The decimal number which starts at i: [v, j] j the index after it, j = i if there is none
DecAt(s, i) ==
    LET neg == At(s, i) = 45
        b == IF neg THEN i + 1 ELSE i
        j == First(s, b, LAMBDA c : ~IsDigit(c))
        v == DigitsVal(s, b, j - 1, 10, 0)
    IN  IF j = b THEN [v |-> VU, j |-> i] ELSE [v |-> IF v.t = "U" THEN v ELSE IF neg THEN VInt(-v.i) ELSE v, j |-> j]
\* The index of the last c in s before k, 0 if there is none
LastOf(s, k, c) == LET r == SelectLastInSeq(SubSeq(s, 1, k - 1), LAMBDA x : x = c) IN r

\* n is the operand; t the target of a jump or call; f the name of a function; v the value pushed
Instr0 == [ok |-> TRUE, op |-> "?", p |-> 0, n |-> 0, i |-> 0, t |-> -1, f |-> "", v |-> VNull, file |-> "", line |-> 0]
BadInstr == [Instr0 EXCEPT !.ok = FALSE]

\* The text of a float: exact only if the listing shows all of it
FloatOf(s) ==
    LET neg == At(s, 1) = 45
        b == IF neg THEN 2 ELSE 1
        dot == SelectInSeq(s, LAMBDA c : c = 46)
        odd == \E k \in b..Len(s) : ~IsDigit(s[k]) /\ s[k] # 46
        digits == Len(s) - b + 1 - (IF dot > 0 THEN 1 ELSE 0)
        lead == IF At(s, b) = 48 THEN 1 ELSE 0     \* "0.5" shows one digit of six
        v == IF odd \/ digits - lead >= 6 THEN VX
             ELSE IF dot = 0 THEN ToF(DigitsVal(s, b, Len(s), 10, 0))
             ELSE FloatLit(s, b, Len(s), 0)
    IN  IF neg THEN FloatNeg(v) ELSE v

Operands(I, s) ==
    LET d == DecAt(s, 1)
        num == d.j > 1 /\ d.v.t = "i"
        all == d.j = Len(s) + 1
    IN  CASE I.op \in PlainOps -> IF s = << >> THEN I ELSE BadInstr
          [] I.op \in NumberOps -> IF num /\ all THEN [I EXCEPT !.n = d.v.i] ELSE BadInstr
          [] I.op \in JumpOps -> IF num /\ all THEN [I EXCEPT !.t = d.v.i] ELSE BadInstr
          [] I.op = "PUSH_INT" -> IF d.j > 1 /\ all THEN [I EXCEPT !.v = d.v] ELSE BadInstr
          [] I.op = "PUSH_CHAR" -> IF Len(s) = 3 /\ At(s, 1) = 39 /\ At(s, 3) = 39 THEN [I EXCEPT !.v = VInt(s[2])]
                                   \* a zero ends the text
                                   ELSE IF s = <<39>> THEN [I EXCEPT !.v = VInt(0)] ELSE BadInstr
          [] I.op = "PUSH_FLOAT" -> IF s # << >> THEN [I EXCEPT !.v = FloatOf(s)] ELSE BadInstr
          [] I.op \in {"PUSH_STRING", "PUSH_STRING_FF"} ->
                IF num /\ SubSeq(s, d.j, MinI(d.j + 2, Len(s))) = <<32, 40, 34>> /\ Len(s) >= d.j + 4 /\ SubSeq(s, Len(s) - 1, Len(s)) = <<34, 41>>
                THEN [I EXCEPT !.n = d.v.i, !.v = VStr(SubSeq(s, d.j + 3, Len(s) - 2))] ELSE BadInstr
          [] I.op = "CALL" ->
                LET f == DecAt(s, d.j + 1)
                    t == DecAt(s, f.j + 2)
                IN  IF num /\ At(s, d.j) = 32 /\ f.j > d.j + 1 /\ At(s, f.j) = 32 /\ At(s, f.j + 1) = 40 /\ t.j > f.j + 2
                       /\ t.j = Len(s) /\ At(s, t.j) = 41 /\ f.v.t = "i" /\ t.v.t = "i"
                    THEN [I EXCEPT !.n = d.v.i, !.i = f.v.i, !.t = t.v.i] ELSE BadInstr
          [] I.op = "CALLF" ->
                LET o == SelectInSeq(s, LAMBDA c : c = 40)
                    n == DecAt(s, o + 1)
                IN  IF o > 1 /\ n.j > o + 1 /\ n.j = Len(s) /\ At(s, n.j) = 41 /\ n.v.t = "i" /\ IsNameCodes(SubSeq(s, 1, o - 1))
                    THEN [I EXCEPT !.n = n.v.i, !.f = CodesToName(s, 1, o - 1)] ELSE BadInstr
          [] OTHER -> BadInstr

Decode(e) ==
    LET s == e.s
        tab == SelectInSeq(s, LAMBDA c : c = 9)
        p == DecAt(s, 1)
        col == LastOf(s, tab, 58)
        ln == DecAt(s, col + 1)
        sp == First(s, tab + 1, LAMBDA c : c = 32)
        op == SubSeq(s, tab + 1, sp - 1)
        I == [Instr0 EXCEPT !.p = e.p, !.op = CodesToName(op, 1, Len(op)), !.line = ln.v.i,
                            !.file = CodesToText(SubSeq(s, p.j + 2, col - 1))]
    IN  IF ~e.ok \/ tab = 0 \/ p.v # VInt(e.p) \/ At(s, p.j) # 32 \/ At(s, p.j + 1) # 40 \/ col <= p.j + 1
           \/ ln.v.t # "i" \/ ln.j # tab - 1 \/ At(s, tab - 1) # 41 \/ ~IsNameCodes(op) THEN BadInstr
        ELSE Operands(I, SubSeq(s, sp + 1, Len(s)))

\* Every instruction once and in order, from the beginning to the end
Contiguous(is) ==
    /\ is # << >> /\ is[1].p = 0
    /\ \A k \in 1..Len(is) : IF k = Len(is) THEN is[k].q = -1 ELSE is[k].q = is[k + 1].p /\ is[k].q > is[k].p

NoListing == [on |-> FALSE, raw |-> << >>]
\* at: for each address the number of the instruction which starts there, 0 if none
\* fn: entry of the functions whose address the host knows: name -> address
Listing(is, fns) ==
    LET D == [k \in 1..Len(is) |-> Decode(is[k])]
        at == FoldLeft(LAMBDA a, k : Append(a \o [x \in 1..(is[k].p - Len(a)) |-> 0], k), << >>, [k \in 1..Len(is) |-> k])
        To(t) == IF t >= 0 /\ t < Len(at) THEN at[t + 1] ELSE 0
        E == [k \in 1..Len(is) |-> [D[k] EXCEPT !.t = To(@)]]
        calls == SelectSeq(D, LAMBDA x : x.op = "CALL")
        strs == SelectSeq(D, LAMBDA x : x.op \in {"PUSH_STRING", "PUSH_STRING_FF"})
        entry == FoldLeft(LAMBDA m, x : IF x.i \in DOMAIN m THEN m ELSE Put(m, x.i, x.t), EmptyMap, calls)
        text == FoldLeft(LAMBDA m, x : IF x.n \in DOMAIN m THEN m ELSE Put(m, x.n, x.v), EmptyMap, strs)
        known == SelectSeq(fns, LAMBDA f : f[2] \in DOMAIN entry)
    IN  [on |-> TRUE, is |-> E, raw |-> is,
         ok |-> /\ \A k \in 1..Len(is) : D[k].ok
                \* jumps and calls go to instructions
                /\ \A k \in 1..Len(is) : D[k].op \in JumpOps \cup {"CALL"} => E[k].t > 0
                \* a number stands for one function and one string
                /\ \A k \in 1..Len(calls) : entry[calls[k].i] = calls[k].t
                /\ \A k \in 1..Len(strs) : text[strs[k].n] = strs[k].v,
         fn |-> FoldLeft(LAMBDA m, f : Put(m, f[1], To(entry[f[2]])), EmptyMap, known)]
=============================================================================
