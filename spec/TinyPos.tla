------------------------------- MODULE TinyPos -----------------------------
(* Places in a text: lines, columns, and how an error names a place.        *)
(* Texts are sequences of byte codes; a place is the number of bytes before *)
(* it.                                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

LF == 10
\* Lines before a place, from 0, and the place in its line, from 0
LineAt(t, i) == Cardinality({j \in 1..i : t[j] = LF})
ColAt(t, i) == i - Max({0} \cup {j \in 1..i : t[j] = LF})

\* The same for all places of a text at once
AllPlaces(t) ==
    FoldLeft(LAMBDA a, c : LET n == IF c = LF THEN <<a.p[1] + 1, 0>> ELSE <<a.p[1], a.p[2] + 1>>
                           IN  [p |-> n, ps |-> Append(a.ps, a.p)],
             [p |-> <<0, 0>>, ps |-> << >>], t).ps

\* The two agree
ASSUME \A n \in 0..5 : \A t \in [1..n -> {LF, 97}] :
          AllPlaces(t) = [i \in 1..n |-> <<LineAt(t, i - 1), ColAt(t, i - 1)>>]

-----------------------------------------------------------------------------
(* The message of an error at a place: the lines around it, numbered from 1 *)
(* and the one with the place marked; the file and the line; then what is   *)
(* wrong.                                                                   *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Around == 3
CutNul(t) == LET z == SelectInSeq(t, LAMBDA c : c = 0) IN IF z = 0 THEN t ELSE SubSeq(t, 1, z - 1)

MessageHead(t0, at, file) ==
    LET t  == CutNul(t0)
        nl == SetToSortSeq({i \in 1..Len(t) : t[i] = LF}, LAMBDA a, b : a < b)
        L  == 1 + LineAt(t, at)
        N  == Len(nl)
        St(k) == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
        En(k) == IF k <= N THEN nl[k] ELSE Len(t)
        \* a line which is empty and has no end is no line
        Shown == {k \in (L - Around)..(L + Around) : k >= 1 /\ k <= N + 1 /\ St(k) <= Len(t)}
        Show(k) == Dec(k) \o (IF k = L THEN <<32, 45, 62, 9>> ELSE <<9>>) \o SubSeq(t, St(k), En(k))
    IN  <<LF>> \o FoldLeft(LAMBDA a, k : a \o Show(k), << >>, SetToSortSeq(Shown, LAMBDA a, b : a < b))
        \o <<LF, 69, 82, 82, 79, 82, 32>> \o file \o <<40>> \o Dec(L) \o <<41, 58, 32>>

\* A message m in a buffer of size sz for an error at a place of t. A message which is too long is cut off.
MessageOk(m, sz, t, at, file) ==
    LET h == TLCEval(MessageHead(t, at, file))
    IN  IF Len(h) >= sz - 1 THEN m = SubSeq(h, 1, sz - 1)
        ELSE /\ Len(m) > Len(h) /\ Len(m) <= sz - 1
             /\ SubSeq(m, 1, Len(h)) = h
             /\ (Len(m) < sz - 1 => m[Len(m)] = LF)
=============================================================================
