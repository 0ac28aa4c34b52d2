--------------------------- MODULE TinyContainers --------------------------
(* The containers of the C interface: what they hold and what every         *)
(* operation does to it.                                                    *)
(*                                                                          *)
(* An object is [k |-> "array", c |-> sequence of values],                  *)
(* [k |-> "dict", c |-> function from keys to values], or                   *)
(* [k |-> "arena", c |-> set of blocks]. Values and keys are codes of the   *)
(* driver (harness/tinyc.c). A block is [m, o, n]: the number of the memory *)
(* block it lies in, its offset there and its size.                         *)
(*                                                                          *)
(* Which blocks an arena hands out is its own choice, within AllocOk.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

None == [k |-> "none", c |-> << >>]
NoResult == -1000

\* Two strings with the same bytes are the same key
Key(x) == IF x >= 200 /\ x < 300 THEN x - 100 ELSE x

Arr(c)  == [k |-> "array", c |-> c]
Dct(f)  == [k |-> "dict", c |-> f]
EmptyF  == [x \in {} |-> 0]
With(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

\* Whether an operation may be used: o is the name, i an index, length or key, v a value, vs values
Enabled(s, o, i, v, vs) ==
    CASE o \in {"ainit", "dinit", "rinit"} -> s.k = "none"
      [] o \in {"apush", "aclear", "afree"} -> s.k = "array"
      [] o \in {"apop", "ashift"} -> s.k = "array" /\ s.c # << >>
      [] o \in {"ains", "adel", "aset", "aget", "aput"} -> s.k = "array" /\ i >= 0 /\ i < Len(s.c)
      [] o = "asize" -> s.k = "array" /\ i >= 0
      [] o \in {"dset", "dget", "ddel", "dclear", "dfree"} -> s.k = "dict"
      [] o \in {"ralloc", "rfree"} -> s.k = "arena"
      [] OTHER -> FALSE

\* The object after the operation (arrays and dictionaries)
After(s, o, i, v, vs) ==
    LET c == s.c
    IN
    CASE o = "ainit" -> Arr(vs)
      [] o = "apush" -> Arr(Append(c, v))
      [] o = "apop"  -> Arr(Front(c))
      [] o = "ashift" -> Arr(Tail(c))
      [] o = "ains" -> Arr(SubSeq(c, 1, i) \o <<v>> \o SubSeq(c, i + 1, Len(c)))
      [] o = "adel" -> Arr(SubSeq(c, 1, i) \o SubSeq(c, i + 2, Len(c)))
      [] o \in {"aset", "aput"} -> Arr([c EXCEPT ![i + 1] = v])
      [] o = "asize" -> Arr([j \in 1..i |-> IF j <= Len(c) THEN c[j] ELSE v])
      [] o = "aclear" -> Arr(<< >>)
      [] o = "dinit" -> Dct(EmptyF)
      [] o = "dset" -> Dct(With(c, Key(i), v))
      [] o = "ddel" -> Dct(Without(c, Key(i)))
      [] o = "dclear" -> Dct(EmptyF)
      [] o \in {"afree", "dfree", "rfree"} -> None
      [] o = "rinit" -> [k |-> "arena", c |-> {}]
      [] OTHER -> s

\* What the operation returns
Result(s, o, i) ==
    CASE o = "apop" -> s.c[Len(s.c)]
      [] o = "ashift" -> s.c[1]
      [] o = "aget" -> s.c[i + 1]
      [] o = "dget" -> IF Key(i) \in DOMAIN s.c THEN s.c[Key(i)] ELSE NoResult
      [] OTHER -> NoResult

-----------------------------------------------------------------------------
(* Arenas                                                                   *)
Disjoint(a, b) == a.m # b.m \/ a.n = 0 \/ b.n = 0 \/ a.o + a.n <= b.o \/ b.o + b.n <= a.o

\* Whether an arena with the blocks bs may hand out b for a request of size n and alignment al:
\* am is the address modulo 4096, cap the size of the memory block
AllocOk(bs, b, n, al, am, cap) ==
    /\ b.n = n
    /\ b.m > 0 /\ b.o >= 0 /\ b.o + n <= cap
    /\ am % al = 0
    /\ \A x \in bs : Disjoint(x, b)
=============================================================================
