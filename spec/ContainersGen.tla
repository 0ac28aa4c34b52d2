--------------------------- MODULE ContainersGen ---------------------------
(* Generates behaviours of TinyContainers, for replay in the library.       *)
(* With Random = FALSE every sequence of Depth operations (for tlc's        *)
(* breadth first search); with TRUE one random one per simulated behaviour. *)
(* Every finished sequence is printed.                                      *)
EXTENDS TinyContainers

CONSTANTS Kind, Depth, Random, Base, Vals, Keys, Sizes, Aligns, Objs

VARIABLES st, log

Op(x, o, i, v, vs) == <<o, x, i, v, vs>>
Alive == {x \in Objs : st[x].k # "none"}

-----------------------------------------------------------------------------
(* Every operation with a few arguments                                     *)
Ixs(c) == {0, Len(c) \div 2, Len(c) - 1} \cap 0..(Len(c) - 1)
Lens(c) == {0, Len(c) - 1, Len(c) + 1, Len(c) + 3} \cap Nat
NewVal == Len(log) + 10

ArrayOps(x) ==
    LET c == st[x].c
    IN  {Op(x, "apush", 0, NewVal, << >>)}
        \cup {Op(x, o, 0, 0, << >>) : o \in {"apop", "ashift"}}
        \cup {Op(x, o, i, NewVal, << >>) : o \in {"ains", "aset"}, i \in Ixs(c)}
        \cup {Op(x, "adel", i, 0, << >>) : i \in Ixs(c)}
        \cup {Op(x, "asize", i, NewVal, << >>) : i \in Lens(c)}
        \cup {Op(x, "aclear", 0, 0, << >>)}
DictOps(x) ==
    {Op(x, "dset", k, NewVal, << >>) : k \in Keys} \cup {Op(x, "ddel", k, 0, << >>) : k \in Keys}
    \cup {Op(x, "dclear", 0, 0, << >>)}
ArenaOps(x) == {Op(x, "ralloc", n, a, << >>) : n \in Sizes, a \in Aligns}
Of(x) == CASE st[x].k = "array" -> ArrayOps(x) [] st[x].k = "dict" -> DictOps(x) [] st[x].k = "arena" -> ArenaOps(x) [] OTHER -> {}

Starts(x) == CASE Kind = "array" -> {Op(x, "ainit", 0, 0, vs) : vs \in {[j \in 1..n |-> j + 2] : n \in Base}}
               [] Kind = "dict" -> {Op(x, "dinit", 0, 0, << >>)}
               [] Kind = "arena" -> {Op(x, "rinit", 0, 0, << >>)}
               [] OTHER -> {Op(x, "ainit", 0, 0, << >>), Op(x, "dinit", 0, 0, << >>), Op(x, "rinit", 0, 0, << >>)}
EveryOp == UNION {IF st[x].k = "none" THEN Starts(x) ELSE Of(x) : x \in Objs}

-----------------------------------------------------------------------------
(* One operation at random: which one, then its arguments                   *)
R(S) == {RandomElement(S)}
Names(k, w) ==
    CASE k = "array" -> IF w <= 30 THEN {"apush"} ELSE IF w <= 97 THEN {"apop", "ashift", "ains", "adel", "aset", "aput", "aget", "apush"}
                        ELSE IF w <= 99 THEN {"asize"} ELSE {"aclear"}
      [] k = "dict" -> IF w <= 50 THEN {"dset"} ELSE IF w <= 80 THEN {"ddel"} ELSE IF w <= 99 THEN {"dget"} ELSE {"dclear"}
      [] OTHER -> {"ralloc"}
Arg(o, c) == CASE o \in {"ains", "adel", "aset", "aput", "aget"} -> IF c = << >> THEN {-1} ELSE 0..(Len(c) - 1)
               [] o = "asize" -> (0..(Len(c) + 5)) \cup {2 * Len(c), Len(c) \div 2}
               [] o \in {"dset", "ddel", "dget"} -> Keys
               [] o = "ralloc" -> Sizes
               [] OTHER -> {0}
Val(o) == IF o = "ralloc" THEN Aligns ELSE Vals

RandomOp ==
    UNION {UNION {IF st[x].k = "none" THEN R(Starts(x))
                  ELSE IF Cardinality(Objs) > 1 /\ w2 = 1
                       THEN {Op(x, CASE st[x].k = "array" -> "afree" [] st[x].k = "dict" -> "dfree" [] OTHER -> "rfree", 0, 0, << >>)}
                  ELSE UNION {UNION {{Op(x, o, i, v, << >>) : v \in R(Val(o))} : i \in R(Arg(o, st[x].c))}
                              : o \in R(Names(st[x].k, w))}
                  : w \in R(1..100), w2 \in R(1..25)} : x \in R(Objs)}

\* An operation on an empty array which needs an element: push one instead
Possible(op) == IF Enabled(st[op[2]], op[1], op[3], op[4], op[5]) THEN op ELSE Op(op[2], "apush", 0, op[4], << >>)

Apply(op) == [st EXCEPT ![op[2]] = After(st[op[2]], op[1], op[3], op[4], op[5])]

Init == st = [x \in Objs |-> None] /\ log = << >>
Next == /\ Len(log) < Depth
        /\ \E op \in IF Random THEN {Possible(o) : o \in RandomOp} ELSE EveryOp :
              /\ Enabled(st[op[2]], op[1], op[3], op[4], op[5])
              /\ st' = Apply(op)
              /\ log' = Append(log, op)
              /\ (Len(log') = Depth => PrintT(<<"SEQ", log'>>))
=============================================================================
