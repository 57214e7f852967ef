------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Which proof options the checked constructors let through, and the       *)
(* preset levels.  Numbers that may not fit TLC's integers are hexadecimal.*)
(***************************************************************************)
EXTENDS Env

FieldBits == [stark252 |-> 252, t193 |-> 8, t257 |-> 9, t12289 |-> 14, t40961 |-> 16]
\* log2 of the blowup factor when it is a power of two
Bits(b) == IF b = 0 THEN 8 ELSE NTz(Hex(b))
QueryBits(b, nq) == NMul(Hex(Bits(b)), nq)
FieldOk(fld, target) == FieldBits[fld] > target + 40
\* conjectured security: one bit per doubling and query, with a margin of one;
\* proven security: half of that
Reaches(fn, b, nq, g, target) ==
    IF fn = "checked" THEN NLt(Hex(target + 1), NAdd(Hex(g), QueryBits(b, nq)))
    ELSE NLe(Hex(target), NAdd(Hex(g), NDiv(QueryBits(b, nq), "2")))
Outcome(c) == IF ~FieldOk(c.fld, c.target) THEN "FieldSize"
              ELSE IF ~Reaches(c.fn, c.blowup, c.nq, c.grind, c.target) THEN "SecurityBits" ELSE "ok"

\* query counts around the threshold, and far from it
Need(fn, b, g, t) ==
    LET lack == IF fn = "checked" THEN t + 2 - g ELSE 2 * (t - g)
    IN IF Bits(b) = 0 \/ lack <= 0 THEN 0 ELSE (lack + Bits(b) - 1) \div Bits(b)
NqSet(fn, b, g, t) ==
    {Hex(k) : k \in {k \in (Need(fn, b, g, t) - 2)..(Need(fn, b, g, t) + 2) : k >= 0}}
    \cup {"0", "1", "37", "8c", "ffffffff", "8000000000000000", "ffffffffffffffff"}
Blowups == {0, 1, 2, 3, 4, 6, 8, 16, 32, 64, 96, 128, 255}
Grinds  == {0, 1, 5, 20, 64, 80, 100, 128, 129, 255}
Targets == {0, 1, 2, 39, 79, 80, 81, 99, 100, 101, 127, 128, 129, 160, 200, 210, 211, 212, 213, 254, 255}
Levels == <<"Conjecturable80Bits", "Conjecturable100Bits", "Conjecturable128Bits",
            "Provable80Bits", "Provable100Bits", "Provable128Bits">>
LevelTarget == <<80, 100, 128, 80, 100, 128>>
LevelFn(k) == IF k <= 3 THEN "checked" ELSE "provable"

\* one scenario per constructor, field, blowup and grinding factor, with all its cases
Cases(fn, fld, b, g) ==
    SetToSeq(UNION {{[fn |-> fn, fld |-> fld, blowup |-> b, grind |-> g, target |-> t, nq |-> q,
                      off |-> IF t % 2 = 0 THEN "3" ELSE "ffffffffffffffff"] : q \in NqSet(fn, b, g, t)} : t \in Targets})
VARIABLES st, x
Gen == /\ MODE = "gen" /\ st = "start" /\ st' = "end" /\ UNCHANGED x
       /\ Emit(IF x = <<"presets">> THEN [k |-> "presets", levels |-> Levels, off |-> "7"]
               ELSE [k |-> "options", cases |-> Cases(x[1], x[2], x[3], x[4])])
\* r.res[j]: "ok", "FieldSize", "SecurityBits" or "panic"; r.same[j]: the options came back unchanged
BadCases(r) == {j \in 1..Len(r.cases) : r.res[j] # Outcome(r.cases[j]) \/ (r.res[j] = "ok" /\ ~r.same[j])}
BadPresets(r) ==
    {Levels[k] : k \in {k \in 1..6 :
        LET o == r.opts[k]
        IN \/ o.off # "7"
           \/ ~Reaches(LevelFn(k), o.blowup, o.nq, o.grind, LevelTarget[k])
           \* the level's own check passes in the implementation too
           \/ r.self[k] # "ok"
           \* stronger than the level below
           \/ k \in {2, 3, 5, 6} /\
              NLt(NAdd(Hex(o.grind), QueryBits(o.blowup, o.nq)),
                  NAdd(Hex(r.opts[k - 1].grind), QueryBits(r.opts[k - 1].blowup, r.opts[k - 1].nq)))}}
Chk == /\ MODE = "chk" /\ st = "start" /\ st' = "end" /\ UNCHANGED x
       /\ LET r == Recs[x]
          IN Emit([id |-> r.id,
                   bad |-> IF r.k = "presets" THEN BadPresets(r) ELSE {ToJson(r.cases[j]) \o " gave " \o r.res[j] : j \in BadCases(r)},
                   n |-> IF r.k = "presets" THEN 6 ELSE Len(r.cases),
                   oks |-> IF r.k = "presets" THEN 6 ELSE Cardinality({j \in 1..Len(r.cases) : r.res[j] = "ok"})])
Init == /\ st = "start"
        /\ x \in IF MODE = "gen" THEN {<<fn, fld, b, g>> : fn \in {"checked", "provable"}, fld \in DOMAIN FieldBits, b \in Blowups, g \in Grinds} \cup {<<"presets">>}
                 ELSE 1..Len(Recs)
Next == Gen \/ Chk
Spec == Init /\ [][Next]_<<st, x>>
=============================================================================
