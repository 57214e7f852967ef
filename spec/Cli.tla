---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command-line tool and the files it works on.                        *)
(*                                                                         *)
(* A session is a history of commands, each a process of its own, and of   *)
(* what else happens to the files between them: they are damaged, cut,     *)
(* spliced, copied, removed.  The state is the file system, from paths to  *)
(* contents.  Only a successful prove changes it, by one file that holds   *)
(* the length of a proof, the proof, and the public inputs of the          *)
(* program's run; verify answers for the contents alone, however they came *)
(* there.                                                                  *)
(*                                                                         *)
(* MODE "gen": sessions over the programs in PROGS, whose runs Runner.tla  *)
(* predicts.  MODE "chk": the recorded sessions in RECS; DATA holds the    *)
(* contents of all files that were seen, by number.                        *)
(***************************************************************************)
EXTENDS Wire
M == INSTANCE CairoMachine

\* [v, text, want] with want the run's result, as in Runner.tla
Progs == ndJsonDeserialize(IOEnv.PROGS)
\* [b: bytes, prog: the number of the program this is, or 0]
Data == IF MODE = "chk" THEN ndJsonDeserialize(IOEnv.DATA) ELSE <<>>

(***************************************************************************)
(* What a file says: a proof and a claim, or nothing.                      *)
(***************************************************************************)
Parts(b) ==
    LET len == BLen(b)
        k == IF len < 8 THEN "0" ELSE NatBe(BSub(b, 0, 8))
    IN IF len < 8 \/ NLt(Hex(len - 8), k) THEN Bad
       ELSE LET n == ToInt(k)
                p == TLCEval(DecProof(BSub(b, 8, n)))
                c == IF p.ok THEN TLCEval(DecPub(BSub(b, 8 + n, len - 8 - n))) ELSE Bad
            IN IF c.ok THEN [ok |-> TRUE, n |-> n, proof |-> p.v, claim |-> c.v, corder |-> c.order] ELSE Bad
\* a claim up to what verification depends on: not the initial fp (a known finding), nor
\* where the segments are
Bound(p) == [p EXCEPT !.fp_init = "0", !.rc = IF @ = <<>> THEN <<>> ELSE <<"0">>, !.out = <<>>]
\* what matters of it: which proof (by its encoding's hash), whether it is written in the one
\* canonical way, and the claim, in full and up to the above
Meaning(b) ==
    LET x == TLCEval(Parts(b))
        enc == TLCEval(Bytes(ProofT(x.proof)))
    IN IF ~x.ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, proof |-> Keccak(enc),
             full |-> TLCEval([x.claim EXCEPT !.pm = PmMap(@)]), bound |-> TLCEval([Bound(x.claim) EXCEPT !.pm = PmMap(@)]),
             canon |-> /\ enc = BSub(b, 8, x.n)
                       /\ BLen(b) > 8 + x.n
                       /\ Canonical("pub", BSub(b, 8 + x.n, BLen(b) - 8 - x.n), [ok |-> TRUE, v |-> x.claim, order |-> x.corder])]

(***************************************************************************)
(* The claim of a program's run.                                           *)
(***************************************************************************)
\* the tool takes a path with .casm in it for a Cairo 1 contract
Contract(path) == \E k \in 1..(Len(path) - 4) : SubSeq(path, k, k + 4) = ".casm"
RunsAs(path, k) == Progs[k].v = (IF Contract(path) THEN 1 ELSE 0) /\ Progs[k].want.s = "ok"
Cells(w) == TLCEval([a \in {w.cells[k][1] : k \in 1..Len(w.cells)} |-> w.cells[CHOOSE k \in 1..Len(w.cells) : w.cells[k][1] = a][2]])
Offsets(w, m) == UNION {LET I == M!Groups(m[w.regs[k][1]]) IN {I.o[1], I.o[2], I.o[3]} : k \in 1..Len(w.regs)}
ClaimOf(w, m, os) ==
    LET n == Len(w.regs)
    IN [pc_init |-> w.regs[1][1], ap_init |-> w.regs[1][2], fp_init |-> w.regs[1][3],
        pc_final |-> w.regs[n][1], ap_final |-> w.regs[n][2],
        rcmin |-> <<Hex(Min(os) + 32768)>>, rcmax |-> <<Hex(Max(os) + 32768)>>, rc |-> w.rc, out |-> <<>>,
        pm |-> TLCEval([a \in {Hex(a) : a \in 1..w.size} |-> m[a]]), steps |-> Hex(n)]
\* the claim of each program that runs
Claim(k) == LET w == Progs[k].want
                m == TLCEval(Cells(w))
            IN ClaimOf(w, m, TLCEval(Offsets(w, m)))

(***************************************************************************)
(* Sessions to be tried.  i : the session, n : its events so far, ev.      *)
(***************************************************************************)
Inputs  == << <<"p.json", "casm.d/p", "odd \\xff name.json">>, <<"main.casm", "lib.casm.json", "dir.casm/c">> >>
Outputs == <<"a.proof", "b.proof", "a.proof", "b.proof", "sub dir/c.proof", "odd \\xff.proof", "x.casm">>
NoOutputs == <<"nodir/a.proof", "dir", "/dev/full", "", "a.proof/b">>
NotThere == <<"missing", "dir", "", "a.proof/x", "--help">>
Strange == << <<>>, <<"">>, <<"Prove", "p.json", "a.proof">>, <<"verif", "a.proof">>, <<"--help">>, <<"prove">>, <<"prove", "p.json">>, <<"verify">>,
             <<"prove_and_verify">>, <<"prove-and-verify", "p.json">>, <<"odd \\xff">>, <<"VERIFY", "a.proof">>, <<" prove", "p.json", "a.proof">> >>
VARIABLES ph, i, n, said, claim, fs, pairs, bad, cover
vars == <<ph, i, n, said, claim, fs, pairs, bad, cover>>

\* the programs at hand that run, and the others
Good == {k \in 1..Len(Progs) : Progs[k].want.s = "ok"}
PickProg(q) == IF Chance(q \o <<1>>, 70) THEN PickOf(q \o <<2>>, SetToSeq(Good)) ELSE 1 + Pick(q \o <<3>>, Len(Progs))
CasmOf(k, q) == LET right == Progs[k].v = 1 IN IF Chance(q \o <<4>>, 92) THEN right ELSE ~right
Put(q, slot) == LET k == PickProg(q)
                    c == CasmOf(k, q)
                IN [a |-> "put", path |-> Inputs[IF c THEN 2 ELSE 1][slot + 1], prog |-> k]
\* damage: where, as a 65536th of the file's part
Spots == <<"any", "any", "any", "head", "seam", "end", "proof", "claim", "claim">>
Damage(q, p) ==
    [a |-> "damage", path |-> p, at |-> PickOf(q \o <<5>>, Spots), f |-> Pick(q \o <<6>>, 65536),
     op |-> PickOf(q \o <<7>>, <<"flip", "flip", "cut", "cut", "append", "insert", "delete", "word", "zero">>),
     w |-> PickOf(q \o <<8>>, <<"0", "1", "20", "7fffffffffffffff", "ffffffffffffffff", "8000000000000000", "10000", "fffffffffffffff8">>),
     n |-> 1 + Pick(q \o <<9>>, 40)]
Run(c) == [a |-> "run", args |-> c]
Event(q, ins, last) ==
    LET w == Pick(q \o <<10>>, 100)
        p == PickOf(q \o <<11>>, SubSeq(Outputs, 1, 4))
        inp == IF Chance(q \o <<12>>, 94) THEN PickOf(q \o <<13>>, ins) ELSE PickOf(q \o <<14>>, NotThere)
    IN CASE w < 22 -> <<Run(<<"prove", inp, PickOf(q \o <<15>>, Outputs)>>)>>
         [] w < 27 -> <<Run(<<"prove", inp, PickOf(q \o <<16>>, NoOutputs)>>)>>
         [] w < 36 -> <<Run(<<"prove_and_verify", inp>>)>>
         [] w < 42 -> <<Run(<<"verify", PickOf(q \o <<17>>, Outputs)>>)>>
         [] w < 45 -> <<Run(<<"verify", PickOf(q \o <<18>>, NotThere \o ins)>>)>>
         [] w < 49 -> <<Run(PickOf(q \o <<19>>, Strange))>>
         [] w < 52 -> <<Put(q \o <<20>>, Pick(q \o <<21>>, 3))>>
         [] w < 54 -> <<[a |-> "remove", path |-> p], Run(<<"verify", p>>)>>
         [] w < 57 -> <<[a |-> "gold", path |-> p], Run(<<"verify", p>>)>>
         [] w < 60 -> <<[a |-> "copy", path |-> p, from |-> PickOf(q \o <<22>>, Outputs)], Run(<<"verify", p>>)>>
         \* the proof of one file and the claim of another
         [] w < 68 -> <<[a |-> "splice", path |-> "spliced.proof", from |-> p, claim |-> PickOf(q \o <<23>>, SubSeq(Outputs, 1, 5))], Run(<<"verify", "spliced.proof">>)>>
         \* a proof overwrites the program
         [] w < 70 -> <<Run(<<"prove", inp, inp>>), Run(<<"verify", inp>>), Run(<<"prove_and_verify", inp>>)>>
         [] OTHER  -> <<Damage(q, p), Run(<<"verify", p>>)>> \o (IF Chance(q \o <<24>>, 30) THEN <<Damage(q \o <<25>>, p), Run(<<"verify", p>>)>> ELSE <<>>)
Script(k) ==
    LET q == <<k>>
        put == <<Put(q \o <<30>>, 0), Put(q \o <<31>>, 1), Put(q \o <<32>>, 2)>>
        ins == [j \in 1..3 |-> put[j].path]
    IN put \o <<Run(<<"prove", ins[1], "a.proof">>), Run(<<"prove", ins[2], "b.proof">>), Run(<<"verify", "a.proof">>), Run(Strange[(k % Len(Strange)) + 1])>>
       \o Flat(TLCEval([j \in 1..(5 + Pick(q \o <<33>>, 6)) |-> TLCEval(Event(q \o <<34, j>>, ins, 0))]))
       \o <<Run(<<"verify", "b.proof">>), Run(<<"prove", ins[3], "a.proof">>), Run(<<"verify", "a.proof">>)>>
Generate == /\ MODE = "gen" /\ ph = "start" /\ ph' = "end" /\ UNCHANGED <<i, n, said, claim, fs, pairs, bad, cover>>
            /\ Emit([k |-> "session", events |-> Script(i)])

(***************************************************************************)
(* Sessions that happened.  An event is [a |-> "env", fs], or              *)
(* [a |-> "run", args, code, says, fs] with says: which messages it gave;  *)
(* fs: the contents of every file afterwards.                              *)
(***************************************************************************)
Init == /\ i \in IF MODE = "gen" THEN 1..SIZE ELSE 1..Len(Recs)
        /\ ph = "start" /\ n = 0 /\ said = <<>> /\ claim = <<>> /\ bad = {} /\ fs = <<>> /\ cover = <<>>
        /\ pairs = IF MODE = "chk" THEN {Recs[i].gold} ELSE {}
\* what the files of the session say, and the claims of its programs
Read == /\ MODE = "chk" /\ ph = "start" /\ ph' = "go" /\ UNCHANGED <<i, n, fs, pairs, bad, cover>>
        /\ \E cs \in {TLCEval({Recs[i].gold} \cup UNION {{Recs[i].events[k].fs[x] : x \in DOMAIN Recs[i].events[k].fs} : k \in 1..Len(Recs[i].events)})} :
             /\ said' = TLCEval([c \in cs |-> TLCEval(Meaning(Data[c].b))])
             /\ claim' = TLCEval([k \in {k \in {Data[c].prog : c \in cs} \ {0} : Progs[k].want.s = "ok"} |-> TLCEval(Claim(k))])
\* the content at a path; 0: nothing readable
At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0
SameFile(c, d) == said[c].ok /\ said[d].ok /\ said[c].proof = said[d].proof /\ said[c].bound = said[d].bound
Verdict(c) == IF c # 0 /\ \E d \in pairs : SameFile(c, d) THEN "success" ELSE "none"
\* what a command may answer, and whether it writes
Proves(path) == LET c == At(fs, path) IN c # 0 /\ Data[c].prog # 0 /\ RunsAs(path, Data[c].prog)
Writable(path) == \A k \in 1..Len(NoOutputs) : path # NoOutputs[k]
Answer(e) ==
    LET g == e.args
        c == IF g = <<>> THEN "" ELSE g[1]
    IN CASE g = <<>> -> {"usage"}
         [] c = "prove" -> IF Len(g) < 3 THEN {"usage"}
                           ELSE IF ~Proves(g[2]) THEN {"error"}
                           ELSE IF Writable(g[3]) THEN {"written"} ELSE {"error"}
         [] c = "verify" -> IF Len(g) < 2 THEN {"usage"}
                            ELSE IF At(fs, g[2]) = 0 THEN {"error"}
                            ELSE IF Verdict(At(fs, g[2])) = "success" THEN {"success"} ELSE {"failed", "error"}
         [] c = "prove_and_verify" -> IF Len(g) < 2 THEN {"usage"} ELSE IF Proves(g[2]) THEN {"success"} ELSE {"error"}
         [] OTHER -> {"unknown"}
\* the files afterwards
Changed(e) == {p \in DOMAIN fs \cup DOMAIN e.fs : At(fs, p) # At(e.fs, p)}
FilesBad(e) ==
    IF Answer(e) = {"written"}
    THEN LET p == e.args[3]
             c == At(e.fs, p)
             ok == c # 0 /\ said[c].ok
         IN (IF Changed(e) \subseteq {p} THEN {} ELSE {"other files changed"})
            \cup (IF ok /\ said[c].canon THEN {} ELSE {"the file written"})
            \cup (IF ok /\ said[c].full = claim[Data[At(fs, e.args[2])].prog] THEN {} ELSE {"the claim written"})
            \* the same proof as any other of this run
            \cup (IF ok /\ \E d \in pairs : said[c].full = said[d].full /\ said[c].proof # said[d].proof THEN {"another proof"} ELSE {})
    ELSE IF Changed(e) = {} THEN {} ELSE {"files changed"}
Says(e) == {e.says[k] : k \in 1..Len(e.says)}
RunBad(e) ==
    (IF e.code < 0 \/ e.code = 101 THEN {"crash"} ELSE {})
    \cup (IF Says(e) # {} /\ Says(e) \subseteq Answer(e) THEN {} ELSE {"says " \o ToString(Says(e)) \o " instead of " \o ToString(Answer(e))})
    \cup FilesBad(e)
Cur == Recs[i].events[n + 1]
Bump(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ f
Happen == /\ MODE = "chk" /\ ph = "go" /\ n < Len(Recs[i].events)
          /\ n' = n + 1 /\ fs' = Cur.fs
          /\ \E e \in {Cur}, b \in {IF Cur.a = "run" THEN TLCEval(RunBad(Cur)) ELSE {}} :
               /\ bad' = bad \cup {[n |-> n + 1, args |-> e.args, what |-> x] : x \in b}
               /\ pairs' = IF e.a = "run" /\ b = {} /\ Answer(e) = {"written"} THEN pairs \cup {At(e.fs, e.args[3])} ELSE pairs
               /\ cover' = IF e.a # "run" THEN cover ELSE Bump(cover, (IF e.args = <<>> THEN "none" ELSE IF e.args[1] \in {"prove", "verify", "prove_and_verify"} THEN e.args[1] ELSE "other")
                                                                   \o ":" \o (CHOOSE x \in Answer(e) : TRUE))
          /\ UNCHANGED <<ph, i, said, claim>>
Report == /\ MODE = "chk" /\ ph = "go" /\ n = Len(Recs[i].events) /\ ph' = "end" /\ UNCHANGED <<i, n, said, claim, fs, pairs, bad, cover>>
          /\ Emit([id |-> Recs[i].id, steps |-> n, bad |-> bad, cover |-> cover])
Next == Generate \/ Read \/ Happen \/ Report
Spec == Init /\ [][Next]_vars
(* what makes a file valid is never anything but a proving run (or an earlier one) *)
PairsHold == ph = "go" => \A d \in pairs : said[d].ok
================================================================================
