-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* What an instruction word means, and how an invalid one is refused.      *)
(***************************************************************************)
EXTENDS CairoMachine

Invalid(I) == (IF I.s1 \in Op1Srcs THEN {} ELSE {"InvalidOp1Src"}) \cup (IF I.rl \in ResLogics THEN {} ELSE {"InvalidResLogic"})
              \cup (IF I.pu \in PcUpdates THEN {} ELSE {"InvalidPcUpdate"}) \cup (IF I.au \in ApUpdates THEN {} ELSE {"InvalidApUpdate"})
              \cup (IF I.oc \in Opcodes THEN {} ELSE {"InvalidOpcode"})
Bits(I) == TLCEval([k \in 1..16 |-> (FlagWord(I) \div 2 ^ (k - 1)) % 2])
\* d : [ok |-> 1, flags, offs (biased), soffs] or [ok |-> 0, err]
Right(w, d) ==
    LET I == Groups(w)
    IN IF Valid(I)
       THEN /\ d.ok = 1
            /\ d.flags = Bits(I)
            /\ d.soffs = I.o
            /\ \A j \in 1..3 : d.offs[j] = I.o[j] + 32768
       ELSE d.ok = 0 /\ d.err \in Invalid(I)
\* the decoded groups are the word again
ASSUME \A w \in {"480680017fff8000", "208b7fff7fff7ffe", "7fffffffffffffff", "0"} : Encode(Groups(w)) = w
=============================================================================
