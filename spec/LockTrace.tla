------------------------------ MODULE LockTrace ------------------------------
(***************************************************************************)
(* Traces of calls on shared bit generators: when a call begins and ends,  *)
(* when its thread takes and gives back the lock, and (for generators made *)
(* from callbacks) every single word.  pos is the position of the stream:  *)
(* the number of words drawn, or a number that stands for the state.       *)
(* This is Lock.tla's machine with its actions observed.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME Len(Trace) > 0
\* gens: o |-> [holder, pos, words, drawn]; thr: t |-> [o, blocks, got]
VARIABLES gens, thr, l
vars == << gens, thr, l >>
Init == gens = << >> /\ thr = << >> /\ l = 1
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
G == gens[E.o]
Reset == Is("reset") /\ gens' = << >> /\ thr' = << >>
\* words: single words are observed
Open == /\ Is("open") /\ gens' = (E.o :> [holder |-> 0, pos |-> E.pos, words |-> E.words, since |-> E.pos]) @@ gens
        /\ UNCHANGED thr
Here == E.pos = G.pos
Busy(t) == t \in DOMAIN thr
Begin == /\ Is("begin") /\ ~Busy(E.t) /\ Here
         /\ thr' = (E.t :> [o |-> E.o, blocks |-> 0, got |-> << >>]) @@ thr /\ UNCHANGED gens
Acquire == /\ Is("acq") /\ Busy(E.t) /\ thr[E.t].o = E.o /\ G.holder = 0 /\ Here
           /\ gens' = [gens EXCEPT ![E.o].holder = E.t, ![E.o].since = G.pos] /\ UNCHANGED thr
\* a word is drawn only by the holder of the lock
DrawWord == /\ Is("word") /\ Busy(E.t) /\ thr[E.t].o = E.o /\ G.holder = E.t /\ E.out[1] = G.pos
            /\ gens' = [gens EXCEPT ![E.o].pos = @ + 1]
            /\ thr' = [thr EXCEPT ![E.t].got = Append(@, E.out[1])]
Release == /\ Is("rel") /\ Busy(E.t) /\ G.holder = E.t /\ (G.words => Here)
           /\ gens' = [gens EXCEPT ![E.o].holder = 0, ![E.o].pos = E.pos]
           /\ thr' = [thr EXCEPT ![E.t].blocks = @ + (IF E.pos = G.since THEN 0 ELSE 1)]
\* E.vals: the words the caller got (when they can be told), E.need: how many it asked for, E.blocks: in how many blocks
End == /\ Is("end") /\ Busy(E.t) /\ Here
       /\ G.holder # E.t
       /\ LET c == thr[E.t]
          IN /\ (E.checked => E.vals = c.got)
             /\ (E.ok /\ E.need >= 0 /\ G.words => Len(c.got) = E.need)
             /\ c.blocks <= E.blocks
       /\ thr' = [t \in DOMAIN thr \ {E.t} |-> thr[t]] /\ UNCHANGED gens
\* somebody outside tries the lock without waiting
Probe == Is("probe") /\ E.free = (G.holder = 0) /\ UNCHANGED << gens, thr >>
Next == Reset \/ Open \/ Begin \/ Acquire \/ DrawWord \/ Release \/ End \/ Probe
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
