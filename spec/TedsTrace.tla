------------------------------ MODULE TedsTrace -----------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the extension a behaviour  *)
(* of Teds?  Every event must have the outcome Step gives, and the         *)
(* contents recorded with it must be the contents of the new heap.         *)
(***************************************************************************)
EXTENDS Teds

Trace == ndJsonDeserialize(IOEnv.TEDS_TRACE)

(* listed known findings, by id; each is counted in a TLC register when it shows *)
KnownSeq == ndJsonDeserialize(IOEnv.TEDS_KNOWN)
KnownFindings == {KnownSeq[k].id : k \in 1..Len(KnownSeq)}
Reg(id) == CHOOSE k \in 1..Len(KnownSeq) : KnownSeq[k].id = id
Hit(id) == TLCSet(Reg(id), TLCGet(Reg(id)) + 1)

VARIABLES objs, l

ResultFits(out, e) ==
  IF Fits(out.r, e.r) THEN TRUE
  ELSE IF out.kf \in KnownFindings THEN Fits(out.kr, e.r) /\ Hit(out.kf) ELSE FALSE
(* x = "Boom": something that died during the call threw; what the call did is not affected *)
Agrees(before, out, e) ==
  /\ e.x = out.x \/ e.x = "Boom"
  /\ (e.x = "" => ResultFits(out, e))
  /\ \A k \in 1..Len(e.ob) : /\ e.ob[k][1] \in DOMAIN out.objs
                             /\ out.objs[e.ob[k][1]].d = e.ob[k][2]
  /\ ("dd" \in DOMAIN e => Deaths(before, out.objs, e) /\ (e.x = "Boom" => e.dd # <<>>))

Init == /\ \A k \in 1..Len(KnownSeq) : TLCSet(k, 0)
        /\ objs = <<>> /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         out == Step(objs, e)
     IN /\ IF Agrees(objs, out, e) THEN TRUE
           ELSE PrintT(<<"@REJECT", l>>) /\ PrintT(<<"@EVENT", e>>) /\ PrintT(<<"@EXPECTED", out.x, out.r>>)
                /\ PrintT(<<"@BEFORE", IF e.o \in DOMAIN objs THEN objs[e.o] ELSE "new">>)
                /\ PrintT(<<"@AFTER", IF e.o \in DOMAIN out.objs THEN out.objs[e.o] ELSE "none">>) /\ FALSE
        /\ objs' = out.objs
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<objs, l>>
Accepted == /\ \A k \in 1..Len(KnownSeq) : PrintT(<<"@KNOWN", KnownSeq[k].id, TLCGet(k)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
