-------------------------------- MODULE MC_Load --------------------------------
(* The loading of a model file, two libraries and the images they name, file by file, with *)
(* every combination of damages.  The combinations are written to VERIF_OUT, to be loaded. *)
EXTENDS Obj, Json, IOUtils, SequencesExt
CONSTANTS Variant, ObjStates, LibStates, ImgStates

M(n, t, b) == [name |-> n, kd |-> <<500, 500, 500>>, tex |-> t, bump |-> 0, bumpfile |-> b, kind |-> "matte"]
Libs == << <<M("A", 1, 0)>>, <<M("B", 0, 2)>> >>
St(two) == <<[op |-> "lib", lib |-> 1]>> \o (IF two THEN <<[op |-> "lib", lib |-> 2]>> ELSE <<>>)
           \o <<[op |-> "v", p |-> <<0, 0, 0>>], [op |-> "v", p |-> <<1, 0, 0>>], [op |-> "v", p |-> <<0, 1, 0>>], [op |-> "usemtl", name |-> "A"],
                [op |-> "f", vs |-> <<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>]>>
Combos == [obj : ObjStates, st : {St(TRUE), St(FALSE)}, libs : {Libs}, libstate : LibStates \X LibStates, imgstate : ImgStates \X ImgStates]

VARIABLES e, at, mats, liberr, out
vars == <<e, at, mats, liberr, out>>
(* the model's first, then its statements in order, then the images of the materials that came of the libraries *)
Init == /\ e \in [obj : ObjStates, st : {St(TRUE)}, libs : {Libs}, libstate : LibStates \X LibStates, imgstate : {<<"ok", "ok">>}]
        /\ at = "choose" /\ mats = <<>> /\ liberr = FALSE /\ out = <<>>
Choose == /\ at = "choose" /\ at' = "obj"
          /\ \E s \in {St(TRUE), St(FALSE)}, i \in ImgStates \X ImgStates : e' = [e EXCEPT !.st = s, !.imgstate = i]
          /\ UNCHANGED <<mats, liberr, out>>
End(r) == at' = "end" /\ out' = r
ReadObj == /\ at = "obj"
           /\ IF e.obj # "ok" THEN End(<<"obj", 0>>) ELSE at' = "libs" /\ out' = out
           /\ UNCHANGED <<e, mats, liberr>>
ReadLibs == /\ at = "libs"
            /\ LET good == SelectSeq(<<1, 2>>, LAMBDA k : k \in Named(e) /\ e.libstate[k] = "ok")
                   bad == {k \in Named(e) : e.libstate[k] # "ok"}
                   fails == IF Variant = "any" THEN bad # {} ELSE bad # {} /\ good = <<>>
               IN /\ mats' = good /\ liberr' = fails
                  /\ IF fails THEN End(<<"obj", 0>>) ELSE at' = "images" /\ out' = out
            /\ UNCHANGED e
ReadImages == /\ at = "images"
              /\ LET used == SelectSeq(<<1, 2>>, LAMBDA x : \E k \in {mats[i] : i \in 1 .. Len(mats)} : \E j \in 1 .. Len(e.libs[k]) : x \in {e.libs[k][j].tex, e.libs[k][j].bumpfile})
                     bad == SelectSeq(used, LAMBDA x : e.imgstate[x] # "ok")
                 IN End(IF bad = <<>> THEN <<"ok", 0>> ELSE <<"img", bad[1]>>)
              /\ UNCHANGED <<e, mats, liberr>>
Next == Choose \/ ReadObj \/ ReadLibs \/ ReadImages
Spec == Init /\ [][Next]_vars

Honest == at = "end" => LET fault == AtFault(e) IN
            IF out[1] = "ok" THEN fault = {} ELSE NameOf(out) \in fault
Written == /\ TLCGet("stats").distinct > 0
           /\ ndJsonSerialize(IOEnv.VERIF_OUT, SetToSeq(Combos))
=============================================================================
