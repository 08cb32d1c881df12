---- MODULE TrC03 ----
EXTENDS Tk, Sound
VARIABLE l
Check(r) ==
  LET v == SoundVerdict(r.net, 60)
      wf == IsWF(r.net)
      e == Explore(r.net, 150)
  IN  [workflow_net_verdict |-> r.wf = wf,
       workflow_net_verdict_util |-> r.wf2 = wf,
       never_sound_when_unsound |-> (v = "unsound") => ~ r.sound,
       never_sound_when_unsound_full |-> (v = "unsound") => ~ r.full,
       sound_when_sound |-> (v = "sound") => r.sound,
       sound_when_sound_full |-> (v = "sound") => r.full,
       easy_soundness |-> (wf /\ e[2]) => (r.easy = (r.net.fm \in e[1]))]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
