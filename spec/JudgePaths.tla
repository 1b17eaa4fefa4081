----------------------------- MODULE JudgePaths -----------------------------
EXTENDS Judging, Paths
\* An event: the function, its arguments, whether it returned, and its result.
PathGood(ev) ==
  /\ ev.e = "Path"
  /\ CASE ev.f = "N" -> ev.ok /\ NormalizeGood(ev.p, ev.r)
       [] ev.f = "R" -> RelativizeGood(ev.q, ev.p, ev.ok, ev.r)
       [] ev.f = "B" -> ev.ok /\ BasenameGood(ev.p, ev.r)
       [] ev.f = "P" -> ev.ok /\ ParentGood(ev.p, ev.r)
       [] ev.f = "A" -> ev.ok /\ ev.r = (IF Absolute(ev.p) THEN <<49>> ELSE <<48>>)
=============================================================================
