---------------------------- MODULE JudgeInvoke ----------------------------
EXTENDS Judging, InvokeWorld
\* got: [status (0-255, or negative: killed; 1000: it did not end), starts: the commands that were started]
\* A started command is told to exit with ev.code.
InvokeGood(ev) ==
  /\ ev.e = "Invoke"
  /\ LET o == Outcome(ev.inv, World, J) IN
     CASE o.out = "run"  -> /\ ev.got.starts = <<[server |-> o.server, argv |-> o.argv, dir |-> o.dir]>>
                            /\ ev.got.status = ev.code
       [] o.out = "ok"   -> ev.got.starts = <<>> /\ ev.got.status = 0
       [] o.out = "fail" -> ev.got.starts = <<>> /\ ev.got.status \notin {0, 1000}
=============================================================================
