---------------------------- MODULE OptionsWorld ----------------------------
(* The world in which servers with generated options are started: a working  *)
(* directory with the directories D1, D2, D2=D1, an existing PID file PX, and *)
(* configuration files A, B and perhaps k8psh.conf.                          *)
(* x: as in Options, with before: directory -> name -> what is there;        *)
(* configs: as in Options.                                                   *)
EXTENDS Options, ServerRules

Dirs == {".", "D1", "D2", "D2=D1"}
DirOf(e) == CASE e \in {"D1", "D1/", "./D1"} -> "D1" [] e \in {"D2", "D2/", "D1/../D2"} -> "D2" [] e \in {"D2=D1", "D1/../D2=D1"} -> "D2=D1" [] e \in {".", "D2=D1/.."} -> "." [] OTHER -> "nowhere"
Numbers == ("-1" :> -1) @@ ("-7" :> -7) @@ ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("1000" :> 1000) @@ ("300" :> 300) @@ ("3600000" :> 3600000)
           @@ ("9223372036854775807" :> 2000000000)
PidKind(p) == CASE p = "" -> "none" [] p \in {"PX", "D1", "D2", "A", "B", ".", "D1/", "./D1", "D2/", "D1/../D2", "D2=D1", "D1/../D2=D1", "D2=D1/.."} -> "exists" [] p \in {"Q/none", "nodir/P"} -> "bad" [] OTHER -> "new"
Number(t) == IF t \in DOMAIN Numbers THEN Numbers[t] ELSE 0

Cfg(r, x) ==
  LET d == DirOf(r.e) names == r.own \cup r.others
      bad == r.m \notin DOMAIN Numbers \/ r.t \notin DOMAIN Numbers
  IN [own |-> r.own, others |-> r.others, before |-> [n \in names |-> IF d = "nowhere" THEN "nowhere" ELSE x.before[d][n]],
      dis |-> "d" \in r.set, keep |-> "k" \in r.set, local |-> "l" \in r.set, over |-> "o" \in r.set, bg |-> "b" \in r.set, nowait |-> "w" \in r.set,
      max |-> IF Number(r.m) < 0 THEN -1 ELSE Number(r.m), timed |-> Number(r.t) >= 0, time |-> Number(r.t), badnum |-> bad, busy |-> FALSE, pid |-> PidKind(r.p)]
\* what becomes of the default PID file depends on who starts the server
Outcome(x, configs) ==
  LET r == Effective(x, configs) IN
  IF r.out = "run" /\ r.own # {} /\ "b" \in r.set /\ r.p = "(default)" THEN Nothing("unsaid") ELSE r
\* the directories, when the one that is used has f at the names of the configuration
Apply(before, d, f) == [e \in Dirs |-> IF e = d THEN [n \in DOMAIN before[e] |-> IF n \in DOMAIN f THEN f[n] ELSE before[e][n]] ELSE before[e]]

Few == 3         \* so many connections are tried
Short(c) == c.timed /\ c.time <= 300
Ends(c) == (c.max >= 0 /\ c.max <= Few) \/ Short(c)

(* g: [ended: it ended by itself before it listened;  status;  launcher: the  *)
(*   status of the process that was started (-1000 while it runs);            *)
(*   server: <<config, server>> whose port it listened at;  files, pids: what *)
(*   there was then;  after, pidsAfter: at the end;  accepts: connections     *)
(*   accepted;  self: it stopped listening by itself;  waited: it waited for  *)
(*   the open connections;  extra: other new entries;  done: it ended at all] *)
Untold(g, x) == g.extra = 0 /\ g.pidsAfter = x.pids
AfterIs(g, x, d, F) == \E f \in F : g.after = Apply(x.before, d, f)
Judge(x, configs, g) ==
  LET r == Outcome(x, configs) IN
  CASE r.out = "unsaid" -> TRUE
    [] r.out = "info"   -> g.ended /\ g.status = 0 /\ g.after = x.before /\ Untold(g, x)
    [] r.out = "error"  -> g.ended /\ g.status # 0 /\ g.after = x.before /\ Untold(g, x)
    [] r.out = "run"    ->
      LET c == Cfg(r, x) d == DirOf(r.e) IN
      IF ~RunsAtAll(c)
      THEN /\ g.ended /\ Untold(g, x)
           /\ (g.status = 0) <=> ~(Fails(c) \/ (Serves(c) /\ PidFails(c)))
           /\ IF d = "nowhere" THEN g.after = x.before ELSE AfterIs(g, x, d, StartFiles(c))
      ELSE /\ g.done /\ g.status = 0 /\ Untold(g, x) /\ AfterIs(g, x, d, {Cleaned(c)})
           /\ g.ended => c.max = 0 \/ Short(c)
           /\ ~g.ended =>
                /\ g.server = <<r.config, r.server>>
                /\ (g.launcher = 0) <=> c.bg
                /\ g.files = Apply(x.before, d, Linked(c))
                /\ g.pids = IF UsesPid(c) THEN (r.p :> "ours") @@ x.pids ELSE x.pids
                /\ g.self <=> Ends(c)
                /\ c.max >= 0 => g.accepts <= c.max
                /\ ~Short(c) => g.accepts = IF c.max >= 0 /\ c.max < Few THEN c.max ELSE Few
                /\ g.accepts > 0 => (g.waited <=> ~c.nowait)
=============================================================================
