------------------------------ MODULE MCServer ------------------------------
EXTENDS Server
CONSTANTS Own, Others, MaxAccept, Limit, Befores
Configs == [own: {{}, Own}, others: {Others}, before: [Own \cup Others -> Befores], dis: BOOLEAN, keep: BOOLEAN, local: BOOLEAN, over: BOOLEAN,
            bg: BOOLEAN, nowait: BOOLEAN, max: {-1, Limit}, timed: BOOLEAN, badnum: BOOLEAN, busy: BOOLEAN, pid: {"none", "new", "exists", "bad"}]
Sane(c) == /\ c.own = {} => c.max = -1 /\ ~c.timed /\ ~c.nowait /\ ~c.bg /\ c.pid = "none" /\ ~c.busy /\ ~c.badnum
           /\ ~c.bg => c.pid = "none"
           /\ c.badnum => ~c.timed /\ c.max = -1
           /\ c.busy => c.max = -1 /\ ~c.timed /\ ~c.nowait
Cut(c) == [c EXCEPT !.before = [n \in Names(c) |-> c.before[n]]]
Spec == SSpec({Cut(c) : c \in {c \in Configs : Sane(c)}})
Bounded == accepted <= MaxAccept
=============================================================================
