----------------------------- MODULE MCOptions -----------------------------
(* The way the server really reads its options: the command line is split    *)
(* into what is decided at once and what is deferred; what is deferred is    *)
(* appended to the section's options, and the whole is read, with a limit    *)
(* beyond which no option may take its value until the section is done.      *)
(* For all short lists of words that comes to what Options says.             *)
EXTENDS Options
CONSTANTS MaxWords, Limited      \* Limited: whether the limit is kept
VARIABLES sec, cli
vars == <<sec, cli>>

W(t) == [o |-> "", v |-> t]
J(o, v) == [o |-> o, v |-> v]
SecWords == {W("-k"), W("--timeout"), W("-n"), W("5"), W("-i"), W("bogus"), J("--timeout", "6"), J("--name", "x")}
CliWords == {W("-w"), W("-t"), W("-n"), W("7"), W("-i"), W("-h"), J("--timeout", "8"), J("--executable-directory", "D"), W("bogus")}

Keep(out) == [out |-> out, deferred |-> <<>>, name |-> "", ignore |-> FALSE]
RECURSIVE First(_, _)
First(ws, a) ==
  IF ws = <<>> \/ a.out # "run" THEN a
  ELSE LET w == Head(ws) f == FlagOf(w) j == JoinedOf(w) p == OpensOf(w) IN
    CASE f \in {"b", "d", "k", "l", "o", "w"} -> First(Tail(ws), [a EXCEPT !.deferred = Append(@, w)])
      [] f \in {"h", "v"} -> [a EXCEPT !.out = "info"]
      [] f = "i" -> First(Tail(ws), [a EXCEPT !.ignore = TRUE])
      [] f = "s" -> First(Tail(ws), a)
      [] j \in {"e", "m", "p", "t"} -> First(Tail(ws), [a EXCEPT !.deferred = @ \o <<W(w.o), W(w.v)>>])
      [] j = "n" -> First(Tail(ws), [a EXCEPT !.name = w.v])
      [] p # "" -> IF Len(ws) = 1 THEN [a EXCEPT !.out = IF a.ignore THEN "unsaid" ELSE "error"]
                   ELSE IF p = "n" THEN First(Tail(Tail(ws)), [a EXCEPT !.name = Text(ws[2])])
                   ELSE First(Tail(Tail(ws)), [a EXCEPT !.deferred = @ \o <<w, W(Text(ws[2]))>>])
      [] OTHER -> IF a.ignore THEN First(Tail(ws), a) ELSE [a EXCEPT !.out = "error"]

\* r: [out, vals, set, ignore];  i: the index of the next word;  limit
RECURSIVE Second(_, _, _, _)
Second(ws, i, limit, r) ==
  IF i > limit \/ r.out # "run" THEN r
  ELSE LET w == ws[i] f == FlagOf(w) j == JoinedOf(w) p == OpensOf(w)
           Next(k, q) == Second(ws, k + 1, IF k >= limit THEN Len(ws) ELSE limit, q) IN
    CASE f \notin {"", "h", "v", "s", "i"} -> Next(i, [r EXCEPT !.set = @ \cup {f}])
      [] f = "i" -> Next(i, [r EXCEPT !.ignore = TRUE])
      [] j \notin {"", "c", "n"} -> Next(i, Set(r, j, w.v))
      [] p \notin {"", "c", "n"} -> IF i = limit THEN [r EXCEPT !.out = IF r.ignore THEN "unsaid" ELSE "error"] ELSE Next(i + 1, Set(r, p, Text(ws[i + 1])))
      [] OTHER -> IF r.ignore THEN Next(i, r) ELSE [r EXCEPT !.out = "error"]
Impl == LET a == First(cli, Keep("run")) IN
        IF a.out # "run" THEN [out |-> a.out, vals |-> <<>>, set |-> {}]
        ELSE LET all == sec \o a.deferred
                 r == Second(all, 1, IF sec = <<>> \/ ~Limited THEN Len(all) ELSE Len(sec), Start(a.ignore)) IN
             [out |-> r.out, vals |-> IF a.name = "" THEN r.vals ELSE ("n" :> a.name) @@ r.vals, set |-> r.set]
Says == LET c == Read(cli, "cli", Start(FALSE)) IN
        IF c.out # "run" THEN [out |-> c.out, vals |-> <<>>, set |-> {}]
        ELSE Combine(Read(sec, "section", Start(c.ignore)), c)
NoName(v) == [f \in DOMAIN v \ {"n"} |-> v[f]]
Agree == /\ Impl.out = Says.out
         /\ Says.out = "run" => NoName(Impl.vals) = NoName(Says.vals) /\ Impl.set \ {"i"} = Says.set \ {"i"}
                                /\ Get(Impl.vals, "n", "") = Get(Says.vals, "n", "")
\* Whatever both places give, the command line decides; what only one gives counts.
CliDecides == LET c == Read(cli, "cli", Start(FALSE)) s == Read(sec, "section", Start(c.ignore)) IN
  Says.out = "run" => \A f \in DOMAIN Valued : /\ f \in DOMAIN c.vals => Says.vals[f] = c.vals[f]
                                               /\ f \notin DOMAIN c.vals /\ f \in DOMAIN s.vals => Says.vals[f] = s.vals[f]
Init == sec = <<>> /\ cli = <<>>
Next == \/ Len(sec) < MaxWords /\ \E w \in SecWords : sec' = Append(sec, w) /\ cli = <<>> /\ UNCHANGED cli
        \/ Len(cli) < MaxWords /\ \E w \in CliWords : cli' = Append(cli, w) /\ UNCHANGED sec
Spec == Init /\ [][Next]_vars
=============================================================================
