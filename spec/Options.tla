------------------------------- MODULE Options ------------------------------
(* C14: what a server's options come to.                                     *)
(*                                                                           *)
(* A word is [o, v]: "o=v" if o is not empty, else v.  Options are given in  *)
(* the section of the server's configuration and on the command line.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Text(w) == IF w.o = "" THEN w.v ELSE w.o \o "=" \o w.v
Flags == [b |-> {"-b", "--background"}, d |-> {"-d", "--disable-client-executables"}, i |-> {"-i", "--ignore-invalid-arguments"},
          k |-> {"-k", "--keep-client-executables"}, l |-> {"-l", "--generate-local-executables"}, o |-> {"-o", "--overwrite-client-executables"},
          w |-> {"-w", "--no-wait"}, s |-> {"-s", "--server"}, h |-> {"-h", "--help"}, v |-> {"-v", "--version"}]
Valued == [c |-> <<"-c", "--config">>, e |-> <<"-e", "--executable-directory">>, m |-> <<"-m", "--max-connections">>, n |-> <<"-n", "--name">>,
           p |-> <<"-p", "--pidfile">>, t |-> <<"-t", "--timeout">>]
FlagOf(w) == IF w.o # "" THEN "" ELSE IF \E f \in DOMAIN Flags : w.v \in Flags[f] THEN CHOOSE f \in DOMAIN Flags : w.v \in Flags[f] ELSE ""
\* the option that w gives, with its value in the same word ("joined") or in the next one
JoinedOf(w) == IF \E f \in DOMAIN Valued : w.o = Valued[f][2] THEN CHOOSE f \in DOMAIN Valued : w.o = Valued[f][2] ELSE ""
OpensOf(w) == IF w.o # "" THEN "" ELSE IF \E f \in DOMAIN Valued : w.v \in {Valued[f][1], Valued[f][2]} THEN CHOOSE f \in DOMAIN Valued : w.v \in {Valued[f][1], Valued[f][2]} ELSE ""

\* acc: [out: "run", "info", "error", or "unsaid";  vals: values by option;  set: flags;  ignore]
Start(ignore) == [out |-> "run", vals |-> <<>>, set |-> {}, ignore |-> ignore]
Set(acc, f, x) == [acc EXCEPT !.vals = (f :> x) @@ @]
\* An option that a section may not have is like one that does not exist.
RECURSIVE Read(_, _, _)
Read(ws, here, acc) ==
  IF ws = <<>> \/ acc.out # "run" THEN acc
  ELSE LET w == Head(ws) f == FlagOf(w) j == JoinedOf(w) p == OpensOf(w) rest == Tail(ws) IN
    CASE here = "cli" /\ f \in {"h", "v"} -> [acc EXCEPT !.out = "info"]
      [] here = "cli" /\ f = "s"          -> Read(rest, here, acc)
      [] f = "i"                          -> Read(rest, here, [acc EXCEPT !.ignore = TRUE])
      [] f \notin {"", "h", "v", "s"}     -> Read(rest, here, [acc EXCEPT !.set = @ \cup {f}])
      [] j # "" /\ (here = "cli" \/ j \notin {"c", "n"}) -> Read(rest, here, Set(acc, j, w.v))
      [] p # "" /\ (here = "cli" \/ p \notin {"c", "n"}) ->
           IF rest = <<>> THEN [acc EXCEPT !.out = IF acc.ignore THEN "unsaid" ELSE "error"]
           ELSE Read(Tail(rest), here, Set(acc, p, Text(Head(rest))))
      [] OTHER                            -> IF acc.ignore THEN Read(rest, here, acc) ELSE [acc EXCEPT !.out = "error"]

Get(vals, f, default) == IF f \in DOMAIN vals THEN vals[f] ELSE default
\* The command line goes on where the section ends, and so decides.
Combine(sec, cli) == [out |-> IF sec.out # "run" THEN sec.out ELSE "run", vals |-> cli.vals @@ sec.vals, set |-> cli.set \cup sec.set]

\* --- a server --------------------------------------------------------------------
\* x: [cli: words;  name, config: the environment's ("(unset)");  host: the host's name;  default: the configuration in the working directory]
\* configs: name -> server -> [words, own];  numbers: texts of numbers -> value
\* Result: [out, config, server, e, m, t, p (texts), set]
Nothing(out) == [out |-> out]
Effective(x, configs) ==
  LET cli == Read(x.cli, "cli", Start(FALSE)) IN
  IF cli.out # "run" THEN Nothing(cli.out)
  ELSE LET n == Get(cli.vals, "n", "")
           server == IF n # "" THEN n ELSE IF x.name # "(unset)" THEN x.name ELSE x.host
           config == IF "c" \in DOMAIN cli.vals THEN cli.vals["c"] ELSE IF x.config # "(unset)" THEN x.config ELSE x.default
       IN IF config \notin DOMAIN configs THEN Nothing("error")
          ELSE LET servers == configs[config]
                   own == IF server \in DOMAIN servers THEN servers[server].own ELSE {}
                   sec == IF own = {} THEN Start(FALSE) ELSE Read(servers[server].words, "section", Start(cli.ignore))
                   all == Combine(sec, cli)
                   g(f, d) == Get(all.vals, f, d)
               IN IF all.out # "run" THEN Nothing(all.out)
                  ELSE [out |-> "run", config |-> config, server |-> server, own |-> own, others |-> UNION {servers[s].own : s \in DOMAIN servers} \ own,
                        e |-> g("e", "."), m |-> g("m", "-1"), t |-> g("t", "-1"), p |-> g("p", "(default)"), set |-> all.set]
=============================================================================
