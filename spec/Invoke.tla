------------------------------- MODULE Invoke -------------------------------
(* C06: what a client does with its arguments, configuration and working     *)
(* directory, and what the server starts because of it.                      *)
(*                                                                           *)
(* Directories are sequences of names below a common root, at the client and *)
(* at the server; a configuration file has the client's base directory and   *)
(* the commands, each with the server it belongs to.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Suffix(s, k) == SubSeq(s, k, Len(s))
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* --- the client's own options -----------------------------------------------
Joined == [x \in {} |-> ""]
Running(cmd, args, config) == [out |-> "run", cmd |-> cmd, args |-> args, config |-> config]
Only(out) == [out |-> out, cmd |-> "", args |-> <<>>, config |-> ""]

\* JoinedConfig: the tokens that are "--config=" with a value, and their values
RECURSIVE Parse(_, _, _)
Parse(argv, config, J) ==
  IF argv = <<>> THEN Running("k8psh", <<>>, config)      \* (no command: the client looks for its own name)
  ELSE LET t == Head(argv) IN
    CASE t \in {"-c", "--config"} -> IF Len(argv) = 1 THEN Only("error") ELSE Parse(Suffix(argv, 3), argv[2], J)
      [] t \in DOMAIN J           -> Parse(Tail(argv), J[t], J)
      [] t \in {"-h", "--help", "-v", "--version"} -> Only("ok")
      [] OTHER                    -> Running(t, Tail(argv), config)

\* The configuration file: the last one given, else the environment's, else the default in the working directory.
Unset == "(unset)"
Parsed(form, name, argv, J) == IF form = "plain" THEN Parse(argv, Unset, J) ELSE Running(name, argv, Unset)
ConfigFile(p, envconf, cwd, files) ==
  IF p.config # Unset THEN p.config ELSE IF envconf # Unset THEN envconf
  ELSE IF cwd \in DOMAIN files.inDir THEN files.inDir[cwd] ELSE "(none)"

\* --- the whole --------------------------------------------------------------
Nothing(out) == [out |-> out, server |-> "", argv |-> <<>>, dir |-> <<>>]

\* inv: [form, name, argv, env, cwd];  world: [files: [inDir: cwd -> file, base: file -> dir, cmds: file -> name -> server],
\*   servers: name -> command -> [exe: sequence, dirs: the directories where it can be started]]
Outcome(inv, world, J) ==
  LET p == Parsed(inv.form, inv.name, inv.argv, J) IN
  IF p.out = "error" THEN Nothing("fail")
  ELSE IF p.out = "ok" THEN Nothing("ok")
  ELSE LET f == ConfigFile(p, inv.env, inv.cwd, world.files) IN
    IF f \notin DOMAIN world.files.base THEN Nothing("fail")               \* no such file
    ELSE LET base == world.files.base[f] cs == world.files.cmds[f] IN
      IF p.cmd \notin DOMAIN cs THEN Nothing("fail")                      \* not a configured command
      ELSE IF ~Prefix(base, inv.cwd) THEN Nothing("fail")                 \* not below the base directory
      ELSE LET server == cs[p.cmd] dir == Suffix(inv.cwd, Len(base) + 1) IN
        IF p.cmd \notin DOMAIN world.servers[server] THEN Nothing("fail") \* unknown to the server
        ELSE LET c == world.servers[server][p.cmd] IN
          IF dir \notin c.dirs THEN Nothing("fail")                       \* no such directory (or program there)
          ELSE [out |-> "run", server |-> server, argv |-> c.exe \o p.args, dir |-> dir]
=============================================================================
