----------------------------- MODULE GenConfig -----------------------------
(* Generates configurations: what is meant, and a text that says it.         *)
EXTENDS Config, Json, TLC
CONSTANTS Servers_, Commands_, Words_
VARIABLES ast, text, ph
gvars == <<ast, text, ph>>

Rnd(S) == RandomElement(S)
\* sequences of n results of an operator (which takes a number to be evaluated anew each time)
Many(n, Op(_)) == LET RECURSIVE M(_)
                       M(k) == IF k = 0 THEN <<>> ELSE Append(M(k - 1), Op(k)) IN M(n)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Chance(n) == Rnd(1..n) = 1

Letters == {97, 98, 99, 65, 66, 95, 48, 57, 233, 128, 255}
\* (no "{": a "$" before it would be the start of a reference)
BareChars == Letters \cup {47, 46, 45, 58, 44, 126, 64, 37, 36, 125, 91, 93, 92, 63, 33, 42, 59, 38, 124, 40}
AnyChars == BareChars \cup {32, 9, 10, 35, 39, 34, 61, 13, 1}
SingleChars == AnyChars \cup {123}
EnvNames == {<<65>>, <<66, 49>>, <<85>>, <<88, 95, 121>>, <<97, 32, 98>>}
EnvValues == {<<>>, <<118>>, <<97, 32, 98>>, <<39>>, <<34, 35>>, <<36, 123, 65, 125>>, <<47, 120, 47, 46, 46>>, <<61>>, <<91, 93>>, <<10>>}

\* Pieces: literal characters (with how each is written), references
Lit(q) == LET n == Rnd(IF q = "bare" THEN {1, 2, 3, 6} ELSE {0, 1, 2, 3, 6}) IN
  [t |-> "lit", n |-> <<>>, v |-> Many(n, LAMBDA k : <<Rnd(IF q = "bare" THEN BareChars ELSE IF q = "sq" THEN SingleChars ELSE AnyChars), Rnd(1..4)>>)]
Piece(q) == LET k == Rnd(1..5) IN
  IF q = "sq" \/ k <= 3 THEN Lit(q)
  ELSE IF k = 4 THEN [t |-> "ref", n |-> Rnd(EnvNames \ (IF q = "bare" THEN {<<97, 32, 98>>} ELSE {})), v |-> <<>>]
  ELSE [t |-> "refd", n |-> Rnd(EnvNames \ (IF q = "bare" THEN {<<97, 32, 98>>} ELSE {})),
        v |-> Many(Rnd(0..3), LAMBDA i : <<Rnd((IF q = "bare" THEN BareChars ELSE AnyChars) \ {125}), Rnd(1..4)>>)]
Segment(q) == [q |-> q, ps |-> Many(Rnd({1, 1, 2, 3}), LAMBDA k : Piece(q))]
\* (two quotations of the same kind, one after the other, would be one)
RECURSIVE Segments(_, _)
Segments(n, last) == IF n = 0 THEN <<>> ELSE
  LET q == Rnd({"bare", "sq", "dq"} \ (IF last = "bare" THEN {} ELSE {last})) IN <<Segment(q)>> \o Segments(n - 1, q)
Empty == <<[q |-> Rnd({"sq", "dq"}), ps |-> <<>>]>>
Plain(cs) == <<[q |-> "bare", ps |-> <<[t |-> "lit", n |-> <<>>, v |-> [i \in DOMAIN cs |-> <<cs[i], 1>>]]>>]>>
Styled(cs, q) == <<[q |-> q, ps |-> <<[t |-> "lit", n |-> <<>>, v |-> [i \in DOMAIN cs |-> <<cs[i], 1>>]]>>]>>

\* What is said
PieceText(q, p) ==
  LET Char(ch) ==
        LET c == ch[1] h == ch[2] IN
        IF q = "bare" THEN <<c>>
        ELSE IF q = "sq" THEN (IF c = SQ THEN <<SQ, SQ>> ELSE <<c>>)
        ELSE LET hex(d, up) == IF d < 10 THEN 48 + d ELSE d + (IF up THEN 55 ELSE 87)
                 hx(up) == <<Bsl, 120, hex(c \div 16, up), hex(c % 16, up)>>
             IN IF c = DQ THEN (IF h = 1 THEN <<Bsl, DQ>> ELSE IF h = 2 THEN <<DQ, DQ>> ELSE hx(h = 3))
                ELSE IF c = Bsl THEN (IF h <= 2 THEN <<Bsl, Bsl>> ELSE hx(h = 3))
                ELSE IF c \in {Tab, LF, CR, SQ} /\ h = 2 THEN (CASE c = Tab -> <<Bsl, 116>> [] c = LF -> <<Bsl, 110>> [] c = CR -> <<Bsl, 114>> [] OTHER -> <<Bsl, SQ>>)
                ELSE IF h = 3 THEN hx(FALSE) ELSE IF h = 4 /\ c > 127 THEN hx(TRUE) ELSE <<c>>
      chars == Flat([i \in DOMAIN p.v |-> Char(p.v[i])])
  IN CASE p.t = "lit" -> chars
       [] p.t = "ref" -> <<Dollar, LBr>> \o p.n \o <<RBr>>
       [] OTHER -> <<Dollar, LBr>> \o p.n \o <<Colon, Minus>> \o chars \o <<RBr>>
SegText(s) == LET in == Flat([i \in DOMAIN s.ps |-> PieceText(s.q, s.ps[i])]) IN
  CASE s.q = "sq" -> <<SQ>> \o in \o <<SQ>> [] s.q = "dq" -> <<DQ>> \o in \o <<DQ>> [] OTHER -> in
WText(w) == Flat([i \in DOMAIN w |-> SegText(w[i])])

\* What is meant
PieceMeaning(p, env) ==
  LET v == [i \in DOMAIN p.v |-> p.v[i][1]] IN
  IF p.t = "lit" THEN v ELSE IF p.n \in DOMAIN env THEN env[p.n] ELSE IF p.t = "refd" THEN v ELSE <<>>
WMeaning(w, env) == Flat([i \in DOMAIN w |-> Flat([j \in DOMAIN w[i].ps |-> PieceMeaning(w[i].ps[j], env)])])

-----------------------------------------------------------------------------
Gap(k) == Rnd({<<32>>, <<32>>, <<9>>, <<32, 32>>, <<32, 9>>})
Maybe(k) == Rnd({<<>>, <<>>, <<32>>, <<9, 32>>})
Note == {<<>>, <<>>, <<>>, <<32>>, <<9>>, <<35, 99>>, <<32, 35, 32, 39, 34, 91, 98>>, <<32, 35>>}
Eol(k) == Rnd({<<10>>, <<10>>, <<10>>, <<13, 10>>, <<10, 10>>, <<10, 32, 9, 10>>, <<10, 35, 32, 91, 120, 93, 32, 39, 10>>, <<10, 35, 10>>})
LineEnd(k) == Rnd(Note) \o Eol(k)

\* (a word without any text is none)
Shown(w) == IF WText(w) = <<>> THEN Empty ELSE w
AWord(k) == IF Chance(12) THEN Empty ELSE LET w == Segments(Rnd({1, 1, 1, 2, 3}), "bare") IN Shown(w)
\* A word that is not a declaration, whatever the environment
Safe == {<<97>>, <<47, 98, 47, 99>>, <<46, 47, 120>>, <<233>>, <<61>>, <<45, 45, 120>>, <<45>>}
SafeWord(k) == IF Chance(12) THEN Empty ELSE LET v == Rnd(Safe) IN Styled(v, Rnd({"bare", "sq", "dq"}))
VarName(k) == Rnd({<<>>, <<>>, <<63>>, <<61>>}) \o Rnd({<<86>>, <<87, 49>>, <<95>>, <<118, 32>>, <<86>>})
VarDecl(k) == LET n == VarName(k) v == Segments(Rnd({0, 1, 1, 2}), "bare")
                  quoted == (\E i \in DOMAIN n : n[i] = 32) \/ Chance(4) IN
  \* the name, quoted or not, then "=", then the value
  [name |-> n, value |-> v,
   word |-> (IF quoted THEN (IF v # <<>> /\ v[1].q = "sq" THEN Styled(n, "dq") ELSE Styled(n, "sq")) ELSE Plain(n)) \o Plain(<<61>>) \o v]
CommandName(k) == Rnd({<<97>>, <<98, 43, 43>>, <<99, 32, 100>>, <<101>>, <<70, 71>>, <<46, 104>>, <<233, 105>>, <<106, 39>>})
Quoting(cs) == IF \E i \in DOMAIN cs : cs[i] \in {32, SQ} THEN Rnd({"sq", "dq"}) ELSE Rnd({"bare", "bare", "sq", "dq"})
Command(k) ==
  LET n == CommandName(k) vars == Many(Rnd({0, 0, 1, 2}), VarDecl)
      exe == IF Chance(3) THEN <<>> ELSE <<SafeWord(1)>> \o Many(Rnd(0..Words_), AWord)
      ws == <<Styled(n, Quoting(n))>> \o [i \in DOMAIN vars |-> vars[i].word] \o exe
  IN [t |-> "command", name |-> n, vars |-> vars, exe |-> exe, bad |-> FALSE,
      text |-> Maybe(1) \o Flat([i \in DOMAIN ws |-> (IF i = 1 THEN <<>> ELSE Gap(i)) \o WText(ws[i])]) \o LineEnd(2)]
Ports == {<<49>>, <<49, 49, 50, 48>>, <<54, 53, 53, 51, 53>>, <<48, 48, 56, 48>>, <<54, 53, 53, 51, 52>>, <<50, 48, 48, 48>>, <<48, 48, 48, 48, 48, 48, 48, 55>>}
HostName(k) == Rnd({<<115>>, <<116>>, <<117, 32, 118>>, <<115, 46, 100>>, <<93, 120>>, <<233>>})
OptionWords == {<<45, 45, 120>>, <<45, 45, 121, 61, 122>>, <<45, 98>>, <<114>>, <<45, 45>>}
Server(k) ==
  LET n == HostName(k) port == IF Chance(2) THEN <<>> ELSE Rnd(Ports)
      vars == Many(Rnd({0, 0, 1, 2}), VarDecl)
      opts == IF Chance(2) THEN <<>> ELSE LET o == Rnd(OptionWords) IN <<Styled(o, Rnd({"bare", "sq", "dq"}))>> \o Many(Rnd(0..2), AWord)
      ws == [i \in DOMAIN vars |-> vars[i].word] \o opts
      q == IF \E i \in DOMAIN n : n[i] \in {32, 93} THEN Rnd({"sq", "dq"}) ELSE Rnd({"bare", "bare", "sq", "dq"})
      name == WText(Styled(n, q)) \o (IF port = <<>> THEN <<>> ELSE <<Colon>> \o port)
  IN [t |-> "server", name |-> n, port |-> port, vars |-> vars, opts |-> opts, bad |-> FALSE,
      text |-> Maybe(1) \o <<Open>> \o Maybe(2) \o name \o Maybe(3) \o <<Close>> \o Maybe(4)
               \o Flat([i \in DOMAIN ws |-> (IF i = 1 THEN <<>> ELSE Gap(i)) \o WText(ws[i])]) \o LineEnd(5)]
Key(k) == LET s == Rnd(1..6) IN
  CASE s = 1 -> WText(Styled(k, "sq")) [] s = 2 -> WText(Styled(k, "dq")) [] s = 3 -> SubSeq(k, 1, 4) \o <<SQ>> \o SubSeq(k, 5, Len(k)) \o <<SQ>> [] OTHER -> k
Times == {<<48>>, <<49>>, <<45, 49>>, <<51, 48, 48, 48, 48>>, <<48, 48, 55>>, <<45, 48>>, MaxLL, <<Minus>> \o MinLL, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>}
Setting(k) ==
  LET b == Chance(2)
      v == IF b THEN Segments(Rnd({0, 1, 1, 2}), "bare") ELSE Styled(Rnd(Times), Rnd({"bare", "sq", "dq"}))
      key == IF b THEN BaseDirectory ELSE ConnectTimeoutMs
  IN [t |-> "setting", base |-> b, value |-> v, bad |-> FALSE,
      text |-> Maybe(1) \o Key(key) \o Maybe(2) \o <<Eq>> \o Maybe(3) \o WText(v) \o LineEnd(4)]
\* Lines that are errors (an error is an error wherever it is)
C(s) == s
Errors(inServer) ==
  IF inServer THEN
    { <<Open, LF>>, <<Open, 97, 32, 98, Close, LF>>, <<Open, 97, Colon, 54, 53, 53, 51, 54, Close, LF>>, <<Open, 97, Colon, 52, 95, 49, Close, LF>>,
      <<Open, 97, Colon, Close, LF>>, <<Open, Space, Close, LF>>, <<Open, 97, LF>>, <<Open, 97, Hash, Close, LF>>,
      <<Open, 97, Colon, 52, 50, 57, 52, 57, 54, 56, 52, 49, 54, Close, LF>>, <<Open, 97, Colon, 49, Colon, 50, Close, LF>>,
      <<Open, 97, Colon, 45, 49, Close, LF>>, <<Open, LF, 97, Close, LF>>,
      <<Open, 97, Colon, 49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 55, Close, LF>>,
      <<97, 32, DQ, Bsl, 113, DQ, LF>>, <<97, 32, DQ, Bsl, 120, 103, 48, DQ, LF>>, <<97, 32, DQ, Bsl, 120, 52, DQ, LF>>, <<97, 32, DQ, Bsl, 88, 52, 49, DQ, LF>> }
  ELSE
    { <<120, Eq, 121, LF>>, BaseDirectory \o <<Eq, 97, 32, 98, LF>>, ConnectTimeoutMs \o <<Eq, 120, LF>>, ConnectTimeoutMs \o <<Eq, LF>>,
      ConnectTimeoutMs \o <<Eq>> \o MinLL \o <<LF>>, ConnectTimeoutMs \o <<Eq, 45, LF>>, <<98, 97, 115, 101, Eq, 97, LF>>,
      BaseDirectory \o <<Eq, DQ, Bsl, 107, DQ, LF>>, BaseDirectory \o <<Eq, 97, Space, Eq, LF>>, <<66>> \o Tail(BaseDirectory) \o <<Eq, 97, LF>>,
      <<Eq, 97, LF>> }
Erroneous(inServer) == [t |-> "error", bad |-> TRUE, text |-> Rnd(Errors(inServer))]

Lines(k) ==
  LET ns == Rnd(0..Servers_)
      Block(b) == <<Server(b)>> \o Many(Rnd(0..Commands_), Command) \o (IF Chance(14) THEN <<Erroneous(TRUE)>> \o Many(Rnd(0..1), Command) ELSE <<>>)
  IN Many(Rnd({0, 1, 2}), Setting) \o (IF Chance(14) THEN <<Erroneous(FALSE)>> \o Many(Rnd(0..1), Setting) ELSE <<>>)
     \o Flat(Many(ns, Block))
     \o (IF Chance(20) THEN <<[t |-> "error", bad |-> TRUE, text |-> Rnd({<<122, SQ, 97, LF>>, <<122, 61, DQ, 97, LF>>, <<122, 61, DQ, 97, Bsl, DQ>>})]>> ELSE <<>>)
AnEnv(k) == LET D == Rnd(SUBSET EnvNames) IN {<<n, Rnd(EnvValues)>> : n \in D}
Fn(P) == [n \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = n)[2]]
Works == {<<47>>, <<47, 119>>, <<47, 119, 47, 46, 47, 47, 120, 47, 46, 46, 47>>, <<47, 46, 46, 47, 119>>}

-----------------------------------------------------------------------------
(* The meaning, from the lines                                               *)
Decls(vars, env) == [i \in DOMAIN vars |-> [name |-> vars[i].name, value |-> WMeaning(vars[i].value, env)]]
RECURSIVE Mean(_, _, _)
Mean(ls, env, m) ==
  IF ls = <<>> \/ m.st # "ok" THEN m
  ELSE LET l == Head(ls) IN Mean(Tail(ls), env,
    CASE l.bad -> Bad
      [] l.t = "setting" /\ l.base ->
           LET v == WMeaning(l.value, env) IN [m EXCEPT !.base = Normalize(IF Absolute(v) THEN v ELSE m.work \o <<Sep>> \o v)]
      [] l.t = "setting" -> LET x == Millis(WMeaning(l.value, env)) IN [m EXCEPT !.timeout = x.val]
      [] l.t = "server" ->
           IF l.port = <<>> /\ m.port = 65536 THEN Bad
           ELSE LET p == IF l.port = <<>> THEN m.port ELSE Value(l.port, 0) IN
                [m EXCEPT !.port = p + 1, !.cur = [name |-> l.name, port |-> p, opts |-> [i \in DOMAIN l.opts |-> WMeaning(l.opts[i], env)], env |-> Decls(l.vars, env)]]
      [] OTHER ->
           [m EXCEPT !.defs = Append(@, [name |-> l.name, host |-> m.cur.name, port |-> m.cur.port, opts |-> m.cur.opts,
               env |-> m.cur.env \o Decls(l.vars, env),
               exe |-> IF l.exe = <<>> THEN <<l.name>> ELSE [i \in DOMAIN l.exe |-> WMeaning(l.exe[i], env)]])])
Meaning(c) == Mean(c.lines, Fn(c.env), [st |-> "ok", work |-> Normalize(c.work), base |-> Normalize(c.work), timeout |-> <<51,48,48,48,48>>, port |-> 1120,
                                        cur |-> [name |-> <<>>, port |-> 0, opts |-> <<>>, env |-> <<>>], defs |-> <<>>])

GenInit == ast = <<>> /\ text = <<>> /\ ph = 0
Make == ph = 0 /\ ph' = 1 /\ ast' = [lines |-> Lines(1), env |-> AnEnv(1), work |-> Rnd(Works)] /\ UNCHANGED text
Render == ph = 1 /\ ph' = 2 /\ UNCHANGED ast
          /\ text' = LET t == Flat([i \in DOMAIN ast.lines |-> ast.lines[i].text]) IN
                     IF t # <<>> /\ t[Len(t)] = LF /\ Chance(3) THEN SubSeq(t, 1, Len(t) - 1) ELSE t
\* The text says what is meant: an invariant of the generator.
Agrees(m, l) == CASE m.st = "bad" -> l.st = "bad"
                  [] OTHER -> l.st = "ok" /\ l.base = m.base /\ l.timeout = m.timeout /\ l.defs = m.defs
Says == ph = 2 => LET m == Meaning(ast) l == Load(text, Fn(ast.env), ast.work) IN
                 Agrees(m, l) \/ (PrintT(<<"DISAGREE", text, ast.env, m, l>>) /\ FALSE)
Hosts == {ast.lines[i].name : i \in {i \in DOMAIN ast.lines : ast.lines[i].t = "server"}}
Emit == ph = 2 /\ ph' = 3 /\ UNCHANGED <<ast, text>>
        /\ PrintT("SCHEDULE " \o ToJson([text |-> text, env |-> ast.env, work |-> ast.work, hosts |-> Hosts, st |-> Meaning(ast).st]))
GenNext == Make \/ Render \/ Emit
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
