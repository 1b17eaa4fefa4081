------------------------------- MODULE Config -------------------------------
(* C13: what a configuration text (a sequence of character codes) means.     *)
(* Load(text, env, work) is [st |-> "ok", ...], [st |-> "bad"] (rejected as a *)
(* whole) or [st |-> "any"] (the documentation does not say).                *)
EXTENDS Paths

Tab == 9  LF == 10  VT == 11  FF == 12  CR == 13  Space == 32
DQ == 34  Hash == 35  Dollar == 36  SQ == 39  Minus == 45  Colon == 58  Eq == 61  Open == 91  Bsl == 92  Close == 93  LBr == 123  RBr == 125
End == 0
Blank(c) == c \in {Tab, Space}
White(c) == c \in 9..13 \/ c = Space
At(t, i) == IF i <= Len(t) THEN t[i] ELSE End
Bad == [st |-> "bad"]
Unsaid == [st |-> "any"]

-----------------------------------------------------------------------------
(* References ${NAME} and ${NAME:-default}                                   *)
NameChar(c) == c \in {Space, 40, 41, 45, 46, 95} \/ c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
RECURSIVE Find(_, _, _)
Find(s, i, c) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, i + 1, c)
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ NameChar(s[i]) THEN NameEnd(s, i + 1) ELSE i
\* The reference at i, if there is one: where it ends, and its value.
Reference(s, i, env) ==
  IF ~(At(s, i) = Dollar /\ At(s, i + 1) = LBr) THEN [is |-> FALSE]
  ELSE LET e == NameEnd(s, i + 2)
           name == SubSeq(s, i + 2, e - 1)
           value(d) == IF name \in DOMAIN env THEN env[name] ELSE d
       IN IF At(s, e) = RBr THEN [is |-> TRUE, next |-> e + 1, val |-> value(<<>>)]
          ELSE IF At(s, e) = Colon /\ At(s, e + 1) = Minus /\ Find(s, e + 2, RBr) > 0
            THEN LET b == Find(s, e + 2, RBr) IN [is |-> TRUE, next |-> b + 1, val |-> value(SubSeq(s, e + 2, b - 1))]
          ELSE [is |-> FALSE]
RECURSIVE ExpandFrom(_, _, _, _)
ExpandFrom(s, i, env, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET r == Reference(s, i, env) IN
       IF r.is THEN ExpandFrom(s, r.next, env, acc \o r.val) ELSE ExpandFrom(s, i + 1, env, Append(acc, s[i]))
Expand(s, env) == ExpandFrom(s, 1, env, <<>>)

-----------------------------------------------------------------------------
(* Words                                                                     *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Escaped == [c \in {DQ, Bsl, SQ, 48, 98, 116, 110, 102, 114} |->
              CASE c = 48 -> 0 [] c = 98 -> 8 [] c = 116 -> Tab [] c = 110 -> LF [] c = 102 -> FF [] c = 114 -> CR [] OTHER -> c]

\* What a quoted text that starts at i says ('' is ' in it), and where it ends.
RECURSIVE Single(_, _, _)
Single(t, i, acc) ==
  CASE At(t, i) = End -> Bad
    [] At(t, i) = SQ /\ At(t, i + 1) = SQ -> Single(t, i + 2, Append(acc, SQ))
    [] At(t, i) = SQ -> [st |-> "ok", next |-> i + 1, val |-> acc]
    [] OTHER -> Single(t, i + 1, Append(acc, t[i]))
RECURSIVE Double(_, _, _)
Double(t, i, acc) ==
  CASE At(t, i) = End -> Bad
    [] At(t, i) = DQ /\ At(t, i + 1) = DQ -> Double(t, i + 2, Append(acc, DQ))
    [] At(t, i) = DQ -> [st |-> "ok", next |-> i + 1, val |-> acc]
    [] At(t, i) = Bsl ->
         LET c == At(t, i + 1) IN
         IF c = 120 THEN
           LET h == Hex(At(t, i + 2)) k == Hex(At(t, i + 3)) IN
           IF h > 15 \/ k > 15 THEN Bad ELSE Double(t, i + 4, Append(acc, h * 16 + k))
         ELSE IF c \in DOMAIN Escaped THEN Double(t, i + 2, Append(acc, Escaped[c]))
         ELSE Bad
    [] OTHER -> Double(t, i + 1, Append(acc, t[i]))

\* The word at i, up to white space, a comment, or `stop`: its unquoted and
\* double-quoted text is expanded, its single-quoted text is not.
RECURSIVE WordFrom(_, _, _, _, _, _)
WordFrom(t, i, stop, env, done, run) ==
  LET c == At(t, i) IN
  IF c = End \/ White(c) \/ c = Hash \/ c = stop THEN [st |-> "ok", next |-> i, val |-> done \o Expand(run, env)]
  ELSE IF c = SQ THEN LET q == Single(t, i + 1, <<>>) IN
    IF q.st # "ok" THEN q ELSE WordFrom(t, q.next, stop, env, done \o Expand(run, env) \o q.val, <<>>)
  ELSE IF c = DQ THEN LET q == Double(t, i + 1, <<>>) IN
    IF q.st # "ok" THEN q ELSE WordFrom(t, q.next, stop, env, done, run \o q.val)
  ELSE WordFrom(t, i + 1, stop, env, done, Append(run, c))
Word(t, i, stop, env) == WordFrom(t, i, stop, env, <<>>, <<>>)

RECURSIVE Blanks(_, _), Whites(_, _), Comment(_, _)
Blanks(t, i) == IF Blank(At(t, i)) THEN Blanks(t, i + 1) ELSE i
Whites(t, i) == IF White(At(t, i)) THEN Whites(t, i + 1) ELSE i
Comment(t, i) == IF At(t, i) \in {End, LF} THEN i ELSE Comment(t, i + 1)

\* The words of the rest of a line.
RECURSIVE Words(_, _, _, _)
Words(t, i, env, acc) ==
  LET c == At(t, i) IN
  IF c = End \/ White(c) \/ c = Hash THEN [st |-> "ok", next |-> i, val |-> acc]
  ELSE LET w == Word(t, i, End, env) IN
       IF w.st # "ok" THEN w ELSE Words(t, Blanks(t, w.next), env, Append(acc, w.val))

\* Nothing else may be on a line (a lone CR, VT or FF in it: not documented).
RestOfLine(t, j) ==
  LET i == Blanks(t, j) c == At(t, i) IN
  CASE c \in {End, LF} -> [st |-> "ok", next |-> i]
    [] c = Hash -> [st |-> "ok", next |-> Comment(t, i)]
    [] c = CR /\ At(t, i + 1) \in {LF, End} -> [st |-> "ok", next |-> i + 1]
    [] White(c) -> Unsaid
    [] OTHER -> Bad

-----------------------------------------------------------------------------
(* Numbers, as digits                                                        *)
Digit(c) == c \in 48..57
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
RECURSIVE Less(_, _)
Less(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b))))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~Less(b, a))
MaxLL == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>      \* 2^63 - 1
MinLL == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
\* A number of milliseconds: digits, possibly negative.
Millis(s) ==
  LET neg == s # <<>> /\ s[1] = Minus
      d == IF neg THEN Tail(s) ELSE s
      n == NoZeros(d)
  IN IF d = <<>> \/ ~(Digit(d[1]) \/ White(d[1]) \/ d[1] \in {43, Minus}) THEN Bad
     ELSE IF \E i \in DOMAIN d : ~Digit(d[i]) THEN Unsaid       \* "10x", "+5", " 5"
     ELSE IF ~AtMost(n, IF neg THEN MinLL ELSE MaxLL) THEN Bad
     ELSE [st |-> "ok", val |-> IF neg /\ n # <<48>> THEN <<Minus>> \o n ELSE n]
RECURSIVE Value(_, _)
Value(d, acc) == IF d = <<>> THEN acc ELSE Value(Tail(d), acc * 10 + d[1] - 48)
\* A port; 65536 stands for all that are too large.
Port(s) ==
  IF s = <<>> \/ \E i \in DOMAIN s : ~Digit(s[i]) THEN [st |-> "bad"]
  ELSE LET n == NoZeros(s) IN
       IF Len(n) > 5 THEN Bad ELSE LET v == Value(n, 0) IN
       IF v > 65535 THEN Bad ELSE IF v = 0 THEN Unsaid ELSE [st |-> "ok", val |-> v]

-----------------------------------------------------------------------------
BaseDirectory == <<98,97,115,101,68,105,114,101,99,116,111,114,121>>
ConnectTimeoutMs == <<99,111,110,110,101,99,116,84,105,109,101,111,117,116,77,115>>

\* Settings come before the first server.
RECURSIVE Settings(_, _, _, _)
Settings(t, j, env, acc) ==
  LET i == Whites(t, j) IN
  IF At(t, i) \in {End, Open} THEN [acc EXCEPT !.next = i]
  ELSE IF At(t, i) = Hash THEN Settings(t, Comment(t, i), env, acc)
  ELSE LET k == Word(t, i, Eq, env) IN IF k.st # "ok" THEN k
  ELSE LET e == Blanks(t, k.next) IN
       IF At(t, e) # Eq THEN (IF k.val \in {BaseDirectory, ConnectTimeoutMs} THEN Unsaid
                              ELSE IF At(t, e) = CR \/ (RestOfLine(t, e).st = "any") THEN Unsaid ELSE Bad)
  ELSE LET v == Word(t, Blanks(t, e + 1), End, env) IN IF v.st # "ok" THEN v
  ELSE LET r == RestOfLine(t, v.next) IN IF r.st # "ok" THEN r
  ELSE IF 0 \in {v.val[x] : x \in DOMAIN v.val} THEN Unsaid
  ELSE IF k.val = BaseDirectory
         THEN Settings(t, r.next, env, [acc EXCEPT !.base = Normalize(IF Absolute(v.val) THEN v.val ELSE acc.work \o <<Sep>> \o v.val)])
  ELSE IF k.val = ConnectTimeoutMs
         THEN LET m == Millis(v.val) IN IF m.st # "ok" THEN m ELSE Settings(t, r.next, env, [acc EXCEPT !.timeout = m.val])
  ELSE Bad

\* VAR=value, ?VAR=value or =VAR=value: where its second part starts
Equals(w) == IF Len(w) < 2 THEN 0 ELSE Find(w, 2, Eq)
Assignment(w) == [name |-> SubSeq(w, 1, Equals(w) - 1), value |-> SubSeq(w, Equals(w) + 1, Len(w))]
Leading(ws, P(_)) == CHOOSE n \in 0..Len(ws) : (\A i \in 1..n : P(ws[i])) /\ (n < Len(ws) => ~P(ws[n + 1]))
IsOption(w) == Len(w) >= 2 /\ w[1] = Minus /\ w[2] = Minus
SectionVar(w) == ~IsOption(w) /\ Equals(w) > 0
CommandVar(w) == Equals(w) > 0
\* ("-e=x", or "--x=y" as a command's executable: what is that?)
Doubtful(ws) == \E i \in DOMAIN ws : ws[i] # <<>> /\ ws[i][1] = Minus /\ Equals(ws[i]) > 0

RECURSIVE Servers(_, _, _, _)
Servers(t, j, env, acc) ==
  LET i == Whites(t, j) IN
  IF At(t, i) = End THEN acc
  ELSE IF At(t, i) = Hash THEN Servers(t, Comment(t, i), env, acc)
  ELSE IF At(t, i) = Open THEN
    LET h == Word(t, Blanks(t, i + 1), Close, env) IN IF h.st # "ok" THEN h
    ELSE LET e == Blanks(t, h.next) IN
    IF h.val = <<>> \/ At(t, e) # Close THEN Bad
    ELSE LET ws == Words(t, Blanks(t, e + 1), env, <<>>) IN IF ws.st # "ok" THEN ws
    ELSE LET r == RestOfLine(t, ws.next) IN IF r.st # "ok" THEN r
    ELSE LET c == Find(h.val, 1, Colon)
             p == IF c = 0 THEN (IF acc.port > 65535 THEN Bad ELSE [st |-> "ok", val |-> acc.port])
                  ELSE Port(SubSeq(h.val, c + 1, Len(h.val)))
             n == Leading(ws.val, SectionVar)
         IN IF p.st # "ok" THEN p
            ELSE IF c = 1 \/ Doubtful(SubSeq(ws.val, 1, n)) THEN Unsaid
            ELSE Servers(t, r.next, env,
                   [acc EXCEPT !.port = p.val + 1,
                               !.host = [name |-> IF c = 0 THEN h.val ELSE SubSeq(h.val, 1, c - 1), port |-> p.val,
                                         opts |-> SubSeq(ws.val, n + 1, Len(ws.val)),
                                         env |-> [k \in 1..n |-> Assignment(ws.val[k])]]])
  ELSE
    LET ws == Words(t, i, env, <<>>) IN IF ws.st # "ok" THEN ws
    ELSE LET r == RestOfLine(t, ws.next) IN IF r.st # "ok" THEN r
    ELSE LET rest == Tail(ws.val)
             n == Leading(rest, CommandVar)
             exe == SubSeq(rest, n + 1, Len(rest))
         IN IF Doubtful(SubSeq(rest, 1, n)) THEN Unsaid
            ELSE Servers(t, r.next, env,
                   [acc EXCEPT !.defs = Append(@, [name |-> ws.val[1], host |-> acc.host.name, port |-> acc.host.port, opts |-> acc.host.opts,
                                                   env |-> acc.host.env \o [k \in 1..n |-> Assignment(rest[k])],
                                                   exe |-> IF exe = <<>> THEN <<ws.val[1]>> ELSE exe])])

Load(t, env, work) ==
  LET s == Settings(t, 1, env, [st |-> "ok", next |-> 1, work |-> Normalize(work), base |-> Normalize(work), timeout |-> <<51,48,48,48,48>>]) IN
  IF s.st # "ok" THEN s
  ELSE LET d == Servers(t, s.next, env, [st |-> "ok", port |-> 1120, host |-> [name |-> <<>>, port |-> 0, opts |-> <<>>, env |-> <<>>], defs |-> <<>>]) IN
       IF d.st # "ok" THEN d ELSE [st |-> "ok", base |-> s.base, timeout |-> s.timeout, defs |-> d.defs]

\* Of several definitions of a command (for one server, or for all), the last.
Lasts(defs) == {defs[i] : i \in {i \in DOMAIN defs : \A j \in DOMAIN defs : j > i => defs[j].name # defs[i].name}}
OfHost(defs, h) == SelectSeq(defs, LAMBDA d : d.host = h)
ForClients(l) == Lasts(l.defs)
ForServer(l, h) == Lasts(OfHost(l.defs, h))
=============================================================================
