------------------------------ MODULE MCConfig ------------------------------
(* For all short values: either kind of quoting says exactly that value, and *)
(* for all short texts: what is rejected, and how words split, is sane.      *)
EXTENDS Config
CONSTANTS Chars, MaxLen
VARIABLES v
Init == v = <<>>
Next == Len(v) < MaxLen /\ \E c \in Chars : v' = Append(v, c)
Spec == Init /\ [][Next]_v
Env == [n \in {<<97>>} |-> <<39, 32>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Quoted == <<SQ>> \o Cat([i \in DOMAIN v |-> IF v[i] = SQ THEN <<SQ, SQ>> ELSE <<v[i]>>]) \o <<SQ>>
Double1 == <<DQ>> \o Cat([i \in DOMAIN v |-> IF v[i] \in {DQ, Bsl} THEN <<Bsl, v[i]>> ELSE <<v[i]>>]) \o <<DQ>>
Double2 == <<DQ>> \o Cat([i \in DOMAIN v |-> IF v[i] = Bsl THEN <<Bsl, Bsl>> ELSE IF v[i] = DQ THEN <<DQ, DQ>> ELSE <<v[i]>>]) \o <<DQ>>
Is(w, val, n) == w.st = "ok" /\ w.val = val /\ w.next = n
Head1 == <<Open, 104, Close, LF>>
Values ==
  /\ Is(Word(Quoted, 1, End, Env), v, Len(Quoted) + 1)
  /\ Is(Word(Double1, 1, End, Env), Expand(v, Env), Len(Double1) + 1)
  /\ Is(Word(Double2, 1, End, Env), Expand(v, Env), Len(Double2) + 1)
  /\ (\A i \in DOMAIN v : ~Reference(v, i, Env).is) => Expand(v, Env) = v
Texts ==
  /\ \* a rest after the end of a line does not matter to the line
     \A stop \in {End, Eq} : LET w == Word(v, 1, stop, Env) x == Word(v \o <<LF, 97>>, 1, stop, Env) IN w.st = "ok" => x = w
  /\ LET l == Load(Head1 \o v, Env, <<Sep>>) m == Load(Head1 \o v \o <<LF>> \o Head1, Env, <<Sep>>) IN
       \* nothing that follows makes an erroneous line valid, except the end of a quotation
       /\ l.st = "ok" => m.st = "ok" /\ m.defs = l.defs
       /\ l.st = "ok" => \A i \in DOMAIN l.defs : l.defs[i].exe # <<>>
  /\ \* before the first server only settings are valid
     Load(v, Env, <<Sep>>).st = "ok" => Load(v, Env, <<Sep>>).defs = <<>> \/ \E i \in DOMAIN v : v[i] = Open
=============================================================================
