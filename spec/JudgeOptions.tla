---------------------------- MODULE JudgeOptions ----------------------------
EXTENDS Judging, OptionsWorld
ToServer(s) == [words |-> s.words, own |-> SetOf(s.own)]
ToConfigs(cs) == [c \in DOMAIN cs |-> [s \in DOMAIN cs[c] |-> ToServer(cs[c][s])]]
OptionsGood(ev) == Judge(ev.x, ToConfigs(ev.configs), ev.got)
=============================================================================
