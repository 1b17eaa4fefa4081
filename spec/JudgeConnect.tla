---------------------------- MODULE JudgeConnect ----------------------------
EXTENDS Judging, Connect
CONSTANT Slack
ConnectGood(x) == Allowed(x.o, Slack)
IdleGood(x) == Frugal(x.o)
=============================================================================
