---------------------------- MODULE JudgeInstall ----------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS TraceFile, Check, Good(_)
VARIABLES tid, l
J == INSTANCE Judging
TraceSpec == J!TraceSpec
I == INSTANCE Install WITH Source <- <<>>, Priors <- {}, Wrong <- {}, pc <- 0, disk <- 0, dest <- 0, at <- 0, held <- 0, status <- 0, first <- 0
InstallGood(x) == I!Allowed(x.o)
=============================================================================
