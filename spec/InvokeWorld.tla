---------------------------- MODULE InvokeWorld ----------------------------
(* The world that vk/requests.py builds.                                     *)
EXTENDS Invoke
J == ("--config=A" :> "A") @@ ("--config=B" :> "B") @@ ("--config=" :> "") @@ ("--config=nofile" :> "nofile") @@ ("--config=N" :> "N")
Client == <<"cbase">>
\* directories that exist below the base directories of client and server
ServerDirs == {<<>>, <<"sub">>, <<"sub", "deep">>, <<"sp ace">>, <<"..x">>, <<"NL">>, <<"cbase">>, <<"LONGDIR">>, <<"sub", "ODD">>, <<"...">>}
Cwds == {Client \o d : d \in ServerDirs \cup {<<"only">>, <<"file">>, <<"sub", "only">>, <<"GONE">>}} \cup {<<>>, <<"cbase2">>, <<"cbase2", "sub">>, <<"other">>, <<"cbas">>}
World ==
  [files |-> [inDir |-> (Client :> "A") @@ (<<"cbase2">> :> "A") @@ (<<"cbase", "sub">> :> "B"),
              base |-> ("A" :> Client) @@ ("B" :> <<"cbase", "sub">>) @@ ("N" :> Client),
              cmds |-> ("A" :> ("run" :> "srv" @@ "two" :> "srv" @@ "tool" :> "srv" @@ "rel" :> "srv" @@ "ghost" :> "srv" @@ "far" :> "srv2"
                          @@ "k8psh2" :> "srv" @@ "k8pshd2" :> "srv"))
                    @@ ("B" :> ("run" :> "srv2" @@ "two" :> "srv"))
                    @@ ("N" :> ("far" :> "srv" @@ "two" :> "srv2"))],   \* commands that the other server has
   servers |-> ("srv" :> [c \in {"run", "two", "tool", "rel", "k8psh2", "k8pshd2"} |->     \* (names like its own are commands' names)
                   CASE c \in {"run", "k8psh2", "k8pshd2"} -> [exe |-> <<"PUPPET", "CTL">>, dirs |-> ServerDirs]
                     [] c = "two" -> [exe |-> <<"PUPPET", "CTL", "a b", "", "-c", "it's", "BYTES">>, dirs |-> ServerDirs]
                     [] c = "tool" -> [exe |-> <<"puppet", "CTL">>, dirs |-> ServerDirs]
                     [] c = "rel" -> [exe |-> <<"./prog", "CTL">>, dirs |-> {<<"sub">>}]])
            @@ ("srv2" :> [c \in {"run", "far"} |->
                   CASE c = "run" -> [exe |-> <<"PUPPET", "CTL", "second">>, dirs |-> ServerDirs]
                     [] c = "far" -> [exe |-> <<"PUPPET", "CTL", "far">>, dirs |-> ServerDirs]])]
=============================================================================
