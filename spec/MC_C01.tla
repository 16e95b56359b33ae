------------------------------- MODULE MC_C01 -------------------------------
(* C01: arguments *)
EXTENDS Rsh
MyAlphabet == {
    "pr 'a b' c",
    "pr '' x ''",
    "pr \"a b\" 'c' \"\"",
    "pr  a	 b  ",
    "pr '$A' $A",
    "pr '#x' a#b 'c",
    "A='x  y'",
    "f 'p q' $A ''",
    "pr 'a;b' '|' '&&' '>' \"<(\"",
    "pr é 'ü  ö'",
    "pr k='a b' --x=$A",
    "pr -n -- - _ ~ a:b a,b",
    " 'pr' \"it's\" 'say \"x\"'",
    "al 'b  c'"}
MyPrelude == <<"f() { pr $1 $2 $3 ; pr $0 ; }",
    "alias al='pr 1  \"2 3\"'">>
MyFs == [x \in {} |-> 0]
MyArgs == <<>>
(* what these lines print, whatever was before *)
Expect == ("pr 'a b' c" :> <<{">[a b][c]"}>>) @@
          ("pr '' x ''" :> <<{">[][x][]"}>>) @@
          ("pr \"a b\" 'c' \"\"" :> <<{">[a b][c][]"}>>) @@
          ("pr  a	 b  " :> <<{">[a][b]"}>>) @@
          ("pr 'a;b' '|' '&&' '>' \"<(\"" :> <<{">[a;b][|][&&][>][<(]"}>>) @@
          ("pr é 'ü  ö'" :> <<{">[é][ü  ö]"}>>) @@
          ("pr -n -- - _ ~ a:b a,b" :> <<{">[-n][--][-][_][~][a:b][a,b]"}>>) @@
          (" 'pr' \"it's\" 'say \"x\"'" :> <<{">[it's][say \"x\"]"}>>) @@
          ("al 'b  c'" :> <<{">[1][2 3][b  c]"}>>)
Printed == [][(Line \in DOMAIN Expect /\ Known) => st'.w.str["out"] = AddLines(st.w.str["out"], Expect[Line])]_vars
==============================================================================
