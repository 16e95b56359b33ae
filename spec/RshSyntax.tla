----------------------------- MODULE RshSyntax -----------------------------
(* The language of rsh: from a text to tokens, and from tokens to a tree.   *)
(*                                                                          *)
(* A token is [k, v] where k is its kind: the operator itself, "NL", "EOF", *)
(* "NUM" (the number of a redirection), "KW" (a reserved word, which no     *)
(* production uses), "W" (a word, v is its text with its quotes) or "ERR".  *)
EXTENDS RshStr

Stops == {";", "&", "|", "(", ")", "{", "}", "<", ">", "!", "$", "`", "*", "="} \cup White
Keywords == {"for", "in", "while", "if", "then", "else", "elif", "fi", "do",
             "done", "case", "esac"}

Tok(k) == [k |-> k, v |-> ""]

(* past white space and comments *)
RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) ==
  LET a == ScanOver(s, White, i)
  IN  IF a <= Len(s) /\ Ch(s, a) = "#" THEN SkipBlank(s, ScanTo(s, {"\n"}, a)) ELSE a

WordTok(s, i, e) ==      \* the word s[i..e-1]
  LET w == SubSeq(s, i, e - 1)
  IN  IF w \in Keywords THEN [k |-> "KW", v |-> w]
      ELSE IF e <= Len(s) /\ Ch(s, e) \in {"<", ">"} /\ IsNumber(w)
           THEN [k |-> "NUM", v |-> w]
      ELSE [k |-> "W", v |-> w]

(* the tokens of s from position i on *)
RECURSIVE LexFrom(_, _)
LexFrom(s, i) ==
  IF i > Len(s) THEN <<Tok("EOF")>> ELSE
  LET c == Ch(s, i)
      d == IF i < Len(s) THEN Ch(s, i + 1) ELSE ""
      close(e) == IF e > Len(s) THEN Len(s) + 1 ELSE e + 1   \* past the closing character
  IN
  CASE c = "\n" -> <<Tok("NL")>> \o LexFrom(s, SkipBlank(s, i + 1))
    [] c = ";" -> <<Tok(";")>> \o LexFrom(s, SkipBlank(s, i + 1))
    [] c = "#" -> LexFrom(s, ScanTo(s, {"\n"}, i))
    [] c \in White -> LexFrom(s, i + 1)
    [] c \in {"|", "&"} /\ d = c -> <<Tok(c \o c)>> \o LexFrom(s, i + 2)
    [] c \in {">", "<"} /\ d \in {c, "&"} -> <<Tok(c \o d)>> \o LexFrom(s, i + 2)
    [] c \in {"|", "&", "(", ")", "{", "}", ">", "<", "=", "!"} -> <<Tok(c)>> \o LexFrom(s, i + 1)
    [] c \in {"\"", "'"} ->
         LET e == ScanTo(s, {c}, i + 1)
         IN  IF e > Len(s) THEN <<Tok("ERR")>>
             ELSE <<[k |-> "W", v |-> SubSeq(s, i, e)]>> \o LexFrom(s, e + 1)
    [] c = "$" /\ d = "{" -> <<Tok("$")>> \o LexFrom(s, i + 1)
    [] (c = "$" /\ d = "(") \/ c = "`" ->
         LET e == close(ScanTo(s, {IF c = "`" THEN "`" ELSE ")"}, i + 1))
         IN  <<[k |-> "W", v |-> SubSeq(s, i, e - 1)]>> \o LexFrom(s, e)
    [] c = "*" -> <<Tok("ERR")>>
    [] OTHER ->    \* a word, or a "$" and the name of a variable
         LET e == ScanTo(s, Stops, i + 1)
         IN  <<WordTok(s, i, e)>> \o LexFrom(s, e)

Lex(s) == LexFrom(s, 1)

---------------------------------------------------------------------------
(* The grammar. P*(t, i) reads from token i on and gives [ok, v, i].         *)
Fail == [ok |-> FALSE]
Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
K(t, i) == IF i <= Len(t) THEN t[i].k ELSE "EOF"

IsRedir(t, i) == K(t, i) = "NUM" \/ K(t, i) \in {"<", ">", ">>"}
PRedir(t, i) ==
  LET n == IF K(t, i) = "NUM" THEN i + 1 ELSE i
  IN  IF K(t, n) \in {"<", ">", ">>"} /\ K(t, n + 1) = "W"
      THEN Good([op |-> K(t, n), w |-> t[n + 1].v,
                 n |-> IF n > i THEN NumberOf(t[i].v) ELSE IF K(t, n) = "<" THEN 0 ELSE 1], n + 2)
      ELSE Fail

EmptyCmd == [k |-> "simple", pre |-> FALSE, asg |-> <<>>, rd |-> <<>>, name |-> "", words |-> <<>>, body |-> <<>>]

(* redirections and words after the name of a command *)
RECURSIVE PSuffix(_, _, _)
PSuffix(t, i, c) ==
  IF IsRedir(t, i) THEN
    LET r == PRedir(t, i) IN IF r.ok THEN PSuffix(t, r.i, [c EXCEPT !.rd = Append(@, r.v)]) ELSE Fail
  ELSE IF K(t, i) = "W" THEN
    IF K(t, i + 1) = "="
    THEN IF K(t, i + 2) = "W"
         THEN PSuffix(t, i + 3, [c EXCEPT !.words = Append(@, t[i].v \o "=" \o t[i + 2].v)])
         ELSE Fail
    ELSE PSuffix(t, i + 1, [c EXCEPT !.words = Append(@, t[i].v)])
  ELSE Good(c, i)

(* redirections and assignments before it *)
RECURSIVE PSimple(_, _, _)
PSimple(t, i, c) ==
  IF IsRedir(t, i) THEN
    LET r == PRedir(t, i) IN IF r.ok THEN PSimple(t, r.i, [c EXCEPT !.rd = Append(@, r.v), !.pre = TRUE]) ELSE Fail
  ELSE IF K(t, i) = "W" THEN
    IF K(t, i + 1) = "="
    THEN IF K(t, i + 2) = "W"
         THEN PSimple(t, i + 3, [c EXCEPT !.asg = Append(@, t[i].v \o "=" \o t[i + 2].v), !.pre = TRUE])
         ELSE Fail
    ELSE PSuffix(t, i + 1, [c EXCEPT !.name = t[i].v])
  ELSE IF ~c.pre THEN Fail
  ELSE Good(c, i)

SkipNL(t, i) == IF K(t, i) = "NL" THEN i + 1 ELSE i

RECURSIVE PRedirs(_, _)
PRedirs(t, i) ==
  IF ~IsRedir(t, i) THEN Good(<<>>, i) ELSE
  LET r == PRedir(t, i)
      q == IF r.ok THEN PRedirs(t, r.i) ELSE Fail
  IN  IF q.ok THEN Good(<<r.v>> \o q.v, q.i) ELSE Fail

RECURSIVE PCommand(_, _)
RECURSIVE PSeq(_, _)
RECURSIVE PPipeline(_, _)
RECURSIVE PAndOr(_, _, _)
RECURSIVE PList(_, _, _)

(* { list }, where a separator may follow the list *)
PGroup(t, i) ==
  IF K(t, i) # "{" THEN Fail ELSE
  LET l == PList(t, SkipNL(t, i + 1), TRUE)
  IN  IF ~l.ok THEN Fail
      ELSE LET j == IF K(t, l.i) \in {";", "NL"} THEN l.i + 1 ELSE l.i
           IN  IF K(t, j) = "}" THEN Good(l.v, j + 1) ELSE Fail

PCommand(t, i) ==
  IF K(t, i) = "{" THEN
    LET g == PGroup(t, i)
    IN  IF g.ok THEN Good([EmptyCmd EXCEPT !.k = "group", !.body = g.v], g.i) ELSE Fail
  ELSE IF K(t, i) = "W" /\ K(t, i + 1) = "(" THEN
    IF K(t, i + 2) # ")" THEN Fail ELSE
    LET g == PGroup(t, SkipNL(t, i + 3))
    IN  IF ~g.ok THEN Fail
        ELSE LET r == PRedirs(t, g.i)
             IN  IF r.ok THEN Good([EmptyCmd EXCEPT !.k = "fdef", !.name = t[i].v, !.body = g.v, !.rd = r.v], r.i)
                 ELSE Fail
  ELSE PSimple(t, i, EmptyCmd)

PSeq(t, i) ==
  LET c == PCommand(t, i)
  IN  IF ~c.ok THEN Fail
      ELSE IF K(t, c.i) = "|"
           THEN LET r == PSeq(t, c.i + 1) IN IF r.ok THEN Good(<<c.v>> \o r.v, r.i) ELSE Fail
           ELSE Good(<<c.v>>, c.i)

PPipeline(t, i) ==
  LET b == K(t, i) = "!"
      q == PSeq(t, IF b THEN i + 1 ELSE i)
  IN  IF ~q.ok THEN Fail
      ELSE LET bg == K(t, q.i) = "&"
           IN  Good([bang |-> b, bg |-> bg, cmds |-> q.v], IF bg THEN q.i + 1 ELSE q.i)

(* acc is what has been read of the chain: its pipelines and operators *)
PAndOr(t, i, acc) ==
  LET p == PPipeline(t, i)
  IN  IF ~p.ok THEN Fail
      ELSE LET a == [acc EXCEPT !.ps = Append(@, p.v)]
           IN  IF K(t, p.i) \in {"&&", "||"}
               THEN PAndOr(t, SkipNL(t, p.i + 1), [a EXCEPT !.ops = Append(@, K(t, p.i))])
               ELSE Good(a, p.i)

(* a list ends where no command follows the separator *)
PList(t, i, ingroup) ==
  LET a == PAndOr(t, i, [ps |-> <<>>, ops |-> <<>>])
  IN  IF ~a.ok THEN Fail
      ELSE IF K(t, a.i) \in {";", "NL"} /\ K(t, a.i + 1) # (IF ingroup THEN "}" ELSE "EOF")
           THEN LET r == PList(t, a.i + 1, ingroup)
                IN  IF r.ok THEN Good(<<a.v>> \o r.v, r.i) ELSE Fail
           ELSE Good(<<a.v>>, a.i)

(* A text is a list with a separator before and after it, or a separator.   *)
Parse(s) ==
  LET t == Lex(s)
  IN  IF \E j \in 1..Len(t) : t[j].k = "ERR" THEN Fail
      ELSE LET j == IF K(t, 1) \in {";", "NL"} THEN 2 ELSE 1
           IN  IF K(t, j) = "EOF" THEN Good(<<>>, j)
               ELSE LET l == PList(t, j, FALSE)
                    IN  IF ~l.ok THEN Fail
                        ELSE LET e == IF K(t, l.i) \in {";", "NL"} THEN l.i + 1 ELSE l.i
                             IN  IF K(t, e) = "EOF" THEN Good(l.v, e) ELSE Fail

---------------------------------------------------------------------------
(* More lines are asked for while a "{" is open, if the first line can be    *)
(* the beginning of a text: there is one that it can be continued with.      *)
Opens(s) ==
  LET t == Lex(s)
      n(k) == Cardinality({j \in 1..Len(t) : t[j].k = k})
  IN  n("{") - n("}")
RECURSIVE Closing(_)
Closing(n) == IF n <= 0 THEN "" ELSE " }" \o Closing(n - 1)
CanGoOn(l) == (Opens(l) > 0 \/ ~Parse(l \o "\n").ok) /\ \E w \in {"x", "{ x }", "`", "` x", ")", ") x"} : Parse(l \o "\n" \o w \o Closing(Opens(l))).ok
FirstLine(s) == SubSeq(s, 1, ScanTo(s, {"\n"}, 1) - 1)
Incomplete(s) == Opens(s) > 0 /\ CanGoOn(FirstLine(s))
===========================================================================
