----------------------------- MODULE MCGrammar -----------------------------
(* The parser machine accepts exactly the language of the RFC's grammar:   *)
(* checked on every sequence of up to MaxPieces pieces, where a piece is a *)
(* byte or a short byte string from a family of alphabets.                 *)
EXTENDS JsonText, JsonGrammar, FiniteSets
CONSTANTS Family, MaxPieces

B(x) == <<x>>
Structure == { B(LBRACE), B(RBRACE), B(LBRACK), B(RBRACK), B(COMMA), B(COLON), B(SP),
               B(49), <<QUOTE, QUOTE>>, <<116, 114, 117, 101>> }
Numbers   == { B(MINUS), B(48), B(49), B(DOT), B(101), B(PLUS), B(SP) }
Strings   == { B(QUOTE), B(BSL), B(117), B(110), B(97), B(31), <<100, 56, 48, 48>>,
               <<100, 99, 48, 48>>, <<48, 48, 52>>, B(65) }
Utf8s     == { B(QUOTE), B(127), B(128), B(143), B(144), B(159), B(160), B(191), B(192), B(194),
               B(223), B(224), B(225), B(237), B(239), B(240), B(243), B(244), B(245) }
Lits      == { <<110, 117, 108>>, B(108), <<116, 114>>, B(117), B(101), <<102, 97, 108>>, B(115), B(SP), B(12) }
Pieces == CASE Family = "structure" -> Structure [] Family = "numbers" -> Numbers
            [] Family = "strings" -> Strings [] Family = "utf8" -> Utf8s [] OTHER -> Lits

\* strings and utf8 start inside a literal
Prefix == IF Family \in {"utf8", "strings"} THEN <<QUOTE>> ELSE <<>>

VARIABLES vS, vN, vM
vars == <<vS, vN, vM>>
Init == vS = Prefix /\ vN = 0 /\ vM = Feed(InitMachine(DefaultCfg), Prefix).m
Next == /\ vN < MaxPieces
        /\ \E p \in Pieces : /\ vS' = vS \o p
                             /\ vM' = Feed(vM, p).m
        /\ vN' = vN + 1
Spec == Init /\ [][Next]_vars

\* the text so far is accepted iff the grammar derives it
SameLanguage == (Finish(vM).st = "ok") <=> IsJsonText(vS)
\* Every live state can be completed into a text, except where the lexer is
\* still inside a token which the grammar will refuse once it is complete.
Viable == Live(vM) => (Accepts(vS \o Completion(vM), DefaultCfg) <=> ~Doomed(vM))
\* decoding: the machine is in error state "Utf8" only for ill-formed input or escapes
Utf8Agrees == (Finish(vM).st = "ok") => Utf8Valid(vS)
\* the error window is sane
Window == ~Live(vM) => vM.err.lo <= vM.err.hi /\ vM.err.hi <= Len(vS)
=============================================================================
