---------------------------- MODULE TextInputMC -----------------------------
(* The readers accept exactly the language of the grammar, on all texts over small alphabets. *)
EXTENDS TextInput
CONSTANTS LEN
VARIABLE s
A == { "0", "1", "-", ".", "e", "+" }
Init == s = << >>
Next == Len(s) < LEN /\ \E c \in A : s' = Append(s, c)
(* the declarative grammar: a text is a number when it can be cut in such parts *)
AllDig(t) == t # << >> /\ \A i \in 1..Len(t) : IsDig(t[i])
GInt(t) == AllDig(t) /\ (t[1] # "0" \/ Len(t) = 1)
GFloat(t) == \E k \in 2..Len(t) - 1 : t[k] = "." /\ GInt(SubSeq(t, 1, k - 1)) /\ AllDig(SubSeq(t, k + 1, Len(t)))
GUns(t) == GInt(t) \/ GFloat(t)
GSig(t) == GUns(t) \/ (t # << >> /\ t[1] = "-" /\ GUns(Tail(t)))
GNum(t) == GSig(t) \/ \E k \in 2..Len(t) - 2 : t[k] = "e" /\ t[k + 1] \in {"+", "-"} /\ GSig(SubSeq(t, 1, k - 1))
                        /\ LET x == SubSeq(t, k + 2, Len(t)) IN AllDig(x) \/ GFloat(x)
Language == IsNumber(s) = GNum(s)
(* a number is read the same as a turn, in a list and behind spaces *)
Contexts == /\ IsTurn(<< "r", "x", ":" >> \o s) = IsNumber(s)
            /\ IsTurn(<< "r", "w", ":" >> \o s) = FALSE
            /\ IsList(<< "[" >> \o s \o << "]" >>) = IsNumber(s)
            /\ IsList(<< "[", "1", ",", " " >> \o s \o << "]" >>) = IsNumber(s)
            /\ IsRange(<< "r", "a", "n", "d", ":" >> \o s \o << ":", "1" >>) = IsNumber(s)
            /\ IsRu(<< "r", "u", ":" >> \o s \o << ":", "[", "1", "]" >>) = IsNumber(s)
            /\ ~IsList(s)
Values == GSig(s) => /\ (s[1] = "-" => Value(s) = -Value(Tail(s)))
                     /\ (GInt(s) /\ Len(s) <= 5 => Value(s) = 1000 * Dec(s, 1, Len(s) + 1, 0))
                     /\ (Len(s) <= 4 => Value(s \o << "e", "+", "1" >>) = 10 * Value(s))
Quarter == \A k \in -8..8 : Abs(CosQ(k) * CosQ(k) + SinQ(k) * SinQ(k) - 1048576) <= 1024
Inv == Language /\ Contexts /\ Values /\ Quarter
=============================================================================
