------------------------------ MODULE Recipes ------------------------------
(* O04: a recipe book.  A definition is immutable and refers to the definitions its ingredients had when it was made. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Base,      \* names of the base ingredients
          Names,     \* names recipes may be given
          Ops,       \* [op |-> arity]; the operations are defined below
          Rows,      \* base values, one row per record: sequence of [base -> value]
          MaxDefs
VARIABLES defs,      \* sequence of [op, args]; an arg is [b |-> TRUE, n |-> base name, d |-> 0] or [b |-> FALSE, n |-> "", d |-> index]
          book,      \* name -> index in defs  (function on the names in use)
          out
vars == <<defs, book, out>>

IsCut(n) == n \in {"cutA", "cutB", "cutC"}     \* names treated as cuts
CutOps == {"gt", "ge0", "and", "odd"}          \* operations with truth values (0 or 1)
Apply(op, v) == CASE op = "add" -> v[1] + v[2]
                  [] op = "sub" -> v[1] - v[2]
                  [] op = "mix" -> v[1] - 2 * v[2] + 3 * v[3]
                  [] op = "dbl" -> 2 * v[1]
                  [] op = "inc" -> v[1] + 1
                  [] op = "neg" -> -v[1]
                  [] op = "opt" -> v[1] + 100          \* second argument left at its default
                  [] op = "gt"  -> IF v[1] > v[2] THEN 1 ELSE 0
                  [] op = "ge0" -> IF v[1] >= 0 THEN 1 ELSE 0
                  [] op = "odd" -> v[1] % 2
                  [] op = "and" -> IF v[1] # 0 /\ v[2] # 0 THEN 1 ELSE 0
RECURSIVE Value(_, _, _)
Value(D, d, r) == Apply(D[d].op, [i \in DOMAIN D[d].args |-> LET a == D[d].args[i] IN IF a.b THEN Rows[r][a.n] ELSE Value(D, a.d, r)])
Column(D, d) == [r \in DOMAIN Rows |-> Value(D, d, r)]

Known(n) == n \in Base \/ n \in DOMAIN book
Ref(n) == IF n \in DOMAIN book THEN [b |-> FALSE, n |-> "", d |-> book[n]] ELSE [b |-> TRUE, n |-> n, d |-> 0]
Add(name, op, ings, ow) ==
  IF (\A i \in DOMAIN ings : Known(ings[i])) /\ (name \notin DOMAIN book \/ ow)
  THEN /\ defs' = Append(defs, [op |-> op, args |-> [i \in DOMAIN ings |-> Ref(ings[i])]])
       /\ book' = [n \in DOMAIN book \cup {name} |-> IF n = name THEN Len(defs) + 1 ELSE book[n]]
       /\ out' = "ok"
  ELSE out' = "refused" /\ UNCHANGED <<defs, book>>
\* a temporary recipe
Temp(op, ings) == UNCHANGED <<defs, book>> /\ out' = IF \A i \in DOMAIN ings : Known(ings[i]) THEN "ok" ELSE "refused"
TempColumn(op, ings) == LET D == Append(defs, [op |-> op, args |-> [i \in DOMAIN ings |-> Ref(ings[i])]]) IN Column(D, Len(D))
Reload == UNCHANGED <<defs, book>> /\ out' = "ok"

Init == defs = <<>> /\ book = [n \in {} |-> 0] /\ out = "ok"
SmallIngs(op) == UNION {[1..k -> Base \cup Names] : k \in {Ops[op]}}
NextSmall == Len(defs) < MaxDefs /\ \E n \in Names, op \in DOMAIN Ops, ow \in BOOLEAN : \E g \in SmallIngs(op) : Add(n, op, g, ow)
\* ---- checked exhaustively ----
WellFounded == \A d \in DOMAIN defs : \A i \in DOMAIN defs[d].args : defs[d].args[i].b \/ defs[d].args[i].d < d
Stable == [][ /\ IsPrefix(defs, defs')          \* nothing defined earlier ever changes ...
              /\ \A d \in DOMAIN defs : Column(defs, d) = Column(defs', d)
              /\ \A n \in DOMAIN book : n \in DOMAIN book' /\ (book'[n] # book[n] => book'[n] = Len(defs'))
              /\ Cardinality({n \in DOMAIN book' : n \notin DOMAIN book \/ book'[n] # book[n]}) <= 1   \* ... and one name at most is given a new meaning
            ]_vars
=============================================================================
