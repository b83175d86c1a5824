------------------------------ MODULE Model ------------------------------
(***************************************************************************)
(* A datamodel definition that is being written: which definitions are     *)
(* accepted, and what is understood from those that are.                   *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Names,               \* of members
          CompNames, DataNames, IfaceNames, LinkNames, \* of definitions
          Types,               \* types that are written down for members
          Sizes,               \* of arrays
          Defaults, Units, Descriptions,
          Flaws,               \* what may be wrong with the text of a member
  Given,               \* TRUE: there are a component and a datatype to begin with
          MaxM, MaxDefs

\* A member [t, a, n, def, unit, desc, has, flaw]: element type, size (0 if it is no
\* array), name, default value, unit, description, whether there is a description
\* and what is wrong with the way it is written. Categories: members, vector
\* members, relations to one and to many objects. A definition has a kind k, and
\* lacks the field "lacks", has a field "odd" that it should not have, and extra
\* code "code".
Cats == {"m", "v", "o", "r"}
CatsOf(k) == CASE k = "d" -> Cats [] k \in {"c", "i"} -> {"m"} [] k = "l" -> {}
\* the upstream datamodel, if it is used
UpComps == {"U1", "up::U2"}
UpSub == [x \in UpComps |-> IF x = "U1" THEN {"a", "ux"} ELSE {"uy"}]
UpDatas == {"UD1", "up::UD2"}
UpIfaces == {"UI1"}

D0 == [lacks |-> "", odd |-> "", code |-> ""]
Empty == [sv |-> "1", expose |-> Given, getters |-> FALSE, sub |-> FALSE, up |-> FALSE,
          d |-> IF Given THEN <<D0 @@ [k |-> "c", n |-> "C1", m |-> << >>], D0 @@ [k |-> "d", n |-> "D1", m |-> << >>, v |-> << >>, o |-> << >>, r |-> << >>]>>
                ELSE << >>]
Init == Start([cur |-> Empty, good |-> Empty])

-----------------------------------------------------------------------------
(* What is accepted *)
Builtin == {"int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short", "bool",
            "long long", "unsigned long long"}
Fixed == {"int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"}
Of(m, k) == SelectSeq(m.d, LAMBDA x : x.k = k)
NamesOf(m, k) == {x.n : x \in Range1(Of(m, k))}
CompsOf(m) == NamesOf(m, "c") \cup (IF m.up THEN UpComps ELSE {})
DatasOf(m) == NamesOf(m, "d") \cup (IF m.up THEN UpDatas ELSE {})
IfacesOf(m) == NamesOf(m, "i") \cup (IF m.up THEN UpIfaces ELSE {})

Readable(x) == x.flaw = "" /\ x.t \notin {"int8_t", "uint8_t", "int_fast16_t", "uint_least32_t", "a::b::C"}
\* only members of components may lack a description
Written(d) == \A k \in CatsOf(d.k) : \A i \in 1..Len(d[k]) : Readable(d[k][i]) /\ (d.k = "c" \/ d[k][i].has)
Simple(m, x) == x.t \in Builtin \cup Fixed \cup CompsOf(m)
SubNames(m, t) == IF t \in NamesOf(m, "c")
                  THEN LET c == CHOOSE c \in Range1(Of(m, "c")) : c.n = t IN [i \in 1..Len(c.m) |-> c.m[i].n]
                  ELSE IF t \in UpComps THEN SetToSeq(UpSub[t]) ELSE << >>
\* the names of accessors from members
Accessors(m, d) == FlattenSeq([i \in 1..Len(d.m) |->
  <<d.m[i].n>> \o IF m.expose /\ d.m[i].a = 0 THEN SubNames(m, d.m[i].t) ELSE << >>])
Known(m, rel) == rel.a = 0 /\ rel.t \in DatasOf(m) \cup IfacesOf(m)
Each(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
GoodDef(m, d) ==
  /\ d.lacks = "" /\ d.odd = "" /\ d.code \notin {"bogus", "bogus impl"} /\ Written(d)
  /\ CASE d.k = "c" -> Each(d.m, LAMBDA x : Simple(m, x))
       [] d.k = "d" -> /\ Each(d.m, LAMBDA x : Simple(m, x))
                       /\ Each(d.v, LAMBDA x : Simple(m, x) /\ x.a = 0)
                       /\ Each(d.o, LAMBDA x : Known(m, x)) /\ Each(d.r, LAMBDA x : Known(m, x))
                       /\ LET s == Accessors(m, d) IN Cardinality(Range1(s)) = Len(s)
       [] d.k = "i" -> Range1(d.types) \subseteq DatasOf(m) /\ d.n \notin DatasOf(m)
       [] d.k = "l" -> {d.from, d.to} \subseteq DatasOf(m) \cup IfacesOf(m) /\ d.n \notin DatasOf(m) \cup IfacesOf(m)
Accepted(m) == m.sv \in {"1", "7", "'3'", "1.0"} /\ \A i \in 1..Len(m.d) : GoodDef(m, m.d[i])

-----------------------------------------------------------------------------
(* What is understood *)
FullType(t) == IF t \in Fixed THEN "std::" \o t ELSE t
Bare(t) == CASE t = "ns::C2" -> "C2" [] t = "up::U2" -> "U2" [] t = "ns::D2" -> "D2" [] t = "up::UD2" -> "UD2" [] t = "ns::I2" -> "I2" [] OTHER -> t
Julia(t) ==
  CASE t \in {"int", "int32_t"} -> "Int32" [] t = "float" -> "Float32" [] t = "double" -> "Float64" [] t = "bool" -> "Bool"
    [] t \in {"long", "long long", "int64_t"} -> "Int64" [] t \in {"unsigned int", "unsigned", "uint32_t"} -> "UInt32"
    [] t \in {"unsigned long", "unsigned long long", "uint64_t"} -> "UInt64" [] t = "char" -> "Char"
    [] t \in {"short", "int16_t"} -> "Int16" [] t = "uint16_t" -> "UInt16" [] OTHER -> Bare(t)
Simple0(t) == t \in Builtin \cup Fixed
Member(x) ==
  [n |-> x.n, def |-> x.def, unit |-> x.unit, desc |-> IF x.has THEN x.desc ELSE "", builtin |-> Simple0(x.t),
   t |-> IF x.a = 0 THEN FullType(x.t) ELSE "std::array<" \o FullType(x.t) \o ", " \o ToString(x.a) \o ">",
   elem |-> IF x.a = 0 THEN "" ELSE FullType(x.t), size |-> IF x.a = 0 THEN "" ELSE ToString(x.a),
   jl |-> IF x.a = 0 THEN Julia(x.t)
          ELSE "MVector{" \o ToString(x.a) \o ", " \o Julia(x.t) \o (IF Simple0(x.t) THEN "}" ELSE "Struct}")]
MembersOf(s) == [i \in 1..Len(s) |-> Member(s[i])]
\* the entries of the extra code
Code(d) ==
  CASE d.code = "text" -> <<"ExtraCode.declaration: one">>
    [] d.code = "file" -> <<"ExtraCode.declaration: two">>
    [] d.code = "incl" -> <<"ExtraCode.declaration: two", "ExtraCode.includes: three">>
    [] d.code = "both" -> <<"ExtraCode.declaration: one two">>
    [] d.code = "impl" -> <<"ExtraCode.implementation: one two", "ExtraCode.includes: three">>
    [] d.code = "mutable" -> <<"ExtraCode.declaration: one", "MutableExtraCode.declaration: one two", "MutableExtraCode.implementation: two">>
    [] OTHER -> << >>
Def(d) ==
  CASE d.k = "c" -> [k |-> "c", n |-> d.n, set_code |-> Code(d), m |-> MembersOf(d.m)]
    [] d.k = "d" -> [k |-> "d", n |-> d.n, set_code |-> Code(d), m |-> MembersOf(d.m), v |-> MembersOf(d.v), o |-> MembersOf(d.o), r |-> MembersOf(d.r)]
    [] d.k = "i" -> [k |-> "i", n |-> d.n, m |-> MembersOf(d.m), types |-> d.types]
    [] d.k = "l" -> [k |-> "l", n |-> d.n, from |-> d.from, to |-> d.to]
Version(sv) == CASE sv \in {"1", "1.0"} -> 1 [] sv = "7" -> 7 [] sv = "'3'" -> 3
ObsOf(v) ==
  LET m == v.cur
  IN IF ~Accepted(m) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, sv |-> Version(m.sv), expose |-> m.expose, getters |-> m.getters, sub |-> m.sub,
           defs |-> FlattenSeq([i \in 1..4 |-> LET k == <<"c", "d", "i", "l">>[i] IN [j \in 1..Len(Of(m, k)) |-> Def(Of(m, k)[j])]])]
Do(m, a) == LET v == [cur |-> m, good |-> IF Accepted(m) THEN m ELSE w.good] IN Step(v, a @@ [given |-> Given], ObsOf(v))

-----------------------------------------------------------------------------
(* Writing it *)
\* in simulation, do not pile up mistakes
On(op) == op \in Ops /\ (~Sim \/ Accepted(w.cur) \/ RandomElement(1..5) = 1)
\* and do not spend the time on this
Rarely(op) == On(op) /\ (~Sim \/ RandomElement(1..4) = 1)
Kinds == [c |-> CompNames, d |-> DataNames, i |-> IfaceNames, l |-> LinkNames]
New(k, n, t) ==
  LET base == D0 @@ [k |-> k, n |-> n]
  IN CASE k = "c" -> base @@ [m |-> << >>]
       [] k = "d" -> base @@ [m |-> << >>, v |-> << >>, o |-> << >>, r |-> << >>]
       [] k = "i" -> base @@ [m |-> << >>, types |-> <<t>>]
       [] k = "l" -> base @@ [from |-> t, to |-> t]
AddDef ==
  /\ On("AddDef") /\ Len(w.cur.d) < MaxDefs
  /\ \E k \in Pick({"c", "d", "i", "l"}) :
     \E n \in Pick(Kinds[k] \ NamesOf(w.cur, k)), first \in Pick({TRUE, FALSE}),
        t \in (IF k \in {"i", "l"} THEN Pick(DatasOf(w.cur) \cup (IF k = "l" THEN IfacesOf(w.cur) ELSE {})) ELSE {""}) :
       LET d == New(k, n, t)
       IN Do([w.cur EXCEPT !.d = IF first THEN <<d>> \o @ ELSE Append(@, d)], [op |-> "AddDef", first |-> first, d |-> d])
DropDef ==
  /\ Rarely("DropDef") /\ Len(w.cur.d) > 0
  /\ \E i \in Pick(1..Len(w.cur.d)) : Do([w.cur EXCEPT !.d = RemoveAt(@, i)], [op |-> "DropDef", i |-> i])
Put(i, d, a) == Do([w.cur EXCEPT !.d[i] = d], [op |-> "Put", what |-> a, i |-> i, d |-> d])
\* mistakes are rare in simulation
Mostly(ok, S) == IF ~Sim THEN S ELSE IF RandomElement(1..12) > 1 /\ S \cap ok # {} THEN S \cap ok ELSE S
TypesFor(d, k) ==
  LET all == Types \cup (IF Sim THEN UpComps \cup UpDatas \cup UpIfaces ELSE {}) \cup CompNames \cup DataNames \cup IfaceNames
      comps == CompsOf(w.cur) \ {d.n}
  IN CASE k \in {"m", "v"} -> Mostly(IF d.k = "i" \/ (Sim /\ RandomElement(1..2) = 1) THEN Builtin \cup Fixed
                                     ELSE IF Sim /\ comps # {} THEN comps ELSE Builtin \cup Fixed \cup comps,
                                     IF d.k = "i" THEN Types \ (CompNames \cup {"Nope", "std::string"}) ELSE all)
       [] OTHER -> Mostly(DatasOf(w.cur) \cup IfacesOf(w.cur), all)
Room(k) == IF k \in {"o", "r"} THEN MaxM \div 2 + 1 ELSE MaxM
AddM ==
  /\ On("AddM") /\ Len(w.cur.d) > 0
  /\ \E i \in Pick(1..Len(w.cur.d)) :
     \E k \in Pick({k \in CatsOf(w.cur.d[i].k) : Len(w.cur.d[i][k]) < Room(k)}) :
     LET d == w.cur.d[i]
         used == UNION {{d[c][j].n : j \in 1..Len(d[c])} : c \in CatsOf(d.k)}
     IN \E t \in Pick(TypesFor(d, k)), a \in (IF k = "m" THEN Pick(Sizes) ELSE Pick(Mostly({0}, Sizes))),
           n \in (IF k = "m" /\ d.k = "d" THEN Pick(Mostly(Names \ used, Names \ UNION {{d[c][j].n : j \in 1..Len(d[c])} : c \in {"v", "o", "r"}}))
                  ELSE Pick(Names \ used)),
           def \in (IF k = "m" THEN Pick(Defaults) ELSE {""}), unit \in Pick(Units), desc \in Pick(Descriptions),
           has \in (IF d.k = "c" THEN Pick({TRUE, FALSE}) ELSE Pick(Mostly({TRUE}, {TRUE, FALSE}))),
           flaw \in Pick(Mostly({""}, Flaws)) :
          Put(i, [d EXCEPT ![k] = Append(@, [t |-> t, a |-> a, n |-> n, def |-> def, unit |-> unit, desc |-> desc, has |-> has, flaw |-> flaw])], "AddM")
DropM ==
  /\ Rarely("DropM") /\ Len(w.cur.d) > 0
  /\ \E i \in Pick(1..Len(w.cur.d)) : \E k \in Pick({k \in CatsOf(w.cur.d[i].k) : Len(w.cur.d[i][k]) > 0}) :
     \E j \in Pick(1..Len(w.cur.d[i][k])) : Put(i, [w.cur.d[i] EXCEPT ![k] = RemoveAt(@, j)], "DropM")
\* one thing about a member
Change ==
  /\ On("Change") /\ Len(w.cur.d) > 0
  /\ \E i \in Pick(1..Len(w.cur.d)) : \E k \in Pick({k \in CatsOf(w.cur.d[i].k) : Len(w.cur.d[i][k]) > 0}) :
     \E j \in Pick(1..Len(w.cur.d[i][k])), f \in Pick({"t", "a", "def", "unit", "desc", "has", "flaw"}) :
     \E x \in Pick((CASE f = "t" -> TypesFor(w.cur.d[i], k) [] f = "a" -> (IF k = "m" THEN Sizes ELSE Mostly({0}, Sizes))
                      [] f = "def" -> (IF k = "m" THEN Defaults ELSE {""}) [] f = "unit" -> Units [] f = "desc" -> Descriptions
                      [] f = "has" -> Mostly({TRUE}, {TRUE, FALSE}) [] f = "flaw" -> Mostly({""}, Flaws)) \ {w.cur.d[i][k][j][f]}) :
       Put(i, [w.cur.d[i] EXCEPT ![k][j][f] = x], "Change")
\* the fields of a definition
Required(k) == CASE k = "c" -> {"Members"} [] k = "d" -> {"Description", "Author"}
                 [] k = "i" -> {"Description", "Author", "Members", "Types"} [] k = "l" -> {"Description", "Author", "From", "To"}
Odd(k) == CASE k = "c" -> {"Bogus", "VectorMembers", "Types", "MutableExtraCode"}
            [] k = "d" -> {"Bogus", "Typedefs", "TransientMembers", "Types", "From", "members"}
            [] k = "i" -> {"Bogus", "ExtraCode", "From", "OneToOneRelations", "VectorMembers"}
            [] k = "l" -> {"Bogus", "Members", "Types", "ExtraCode"}
Fields ==
  /\ On("Fields") /\ Len(w.cur.d) > 0
  /\ \E i \in Pick(1..Len(w.cur.d)) :
     LET d == w.cur.d[i]
     IN \/ \E x \in Pick(Required(d.k) \ {d.lacks}) : d.lacks = "" /\ (x = "Members" => Len(d.m) = 0) /\ Put(i, [d EXCEPT !.lacks = x], "Fields")
        \/ \E x \in Pick(Odd(d.k)) : d.odd = "" /\ Put(i, [d EXCEPT !.odd = x], "Fields")
        \/ /\ d.k \in {"c", "d"}
           /\ \E x \in Pick(Mostly({"", "text", "file", "both", "incl"} \cup (IF d.k = "d" THEN {"impl", "mutable"} ELSE {}), {"", "text", "file", "both", "incl", "bogus", "bogus impl"} \cup (IF d.k = "d" THEN {"impl", "mutable"} ELSE {})) \ {d.code}) : Put(i, [d EXCEPT !.code = x], "Fields")
Ends ==
  /\ Rarely("Ends") /\ Len(w.cur.d) > 0
  /\ \E i \in Pick({i \in 1..Len(w.cur.d) : w.cur.d[i].k \in {"i", "l"}}) :
     LET d == w.cur.d[i]
         all == Mostly(DatasOf(w.cur) \cup (IF d.k = "l" THEN IfacesOf(w.cur) ELSE {}), UpDatas \cup UpIfaces \cup DataNames \cup IfaceNames \cup CompNames \cup {"int"})
     IN IF d.k = "l" THEN \E f \in Pick({"from", "to"}) : \E t \in Pick(all \ {d[f]}) : Put(i, [d EXCEPT ![f] = t], "Ends")
        ELSE \/ Len(d.types) < 3 /\ \E t \in Pick(all \ Range1(d.types)) : Put(i, [d EXCEPT !.types = Append(@, t)], "Ends")
             \/ Len(d.types) > 1 /\ Put(i, [d EXCEPT !.types = Tail(@)], "Ends")
Settings ==
  /\ Rarely("Settings")
  /\ \/ Do([w.cur EXCEPT !.expose = ~@], [op |-> "Set", f |-> "expose", x |-> ~w.cur.expose])
     \/ Do([w.cur EXCEPT !.getters = ~@], [op |-> "Set", f |-> "getters", x |-> ~w.cur.getters])
     \/ Do([w.cur EXCEPT !.sub = ~@], [op |-> "Set", f |-> "sub", x |-> ~w.cur.sub])
     \/ Do([w.cur EXCEPT !.up = ~@], [op |-> "Set", f |-> "up", x |-> ~w.cur.up])
     \/ \E x \in Pick(Mostly({"1", "7", "'3'", "1.0"}, {"1", "7", "'3'", "1.0", "0", "-1", "x", "none", "missing"}) \ {w.cur.sv}) :
          Do([w.cur EXCEPT !.sv = x], [op |-> "Set", f |-> "sv", x |-> x])
\* what made it invalid is undone
Undo == "Undo" \in Ops /\ w.cur # w.good /\ ~Accepted(w.cur) /\ Do(w.good, [op |-> "Undo"])
\* in simulation, more of what makes it larger
More == Sim /\ (AddM \/ AddM \/ AddM \/ AddM \/ AddDef)
Next == More \/ AddDef \/ DropDef \/ AddM \/ DropM \/ Change \/ Fields \/ Ends \/ Settings \/ Undo
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))

Inv ==
  /\ Accepted(w.good) /\ (Accepted(w.cur) => w.good = w.cur)
  \* what is accepted is closed: it only refers to what there is
  /\ Accepted(w.cur) =>
       \A i \in 1..Len(w.cur.d) : \A k \in CatsOf(w.cur.d[i].k) : \A j \in 1..Len(w.cur.d[i][k]) :
         w.cur.d[i].k = "i" \/ w.cur.d[i][k][j].t \in Builtin \cup Fixed \cup CompsOf(w.cur) \cup DatasOf(w.cur) \cup IfacesOf(w.cur)
\* being accepted does not depend on the order in which things are written
Reordered == [][w'.cur.d # w.cur.d /\ Len(w'.cur.d) = Len(w.cur.d) /\ Range1(w'.cur.d) = Range1(w.cur.d) => Accepted(w'.cur) = Accepted(w.cur)]_vars
\* more names can be used with an upstream datamodel
Upstream == [][w'.cur = [w.cur EXCEPT !.up = TRUE] /\ Accepted(w.cur) /\ ~w.cur.expose => Accepted(w'.cur)]_vars
=============================================================================
