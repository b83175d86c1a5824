------------------------------ MODULE Schema ------------------------------
(***************************************************************************)
(* Two versions of a datamodel definition, the migrations of an evolution  *)
(* file, and what has to be reported about the way from one to the other.  *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Comps, Datas, Names,  \* names of components, datatypes and members
          Plain,                \* element types that are not components
          MaxM, MaxEvo          \* bounds: members of a category, migrations

\* w.old, w.new: models, sequences of components [n, m] and datatypes
\* [n, m, v, o, r] (members, vector members, relations to one, relations to
\* many), everything in the order of definition. A member is [n, t, a] with its
\* element type t and its length a, 0 if it is not an array.
\* w.evo: migrations [k, c, f, t]: in c, member or datatype f is now t
Cats == {"m", "v", "o", "r"}
Empty == [c |-> << >>, d |-> << >>]
Init == Start([old |-> Empty, new |-> Empty, evo |-> << >>])

NamesOf(s) == {s[i].n : i \in 1..Len(s)}
Of(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].n = n]
Without(s, n) == SelectSeq(s, LAMBDA x : x.n # n)
CompsOf(model) == NamesOf(model.c)
TypeName(x) == IF x.a = 0 THEN x.t ELSE "std::array<" \o x.t \o ", " \o ToString(x.a) \o ">"

-----------------------------------------------------------------------------
(* What is found *)
Cat(x, k) == IF k \in DOMAIN x THEN x[k] ELSE << >>
Kind(k, what) == what \o (CASE k = "m" -> "Member" [] k = "v" -> "VectorMember" [] k = "o" -> "SingleRelation" [] k = "r" -> "MultiRelation")
MemberChanges(old, new, k) ==
  LET a == Cat(old, k)
      b == Cat(new, k)
  IN {[k |-> Kind(k, "Added"), c |-> new.n, m |-> x] : x \in NamesOf(b) \ NamesOf(a)}
     \cup {[k |-> Kind(k, "Dropped"), c |-> new.n, m |-> x] : x \in NamesOf(a) \ NamesOf(b)}
     \cup {[k |-> "Changed", c |-> new.n, m |-> x, f |-> TypeName(Of(a, x)), t |-> TypeName(Of(b, x))] :
             x \in {y \in NamesOf(a) \cap NamesOf(b) : TypeName(Of(a, y)) # TypeName(Of(b, y))}}
Defs(model) == model.c \o model.d
Kept == NamesOf(Defs(w.old)) \cap NamesOf(Defs(w.new))
AllMemberChanges(v) == UNION {MemberChanges(Of(Defs(v.old), n), Of(Defs(v.new), n), k) :
                                n \in NamesOf(Defs(v.old)) \cap NamesOf(Defs(v.new)), k \in Cats}
Whole(v, f, what) == {[k |-> "Added" \o what, c |-> n] : n \in NamesOf(v.new[f]) \ NamesOf(v.old[f])}
                     \cup {[k |-> "Dropped" \o what, c |-> n] : n \in NamesOf(v.old[f]) \ NamesOf(v.new[f])}
Detected(v) == Whole(v, "c", "Component") \cup Whole(v, "d", "Datatype") \cup AllMemberChanges(v)

(* What it means *)
\* pairs of members that may have been renamed
Pairs(v) == {[c |-> x.c, f |-> x.m, t |-> y.m] :
               <<x, y>> \in {<<x, y>> \in AllMemberChanges(v) \X AllMemberChanges(v) :
                 /\ x.k = "DroppedMember" /\ y.k = "AddedMember" /\ x.c = y.c
                 /\ TypeName(Of(Of(Defs(v.old), x.c).m, x.m)) = TypeName(Of(Of(Defs(v.new), y.c).m, y.m))}}
Known(v) == {p \in Pairs(v) : \E i \in 1..Len(v.evo) : v.evo[i].k = "m" /\ v.evo[i].c = p.c /\ v.evo[i].f = p.f /\ v.evo[i].t = p.t}
Suspects(v) == {p \in Pairs(v) : ~\E q \in Known(v) : q.c = p.c /\ (q.f = p.f \/ q.t = p.t)}

\* datatypes that look alike may have been renamed: those that are known to be
\* first, the others in the order of their definitions, each of them once
Signature(x) == UNION {{<<k, m.n, TypeName(m)>> : m \in Range1(Cat(x, k))} : k \in Cats}
KnownD(v, a, b) == \E i \in 1..Len(v.evo) : v.evo[i].k = "d" /\ v.evo[i].f = a /\ v.evo[i].t = b
Candidates(v) ==
  LET gone == SelectSeq(v.old.d, LAMBDA x : x.n \notin NamesOf(v.new.d))
      come == SelectSeq(v.new.d, LAMBDA x : x.n \notin NamesOf(v.old.d))
      all == FlattenSeq([i \in 1..Len(gone) |-> [j \in 1..Len(come) |-> <<gone[i], come[j]>>]])
      like == SelectSeq(all, LAMBDA p : Signature(p[1]) = Signature(p[2]))
  IN SelectSeq(like, LAMBDA p : KnownD(v, p[1].n, p[2].n)) \o SelectSeq(like, LAMBDA p : ~KnownD(v, p[1].n, p[2].n))
RenamedD(v) == FoldLeft(LAMBDA acc, p : IF \E q \in acc : q[1] = p[1].n \/ q[2] = p[2].n THEN acc ELSE acc \cup {<<p[1].n, p[2].n>>},
                        {}, Candidates(v))
Changes(v) ==
  LET kn == Known(v)
      rd == RenamedD(v)
  IN {x \in Detected(v) :
        /\ ~(x.k = "DroppedMember" /\ \E p \in kn : p.c = x.c /\ p.f = x.m)
        /\ ~(x.k = "AddedMember" /\ \E p \in kn : p.c = x.c /\ p.t = x.m)
        /\ ~(x.k = "DroppedDatatype" /\ \E p \in rd : p[1] = x.c)
        /\ ~(x.k = "AddedDatatype" /\ \E p \in rd : p[2] = x.c)}
     \cup {[k |-> "RenamedMember", c |-> p.c, f |-> p.f, t |-> p.t] : p \in kn}
     \cup {[k |-> "RenamedDataType", c |-> p[1], f |-> p[1], t |-> p[2]] : p \in rd}

\* what cannot be read any more
Bad(v, x) ==
  \/ x.k \in {Kind(k, s) : k \in {"v", "o", "r"}, s \in {"Added", "Dropped"}}
  \/ /\ x.k = "Changed"
     /\ \E k \in Cats : LET a == Cat(Of(Defs(v.old), x.c), k)
                            b == Cat(Of(Defs(v.new), x.c), k)
                        IN /\ x.m \in NamesOf(a) \cap NamesOf(b)
                           /\ LET p == Of(a, x.m)
                                  q == Of(b, x.m)
                              IN \/ (p.a = 0) # (q.a = 0)
                                 \/ p.t # q.t /\ (p.t \in CompsOf(v.old) \/ q.t \in CompsOf(v.new))
Errors(v) == {x \in Detected(v) : Bad(v, x)}
CompWarnings(v) == {<<a.n, b.n>> : <<a, b>> \in {<<a, b>> \in Range1(v.old.c) \X Range1(v.new.c) :
                      a.n \notin CompsOf(v.new) /\ b.n \notin CompsOf(v.old) /\ NamesOf(a.m) = NamesOf(b.m)}}
Groups(v) == [n \in {x.c : x \in Changes(v)} |-> Cardinality({x \in Changes(v) : x.c = n})]

ObsOf(v) ==
  [set_changes |-> SetToSeq(Changes(v)),
   set_warnm |-> SetToSeq(Suspects(v)),
   set_warnc |-> SetToSeq(CompWarnings(v)),
   set_errors |-> SetToSeq(Errors(v)),
   groups |-> Groups(v),
   set_renames |-> SetToSeq({x.c : x \in {y \in Changes(v) : y.k \in {"RenamedMember", "RenamedDataType"}}}),
   ok |-> Errors(v) = {}]
\* the models go along, for a driver that has nothing to remember
Do(v, a) == Step(v, a, ObsOf(v))

-----------------------------------------------------------------------------
(* The new version is worked on *)
UsedNames(x) == UNION {NamesOf(Cat(x, k)) : k \in Cats}
\* types a member of category k in definition n may have
TypesFor(n, k) ==
  CASE k \in {"o", "r"} -> {[t |-> t, a |-> 0] : t \in NamesOf(w.new.d)}
    [] k = "v" -> {[t |-> t, a |-> 0] : t \in Plain \cup CompsOf(w.new)}
    [] k = "m" -> {[t |-> t, a |-> a] : t \in Plain \cup (CompsOf(w.new) \ {n}), a \in {0, 2, 3}}
Without2(s, n, new) == [i \in 1..Len(s) |-> IF s[i].n = n THEN new ELSE s[i]]
Put(model, d) == [c |-> Without2(model.c, d.n, d), d |-> Without2(model.d, d.n, d)]
Edit(d, a) == Do([w EXCEPT !.new = Put(@, d)], a)
CatsOf(x) == IF x.n \in Comps THEN {"m"} ELSE Cats
Mem(x, ty) == [n |-> x, t |-> ty.t, a |-> ty.a]
Mentions(model, n) == \E x \in Range1(model.c) \cup Range1(model.d), k \in Cats : \E m \in Range1(Cat(x, k)) : m.t = n

AddComp ==
  /\ "AddComp" \in Ops
  /\ \E n \in Pick(Comps \ CompsOf(w.new)), first \in Pick({TRUE, FALSE}) :
       LET d == [n |-> n, m |-> << >>]
       IN Do([w EXCEPT !.new.c = IF first THEN <<d>> \o @ ELSE Append(@, d)], [op |-> "AddDef", n |-> n, first |-> first])
AddData ==
  /\ "AddData" \in Ops
  /\ \E n \in Pick(Datas \ NamesOf(w.new.d)), first \in Pick({TRUE, FALSE}) :
       LET d == [n |-> n, m |-> << >>, v |-> << >>, o |-> << >>, r |-> << >>]
       IN Do([w EXCEPT !.new.d = IF first THEN <<d>> \o @ ELSE Append(@, d)], [op |-> "AddDef", n |-> n, first |-> first])
\* like another one
CopyData ==
  /\ "CopyData" \in Ops
  /\ \E n \in Pick(Datas \ NamesOf(w.new.d)), x \in Pick(Range1(w.new.d)) :
       Do([w EXCEPT !.new.d = Append(@, [x EXCEPT !.n = n])], [op |-> "CopyData", n |-> x.n, t |-> n])
DropDef ==
  /\ "DropDef" \in Ops
  /\ \E n \in Pick({x \in NamesOf(Defs(w.new)) : ~Mentions([w.new EXCEPT !.c = Without(@, x), !.d = Without(@, x)], x)}) :
       Do([w EXCEPT !.new = [c |-> Without(@.c, n), d |-> Without(@.d, n)]], [op |-> "DropDef", n |-> n])
RenameTo(s, a, b) == [i \in 1..Len(s) |-> IF s[i].t = a THEN [s[i] EXCEPT !.t = b] ELSE s[i]]
RenameDef ==
  /\ "RenameDef" \in Ops
  /\ \E x \in Pick(Range1(Defs(w.new))) :
       \E n \in Pick((IF x.n \in Comps THEN Comps ELSE Datas) \ NamesOf(Defs(w.new))) :
         LET ren(d) == [k \in DOMAIN d |-> IF k = "n" THEN (IF d.n = x.n THEN n ELSE d.n) ELSE RenameTo(d[k], x.n, n)]
         IN Do([w EXCEPT !.new = [c |-> [i \in 1..Len(@.c) |-> ren(@.c[i])], d |-> [i \in 1..Len(@.d) |-> ren(@.d[i])]]],
               [op |-> "RenameDef", n |-> x.n, t |-> n])
AddM ==
  /\ "AddM" \in Ops
  /\ \E x \in Pick(Range1(Defs(w.new))) : \E k \in Pick({k \in CatsOf(x) : Len(x[k]) < MaxM}) :
       \E n \in Pick(Names \ UsedNames(x)), ty \in Pick(TypesFor(x.n, k)) :
         Edit([x EXCEPT ![k] = Append(@, Mem(n, ty))], [op |-> "AddM", c |-> x.n, k |-> k, n |-> n, t |-> TypeName(Mem(n, ty))])
Of2(x, k) == {<<x, k, m>> : m \in Range1(x[k])}
Members == UNION {UNION {Of2(x, k) : k \in CatsOf(x)} : x \in Range1(Defs(w.new))}
DropM ==
  /\ "DropM" \in Ops
  /\ \E p \in Pick(Members) : Edit([p[1] EXCEPT ![p[2]] = Without(@, p[3].n)], [op |-> "DropM", c |-> p[1].n, k |-> p[2], n |-> p[3].n])
RenameM ==
  /\ "RenameM" \in Ops
  /\ \E p \in Pick(Members) : \E n \in Pick(Names \ UsedNames(p[1])) :
       Edit([p[1] EXCEPT ![p[2]] = Without2(@, p[3].n, [p[3] EXCEPT !.n = n])],
            [op |-> "RenameM", c |-> p[1].n, k |-> p[2], n |-> p[3].n, t |-> n])
Retype ==
  /\ "Retype" \in Ops
  /\ \E p \in Pick(Members) : \E ty \in Pick(TypesFor(p[1].n, p[2]) \ {[t |-> p[3].t, a |-> p[3].a]}) :
       Edit([p[1] EXCEPT ![p[2]] = Without2(@, p[3].n, Mem(p[3].n, ty))],
            [op |-> "Retype", c |-> p[1].n, k |-> p[2], n |-> p[3].n, t |-> TypeName(Mem(p[3].n, ty))])
\* to another category
Move ==
  /\ "Move" \in Ops
  /\ \E p \in Pick({p \in Members : p[1].n \in Datas}) :
       \E k \in Pick({k \in Cats \ {p[2]} : [t |-> p[3].t, a |-> p[3].a] \in TypesFor(p[1].n, k) /\ Len(p[1][k]) < MaxM}) :
         Edit([p[1] EXCEPT ![p[2]] = Without(@, p[3].n), ![k] = Append(@, p[3])],
              [op |-> "Move", c |-> p[1].n, k |-> p[2], n |-> p[3].n, t |-> k])
\* the order in which things are defined
Reverse1 ==
  /\ "Reverse" \in Ops /\ w.new # Empty
  /\ Do([w EXCEPT !.new = [c |-> Reverse(@.c), d |-> Reverse(@.d)]], [op |-> "Reverse"])
\* the evolution file
Evolve ==
  /\ "Evolve" \in Ops /\ Len(w.evo) < MaxEvo
  /\ \/ \E c \in Pick(NamesOf(Defs(w.new))), f, t \in Pick(Names) :
          /\ f # t
          /\ ~\E i \in 1..Len(w.evo) : w.evo[i].k = "m" /\ w.evo[i].c = c /\ (w.evo[i].f = f \/ w.evo[i].t = t)
          /\ Do([w EXCEPT !.evo = Append(@, [k |-> "m", c |-> c, f |-> f, t |-> t])], [op |-> "Evolve", k |-> "m", c |-> c, f |-> f, t |-> t])
     \/ \E f, t \in Pick(Datas) :
          /\ f # t
          /\ ~\E i \in 1..Len(w.evo) : w.evo[i].k = "d" /\ (w.evo[i].f = f \/ w.evo[i].t = t)
          /\ Do([w EXCEPT !.evo = Append(@, [k |-> "d", c |-> f, f |-> f, t |-> t])], [op |-> "Evolve", k |-> "d", c |-> f, f |-> f, t |-> t])
\* a migration for a suspect
Explain ==
  /\ "Explain" \in Ops /\ Len(w.evo) < MaxEvo
  /\ \E p \in Pick(Suspects(w)) :
       /\ ~\E i \in 1..Len(w.evo) : w.evo[i].k = "m" /\ w.evo[i].c = p.c /\ (w.evo[i].f = p.f \/ w.evo[i].t = p.t)
       /\ Do([w EXCEPT !.evo = Append(@, [k |-> "m", c |-> p.c, f |-> p.f, t |-> p.t])], [op |-> "Evolve", k |-> "m", c |-> p.c, f |-> p.f, t |-> p.t])
Release ==
  /\ "Release" \in Ops /\ w.old # w.new
  /\ Do([old |-> w.new, new |-> w.new, evo |-> << >>], [op |-> "Release"])
Back == "Back" \in Ops /\ w.old # w.new /\ Do([w EXCEPT !.new = w.old, !.evo = << >>], [op |-> "Back"])
\* the other way round
Flip == "Flip" \in Ops /\ w.old # w.new /\ Do([w EXCEPT !.old = w.new, !.new = w.old], [op |-> "Flip"])
Next == AddComp \/ AddData \/ CopyData \/ DropDef \/ RenameDef \/ AddM \/ DropM \/ RenameM \/ Retype \/ Move \/ Reverse1
        \/ Evolve \/ Explain \/ Release \/ Back \/ Flip
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))

Inv ==
  \* nothing is reported if nothing changed, apart from the order
  /\ (Range1(w.old.c) = Range1(w.new.c) /\ Range1(w.old.d) = Range1(w.new.d)) => Changes(w) = {} /\ Errors(w) = {} /\ Suspects(w) = {}
  \* every change is accounted for: applying what is found gives the names of the new version
  /\ NamesOf(w.new.d) = (NamesOf(w.old.d) \ ({x.c : x \in {y \in Changes(w) : y.k = "DroppedDatatype"}} \cup {p[1] : p \in RenamedD(w)}))
                        \cup {x.c : x \in {y \in Changes(w) : y.k = "AddedDatatype"}} \cup {p[2] : p \in RenamedD(w)}
  \* errors stay among the changes, whatever is explained
  /\ Errors(w) \subseteq Changes(w)
  \* a rename is found from both sides if nothing is known about it
  /\ w.evo = << >> => {<<p.c, p.f, p.t>> : p \in Suspects(w)} = {<<p.c, p.t, p.f>> : p \in Suspects([old |-> w.new, new |-> w.old, evo |-> << >>])}
\* explaining suspects never makes new ones
Calming == [][w'.old = w.old /\ w'.new = w.new /\ Len(w'.evo) > Len(w.evo) => Suspects(w') \subseteq Suspects(w)]_vars
=============================================================================
