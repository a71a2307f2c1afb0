------------------------------ MODULE T_Frames ------------------------------
(* Validation of recorded transformations and vector arithmetic (C22, C23).   *)
(* The heap of vectors is the state: contents and derivatives of every vector.*)
EXTENDS TraceChecks, IEEE, Frames

VARIABLES l, m, heap,
          prov     \* vector -> the transformation that made it
vars == <<l, m, heap, prov>>
CvArrays == 78  CvLoop == 79  CvInPlace == 80  CvSameAngle == 81

XYZ == {"dx", "dy", "dz"}
Map2(f(_, _), u, v) == [i \in 1..3 |-> [k \in 1..m |-> f(u[i][k], v[i][k])]]
Rep(x) == [k \in 1..m |-> x]
Unit(i) == [j \in 1..3 |-> Rep(IF i = j THEN R1 ELSE R0)]
FreshJ == [k \in XYZ |-> Unit(IF k = "dx" THEN 1 ELSE IF k = "dy" THEN 2 ELSE 3)]
Fresh(c) == [c |-> c, J |-> FreshJ, sure |-> TRUE]

\* one transformation of lane k of a triple of lanes
Lane(v, k) == <<v[1][k], v[2][k], v[3][k]>>
Unlane(w) == [i \in 1..3 |-> [k \in 1..m |-> w[k][i]]]
TurnAll(t, ang, v) == Unlane(Vec([k \in 1..m |-> LET th == Rad(IF t.sense = 1 THEN ang[k] ELSE RNeg(ang[k]))
                                             IN Turn(t.axis, RSin(th), RCos(th), Lane(v, k), RAdd, RSub, RMul)]))
\* derivative of the same with respect to the angle in degrees
DTurn(t, ang, v) == Unlane(Vec([k \in 1..m |->
    LET th == Rad(IF t.sense = 1 THEN ang[k] ELSE RNeg(ang[k]))
        w == Lane(v, k)
        s == RSin(th)  c == RCos(th)
        f == IF t.sense = 1 THEN RDeg ELSE RNeg(RDeg)
    IN  [i \in 1..3 |-> IF i = First(t.axis) THEN ((w[Second(t.axis)] (.) c) (-) (w[First(t.axis)] (.) s)) (.) f
                        ELSE IF i = Second(t.axis) THEN RNeg((w[First(t.axis)] (.) c) (+) (w[Second(t.axis)] (.) s)) (.) f
                        ELSE R0]]))
Sum2(u, v) == Map2(RAdd, u, v)
Turned(t, ang, v) ==
    LET keys == DOMAIN v.J \cup (IF t.axis = 0 THEN {} ELSE {t.key})
    IN [c |-> TurnAll(t, ang, v.c),
        J |-> [k \in keys |-> IF k = t.key /\ t.axis # 0
                              THEN (IF k \in DOMAIN v.J THEN Sum2(TurnAll(t, ang, v.J[k]), DTurn(t, ang, v.c)) ELSE DTurn(t, ang, v.c))
                              ELSE TurnAll(t, ang, v.J[k])],
        sure |-> v.sure]
CrossOf(u, v) == Unlane([k \in 1..m |-> LET a == Lane(u, k)  b == Lane(v, k)
                  IN <<(a[2] (.) b[3]) (-) (a[3] (.) b[2]), (a[3] (.) b[1]) (-) (a[1] (.) b[3]), (a[1] (.) b[2]) (-) (a[2] (.) b[1])>>])
Scal(s) == <<s, s, s>>
OpOf(name) == CASE name \in {"add", "adds", "iadd", "iadds"} -> "add" [] name \in {"sub", "subs", "isub", "isubs"} -> "sub"
              [] name \in {"mul", "muls", "imul", "imuls"} -> "mul" [] OTHER -> "div"
Arith(o, u, v) == CASE o = "add" -> Map2(RAdd, u, v) [] o = "sub" -> Map2(RSub, u, v) [] o = "mul" -> Map2(RMul, u, v) [] OTHER -> Map2(RDiv, u, v)
Writes == {"iadd", "isub", "imul", "iadds", "isubs", "imuls"}
Second2(e) == IF "s" \in DOMAIN e THEN Scal(e.s) ELSE heap[e.b].c

\* the vector the operation makes or leaves
Result(e) ==
    LET a == heap[e.a]
    IN  CASE e.do \in DOMAIN Transforms -> Turned(Transforms[e.do], e.ang, a)
          [] e.do = "copy" -> Fresh(a.c)
          [] e.do = "neg" -> Fresh(Map2(LAMBDA x, y : RNeg(x), a.c, a.c))
          [] e.do = "cross" -> Fresh(CrossOf(a.c, heap[e.b].c))
          [] e.do \in Writes ->
               [c |-> Arith(OpOf(e.do), a.c, Second2(e)), J |-> a.J,
                \* the derivatives of a vector multiplied in place are not those of the product
                sure |-> a.sure /\ OpOf(e.do) # "mul"]
          [] OTHER -> Fresh(Arith(OpOf(e.do), a.c, Second2(e)))
After(e) == IF e.do \in Writes THEN [heap EXCEPT ![e.a] = Result(e)] ELSE Append(heap, Result(e))

Big(v) == RMaxAbs([i \in 1..(3 * m) |-> v[1 + ((i - 1) \div m)][1 + ((i - 1) % m)]])
NearV(u, v, s) == \A i \in 1..3 : \A k \in 1..m : (IF RIsFinite(v[i][k]) THEN Within(u[i][k], v[i][k], RLit("1e-12") (.) s) ELSE ~RIsFinite(u[i][k]))
Same(u, v) == \A i \in 1..3 : \A k \in 1..m : REq(u[i][k], v[i][k]) \/ (RIsNaN(u[i][k]) /\ RIsNaN(v[i][k]))
ArrayOk(e, i, v) == e.arr[i] = <<>> \/ (Len(e.arr[i]) = m /\ \A k \in 1..m : \A x \in 1..3 : REq(e.arr[i][k][x], v[x][k]) \/ RIsNaN(v[x][k]))
Old(e, i) == i <= Len(heap) /\ ~(e.do \in Writes /\ i = e.a)
StartClauses(e) ==
    LET c == <<e.src[1], e.src[2], e.src[3]>>  d == <<e.src[4], e.src[5], e.src[6]>>
        same(u, v) == \A i \in 1..3 : \A k \in 1..e.m : REq(u[i][k], v[i][k])
    IN  /\ Check(l, <<22, 23>>, "vectors hold the components given", 0, same(e.heap[1].c, c) /\ same(e.heap[2].c, d))
        /\ e.m = 1 \/ Cover(CvArrays)
Inverse(x, y) == LET f == Transforms[x]  g == Transforms[y] IN f.from = g.to /\ f.to = g.from
Undone(e) == /\ e.do \in DOMAIN Transforms /\ prov[e.a].do # "" /\ Inverse(e.do, prov[e.a].do) /\ e.ang = prov[e.a].ang
DoClauses(e) ==
    LET id == IF e.do \in DOMAIN Transforms THEN <<22>> ELSE <<23>>
    IN  /\ Check(l, <<22, 23>>, "operation returns a vector", <<e.do, e.err>>, e.err = "")
        /\ e.err # "" \/
           /\ e.do \notin Writes \/ Cover(CvInPlace)
           /\ ~(e.do \in DOMAIN Transforms /\ Transforms[e.do].axis # 0 /\ Transforms[e.do].key \in DOMAIN heap[e.a].J) \/ Cover(CvSameAngle)
           /\ Check(l, <<23>>, "arrays the vectors were made from are not modified", e.do, e.srcsame)
           /\ Check(l, <<22, 23>>, "number of vectors", e.do, Len(e.heap) = Len(After(e)))
           /\ Len(e.heap) # Len(After(e)) \/
              LET new == After(e)
                  r == Result(e)
                  s == RMax(Big(heap[e.a].c), Big(r.c))
                  u == e.heap[IF e.do \in Writes THEN e.a ELSE Len(new)]
                  KeyMag(k) == RMaxAbs([i \in 1..3 |-> RMaxAbs(r.J[k][i])])
              IN  /\ Check(l, id, "components of the result", e.do, NearV(u.c, r.c, s))
                  /\ \A i \in 1..Len(heap) : ~Old(e, i) \/
                       Check(l, <<23>>, "other vectors keep their components", <<e.do, i>>, Same(e.heap[i].c, heap[i].c))
                  /\ Check(l, <<23>>, "derivatives are carried for the components and all angles", e.do, DOMAIN u.J = DOMAIN r.J)
                  /\ ~r.sure \/ DOMAIN u.J # DOMAIN r.J \/ \A k \in DOMAIN r.J :
                       Check(l, <<23>>, "derivative of the result", <<e.do, k>>, NearV(u.J[k], r.J[k], RMax(KeyMag(k), IF k \in XYZ THEN R1 ELSE s (.) RDeg)))
                  /\ \A i \in 1..Len(heap) : ~Old(e, i) \/ ~heap[i].sure \/ DOMAIN e.heap[i].J # DOMAIN heap[i].J \/
                       Check(l, <<23>>, "other vectors keep their derivatives", <<e.do, i>>, \A k \in DOMAIN heap[i].J :
                             NearV(e.heap[i].J[k], heap[i].J[k], RMax(R1, RMaxAbs([x \in 1..3 |-> RMaxAbs(heap[i].J[k][x])]))))
                  /\ Check(l, id, "array form of the vectors", e.do, \A i \in 1..Len(e.arr) : ArrayOk(e, i, e.heap[i].c))
                  /\ ~Undone(e) \/ (/\ Cover(CvLoop)
                                   /\ Check(l, <<22>>, "there and back is the identity", e.do, NearV(u.c, heap[prov[e.a].a].c, s)))

\* the caller writes into the arrays the vectors were made from
ReuseClauses(e) ==
    /\ Check(l, <<23>>, "vectors after reuse of the caller's arrays", e.err, e.err = "")
    /\ e.err # "" \/ \A i \in 1..Len(heap) :
         Check(l, <<23>>, "vectors are independent of the arrays they were made from", i, Len(e.heap) = Len(heap) /\ Same(e.heap[i].c, heap[i].c))

\* ---- derivative of the cross product --------------------------------------------
CrossDerivClauses(e) ==
    /\ Check(l, <<23>>, "cross product derivatives return", e.err, e.err = "")
    /\ e.err # "" \/
       LET a == heap[1].c  b == heap[2].c
           \* component i of e_j x v
           UnitCross(j, v) == CrossOf(Unit(j), v)
           want(i, w, j) == IF w = 1 THEN UnitCross(j, b)[i] ELSE CrossOf(a, Unit(j))[i]
           finite == \A i \in 1..3 : \A k \in 1..m : RIsFinite(a[i][k]) /\ RIsFinite(b[i][k])
       IN ~finite \/ \A i \in 1..3 : \A w \in 1..2 : \A j \in 1..3 : \A k \in 1..m :
            Check(l, <<23>>, "derivative of the cross product", <<i, w, j>>, REq(e.D[i][w][j][k], want(i, w, j)[k]))

Init == l = 1 /\ m = 1 /\ heap = <<>> /\ prov = <<>> /\ InitCounters
E == Trace[l]
NoProv == [do |-> "", a |-> 0, ang |-> <<>>]
Start == /\ E.op = "Start" /\ m' = E.m /\ prov' = <<NoProv, NoProv>>
         /\ heap' = [i \in 1..2 |-> [c |-> E.heap[i].c, J |-> E.heap[i].J, sure |-> TRUE]]
         /\ StartClauses(E) = TRUE
Do == /\ E.op = "Do" /\ DoClauses(E) = TRUE /\ UNCHANGED m
      /\ IF E.err # "" \/ Len(E.heap) # Len(After(E)) THEN UNCHANGED <<heap, prov>>
         ELSE /\ heap' = [i \in 1..Len(E.heap) |-> [c |-> E.heap[i].c, J |-> E.heap[i].J, sure |-> After(E)[i].sure]]
              /\ prov' = IF E.do \in Writes THEN [i \in 1..Len(heap) |-> NoProv]
                         ELSE Append(prov, IF E.do \in DOMAIN Transforms THEN [do |-> E.do, a |-> E.a, ang |-> E.ang] ELSE NoProv)
CrossDeriv == E.op = "CrossDeriv" /\ UNCHANGED <<m, heap, prov>> /\ CrossDerivClauses(E) = TRUE
Reuse == E.op = "Reuse" /\ UNCHANGED <<m, heap, prov>> /\ ReuseClauses(E) = TRUE
End == E.op = "End" /\ UNCHANGED <<m, heap, prov>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Start \/ Do \/ Reuse \/ CrossDeriv \/ End)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
