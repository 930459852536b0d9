----------------------------- MODULE NeuralModel -----------------------------
(***************************************************************************)
(* The learning rules of Neural.tla are the derivatives of its forward rules:  *)
(* for many small layers of each kind, every activation function and several    *)
(* inputs and error signals, what a layer passes back and adds to its pending    *)
(* updates is the slope of (error signal . output), measured by differences.     *)
(***************************************************************************)
EXTENDS Neural, TLC
CONSTANTS Kinds
VARIABLES L, x, d
vars == <<L, x, d>>
Vals == <<"0.3", "-0.7", "0.45", "1.1", "-0.2", "0.9", "-1.3", "0.05", "0.6", "-0.35", "0.8", "-0.15", "0.25", "-0.55", "1.4", "0.7">>
V(i) == Vals[Rem(i - 1, Len(Vals)) + 1]
Zeros(n) == [i \in 1..n |-> "0"]
Shape(ty, h, w, c, nf, sz, sd, pd) ==
  LET oh == CASE ty = 7 -> (h + 2 * pd - sz) \div sd + 1 [] ty = 6 -> (h + pd - sz) \div sd + 1 [] ty = 8 -> 1 [] ty = 9 -> h * sd [] OTHER -> 1
      ow == CASE ty = 7 -> (w + 2 * pd - sz) \div sd + 1 [] ty = 6 -> (w + pd - sz) \div sd + 1 [] ty = 8 -> 1 [] ty = 9 -> w * sd [] OTHER -> 1
      oc == IF ty = 7 THEN nf ELSE c
      no == IF ty = 0 THEN nf ELSE oh * ow * oc
      ni == h * w * c
      nw == CASE ty = 0 -> ni * nf [] ty = 7 -> nf * c * sz * sz [] OTHER -> 0
      nb == IF ty \in {0, 7} THEN nf ELSE 0 IN
  [ty |-> ty, h |-> h, w |-> w, c |-> c, nf |-> nf, sz |-> sz, sd |-> sd, pd |-> pd, oh |-> oh, ow |-> ow, oc |-> oc, ni |-> ni, no |-> no,
   W |-> [i \in 1..nw |-> V(3 * i + 1)], B |-> [i \in 1..nb |-> V(5 * i)], dW |-> Zeros(nw), dB |-> Zeros(nb), A |-> [i \in 1..nw |-> 1],
   fn |-> 3, sc |-> "1", opt |-> 8, eta |-> "0.1", dec |-> "0", mom |-> "0"]
Layers ==
  UNION {
    IF "connected" \in Kinds THEN {[Shape(0, 1, ni, 1, no, 1, 1, 0) EXCEPT !.fn = f] : ni \in 1..3, no \in 1..3, f \in 0..10} ELSE {},
    IF "convolutional" \in Kinds THEN {[Shape(7, h, w, c, nf, sz, sd, pd) EXCEPT !.fn = f] : h \in {2, 3}, w \in {2, 3}, c \in 1..2, nf \in 1..2, sz \in 1..2, sd \in 1..2, pd \in 0..1, f \in {2, 3, 5}} ELSE {},
    IF "maxpool" \in Kinds THEN {Shape(6, h, w, c, 1, 2, sd, pd) : h \in {2, 3}, w \in {2, 3, 4}, c \in 1..2, sd \in 1..2, pd \in 0..1} ELSE {},
    IF "avgpool" \in Kinds THEN {Shape(8, h, w, c, 1, 1, 1, 0) : h \in 1..3, w \in 1..3, c \in 1..2} ELSE {},
    IF "upsample" \in Kinds THEN {Shape(9, h, w, c, 1, 1, sd, 0) : h \in 1..2, w \in 1..2, c \in 1..2, sd \in 1..3} ELSE {}}
Init == L \in Layers /\ \E s \in {0, 4} : x = [i \in 1..L.ni |-> V(i + s)] /\ d = [i \in 1..L.no |-> V(2 * i + s)]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
h == "1e-5"
Obj(M, z) == FDot(d, LayerOut(M, z))
Diff(up, down) == FDiv(FSub(up, down), "2e-5")
Shift(q, i, v) == [q EXCEPT ![i] = FAdd(@, v)]
M0 == FNeg(h)
(* away from the corners of relu, leaky and selu                                *)
Smooth == L.fn \notin {1, 8, 9} \/ L.ty # 0 \/ LET z == ConnState(L, x) IN \A i \in 1..L.no : FLt("1e-3", FAbs(z[i]))
InvOut == Len(LayerOut(L, x)) = L.no
InvPassed == Smooth => LET p == Passed(L, x, d, LayerOut(L, x), TRUE) IN
  \A j \in 1..L.ni : FNear(p[j], Diff(Obj(L, Shift(x, j, h)), Obj(L, Shift(x, j, M0))), "1e-6")
InvWeights == (Smooth /\ HasWeights(L)) => LET g == BackW(L, x, d) IN
  \A i \in 1..Len(L.W) : FNear(g[i], Diff(Obj([L EXCEPT !.W = Shift(@, i, h)], x), Obj([L EXCEPT !.W = Shift(@, i, M0)], x)), "1e-6")
InvBiases == (Smooth /\ HasWeights(L)) => LET g == BackB(L, x, d) IN
  \A i \in 1..Len(L.B) : FNear(g[i], Diff(Obj([L EXCEPT !.B = Shift(@, i, h)], x), Obj([L EXCEPT !.B = Shift(@, i, M0)], x)), "1e-6")
(* a lesson moves the output along the error signal                              *)
InvTaught == (Smooth /\ HasWeights(L)) => LET M == Learned([L EXCEPT !.eta = "1e-4"], x, d) IN
  FLe(Obj(L, x), FAdd(Obj(M, x), "1e-12"))
=============================================================================
