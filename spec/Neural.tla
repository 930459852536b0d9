------------------------------- MODULE Neural -------------------------------
(***************************************************************************)
(* Neural networks: what each kind of layer computes, how a network learns  *)
(* and how it may change.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dbl

LOCAL Cl(v, lo, hi) == FMin(FMax(v, lo), hi)
Logistic(x) == FDiv("1", FAdd("1", FExp(FNeg(x))))
Activate(fn, x) ==
  CASE fn = 0 -> Logistic(x)
    [] fn = 1 -> IF FLt("0", x) THEN x ELSE "0"
    [] fn = 2 -> FTanh(x)
    [] fn = 3 -> x
    [] fn = 4 -> FExp(FNeg(FMul(x, x)))
    [] fn = 5 -> FSin(x)
    [] fn = 6 -> FCos(x)
    [] fn = 7 -> FLog(FAdd("1", FExp(x)))
    [] fn = 8 -> IF FLt("0", x) THEN x ELSE FMul("0.1", x)
    [] fn = 9 -> IF FLe("0", x) THEN FMul("1.0507", x)
                 ELSE FMul("1.0507", FMul("1.6732", FSub(FExp(x), "1")))
    [] fn = 10 -> FSub(FDiv("2", FAdd("1", FExp(FNeg(x)))), "1")
(* the action a self-contained rule's outputs 2.. encode in binary            *)
RECURSIVE OutBits(_, _)
LOCAL OutBits(out, i) == IF i > Len(out) THEN 0
                    ELSE (IF FLt("0.5", out[i]) THEN 2^(i - 2) ELSE 0) + OutBits(out, i + 1)
NetAction(par, out) == LET v == OutBits(out, 2) IN IF v > par.na - 1 THEN par.na - 1 ELSE v
(* what a network inherits: everything but activations and pending updates   *)
LayerGenes(L) == [ty |-> L.ty, fn |-> L.fn, rf |-> L.rf, ni |-> L.ni, no |-> L.no, opt |-> L.opt, eta |-> L.eta,
                  W |-> L.W, B |-> L.B, A |-> L.A, sc |-> L.sc, pr |-> L.pr]
NetGenes(N) == [i \in 1..Len(N.L) |-> LayerGenes(N.L[i])]
Row(W, i, n) == SubSeq(W, (i - 1) * n + 1, i * n)
ConnState(L, x) == [i \in 1..L.no |->
   Cl(FAdd(L.B[i], FDot(Row(L.W, i, L.ni), x)), "-100", "100")]
ConnOut(L, x) == LET s == ConnState(L, x) IN [i \in 1..L.no |-> Activate(L.fn, s[i])]
NetPlain(N) == \A i \in 1..Len(N.L) : N.L[i].ty = 0
RECURSIVE NetFwd(_, _, _)
NetFwd(N, k, x) == IF k > Len(N.L) THEN x ELSE NetFwd(N, k + 1, ConnOut(N.L[k], x))
NetRun(N, x) == NetFwd(N, 1, x)

(* ---- all kinds of layers.  Images are flat: channel, row, column.          *)
LayerKind == [connected |-> 0, dropout |-> 1, noise |-> 2, softmax |-> 3, recurrent |-> 4, lstm |-> 5, maxpool |-> 6, convolutional |-> 7, avgpool |-> 8, upsample |-> 9]
FnName == <<"logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy">>
Slope(fn, x) ==
  CASE fn = 0 -> LET f == Logistic(x) IN FMul(FSub("1", f), f)
    [] fn = 1 -> IF FLt("0", x) THEN "1" ELSE "0"
    [] fn = 2 -> LET t == FTanh(x) IN FSub("1", FMul(t, t))
    [] fn = 3 -> "1"
    [] fn = 4 -> FMul(FMul("-2", x), FExp(FNeg(FMul(x, x))))
    [] fn = 5 -> FCos(x)
    [] fn = 6 -> FNeg(FSin(x))
    [] fn = 7 -> Logistic(x)
    [] fn = 8 -> IF FLt(x, "0") THEN "0.1" ELSE "1"
    [] fn = 9 -> IF FLe("0", x) THEN "1.0507" ELSE FMul("1.0507", FMul("1.6732", FExp(x)))
    [] fn = 10 -> LET e == FExp(x) IN FDiv(FMul("2", e), FMul(FAdd(e, "1"), FAdd(e, "1")))
Rem(a, b) == a - b * (a \div b)
Neuron(v) == Cl(v, "-100", "100")
Weight(v) == Cl(v, "-10", "10")
(* convolution: output cell o (1..oh*ow), kernel cell k (1..c*sz*sz)           *)
CellRow(L, o) == (o - 1) \div L.ow
CellCol(L, o) == Rem(o - 1, L.ow)
KerC(L, k) == (k - 1) \div (L.sz * L.sz)
KerU(L, k) == Rem((k - 1) \div L.sz, L.sz)
KerV(L, k) == Rem(k - 1, L.sz)
PixIdx(L, o, k) ==
  LET r == CellRow(L, o) * L.sd + KerU(L, k) - L.pd
      q == CellCol(L, o) * L.sd + KerV(L, k) - L.pd IN
  IF r < 0 \/ q < 0 \/ r >= L.h \/ q >= L.w THEN 0 ELSE 1 + q + L.w * (r + L.h * KerC(L, k))
KerLen(L) == L.c * L.sz * L.sz
Patch(L, x, o) == [k \in 1..KerLen(L) |-> LET p == PixIdx(L, o, k) IN IF p = 0 THEN "0" ELSE x[p]]
ConvState(L, x) ==
  LET n == L.oh * L.ow
      pt == [o \in 1..n |-> Patch(L, x, o)] IN
  [i \in 1..(L.nf * n) |-> LET f == (i - 1) \div n + 1 o == Rem(i - 1, n) + 1 IN
      Neuron(FAdd(FDot(Row(L.W, f, KerLen(L)), pt[o]), L.B[f]))]
PoolWindow(L, i) ==
  LET n == L.oh * L.ow k == (i - 1) \div n o == Rem(i - 1, n) + 1
      off == -(L.pd \div 2)
      cells == {<<off + CellRow(L, o) * L.sd + u, off + CellCol(L, o) * L.sd + v>> : u \in 0..(L.sz - 1), v \in 0..(L.sz - 1)}
      in == {p \in cells : p[1] >= 0 /\ p[1] < L.h /\ p[2] >= 0 /\ p[2] < L.w} IN
  {1 + p[2] + L.w * (p[1] + L.h * k) : p \in in}
PoolPick(L, x, i) == LET S == PoolWindow(L, i) IN CHOOSE p \in S : \A q \in S : FLt(x[q], x[p]) \/ (FEq(x[q], x[p]) /\ p <= q)
UpFrom(L, i) ==
  LET sq == L.w * L.h * L.sd * L.sd k == (i - 1) \div sq r == (Rem(i - 1, sq)) \div (L.w * L.sd) q == Rem(i - 1, L.w * L.sd) IN
  1 + k * L.w * L.h + (r \div L.sd) * L.w + q \div L.sd
SoftMax(x, T) ==
  LET big == CHOOSE v \in {x[i] : i \in 1..Len(x)} : \A i \in 1..Len(x) : FLe(x[i], v)
      e == [i \in 1..Len(x) |-> FExp(FSub(FDiv(x[i], T), FDiv(big, T)))] IN
  [i \in 1..Len(x) |-> FDiv(e[i], FSum(e))]
Add2(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
(* recurrent: the state is input plus own previous output, both through weights *)
RecState(L, x) == Add2(ConnOut(L.il, x), ConnOut(L.sl, L.ro))
(* LSTM: gates, cell, output                                                   *)
Gate(L, u, w, fn, x) == LET z == Add2(ConnOut(u, x), ConnOut(w, L.hh)) IN [i \in 1..L.no |-> Activate(fn, Neuron(z[i]))]
LstmCell(L, x) ==
  LET f == Gate(L, L.uf, L.wf, L.rf, x) i == Gate(L, L.ui, L.wi, L.rf, x) g == Gate(L, L.ug, L.wg, L.fn, x) IN
  [k \in 1..L.no |-> FAdd(FMul(f[k], L.cc[k]), FMul(i[k], g[k]))]
LstmOut(L, x) ==
  LET c == LstmCell(L, x) o == Gate(L, L.uo, L.wo, L.rf, x) IN
  [k \in 1..L.no |-> FMul(o[k], Activate(L.fn, Neuron(c[k])))]
(* the output of a layer whose memory is in L                                  *)
LayerOut(L, x) ==
  CASE L.ty = 0 -> ConnOut(L, x)
    [] L.ty \in {1, 2} -> x
    [] L.ty = 3 -> SoftMax(x, L.sc)
    [] L.ty = 4 -> ConnOut(L.ol, RecState(L, x))
    [] L.ty = 5 -> LstmOut(L, x)
    [] L.ty = 6 -> [i \in 1..L.no |-> x[PoolPick(L, x, i)]]
    [] L.ty = 7 -> LET z == ConvState(L, x) IN [i \in 1..L.no |-> Activate(L.fn, z[i])]
    [] L.ty = 8 -> LET n == L.h * L.w IN [k \in 1..L.c |-> FDiv(FSum(SubSeq(x, (k - 1) * n + 1, k * n)), F(n))]
    [] L.ty = 9 -> [i \in 1..L.no |-> x[UpFrom(L, i)]]

(* ---- learning.  d is the error signal at the layer's output, x its input     *)
HasWeights(L) == L.ty \in {0, 7}
Learns(L) == Rem(L.opt \div 8, 2) = 1
Scaled(v, k) == [i \in 1..Len(v) |-> FMul(v[i], k)]
Signal(L, x, d) == LET z == IF L.ty = 0 THEN ConnState(L, x) ELSE ConvState(L, x) IN [i \in 1..L.no |-> FMul(d[i], Slope(L.fn, z[i]))]
Column(W, j, n, m) == [i \in 1..m |-> W[(i - 1) * n + j]]
(* the error signal it passes on to its input; kept: what dropout kept          *)
Passed(L, x, d, out, train) ==
  CASE L.ty = 0 -> LET g == Signal(L, x, d) IN [j \in 1..L.ni |-> FDot(g, Column(L.W, j, L.ni, L.no))]
    [] L.ty = 1 -> (IF ~train THEN d ELSE [i \in 1..L.no |-> IF FEq(out[i], "0") /\ ~FEq(x[i], "0") THEN "0" ELSE FMul(d[i], L.sc)])
    [] L.ty \in {2, 3} -> d
    [] L.ty = 6 -> LET pk == [i \in 1..L.no |-> PoolPick(L, x, i)] IN
                   [j \in 1..L.ni |-> FSum([i \in 1..L.no |-> IF pk[i] = j THEN d[i] ELSE "0"])]
    [] L.ty = 7 -> LET g == Signal(L, x, d) n == L.oh * L.ow
                       at == [o \in 1..n |-> [k \in 1..KerLen(L) |-> PixIdx(L, o, k)]]
                       back == [o \in 1..n |-> [k \in 1..KerLen(L) |-> FSum([f \in 1..L.nf |-> FMul(L.W[(f - 1) * KerLen(L) + k], g[(f - 1) * n + o])])]] IN
                   [j \in 1..L.ni |-> FSum([o \in 1..n |-> FSum([k \in 1..KerLen(L) |-> IF at[o][k] = j THEN back[o][k] ELSE "0"])])]
    [] L.ty = 8 -> LET n == L.h * L.w IN [j \in 1..L.ni |-> FDiv(d[(j - 1) \div n + 1], F(n))]
    [] L.ty = 9 -> [j \in 1..L.ni |-> FSum([i \in 1..L.no |-> IF UpFrom(L, i) = j THEN d[i] ELSE "0"])]
(* pending updates after the backward phase                                     *)
BackB(L, x, d) ==
  LET g == Signal(L, x, d) n == L.oh * L.ow IN
  IF L.ty = 0 THEN Add2(L.dB, g) ELSE [f \in 1..L.nf |-> FAdd(L.dB[f], FSum(SubSeq(g, (f - 1) * n + 1, f * n)))]
BackW(L, x, d) ==
  LET g == Signal(L, x, d) n == L.oh * L.ow m == KerLen(L) IN
  IF L.ty = 0 THEN [i \in 1..(L.no * L.ni) |-> FAdd(L.dW[i], FMul(g[(i - 1) \div L.ni + 1], x[Rem(i - 1, L.ni) + 1]))]
  ELSE LET pt == [o \in 1..n |-> Patch(L, x, o)] IN
       [i \in 1..(L.nf * m) |-> LET f == (i - 1) \div m k == Rem(i - 1, m) + 1 IN
          FAdd(L.dW[i], FDot(SubSeq(g, f * n + 1, (f + 1) * n), [o \in 1..n |-> pt[o][k]]))]
(* a layer after one learning step                                              *)
Learned(L, x, d) ==
  IF ~(Learns(L) /\ FLt("0", L.eta)) THEN L
  ELSE LET b == BackB(L, x, d)
           w0 == BackW(L, x, d)
           w == IF FLt("0", L.dec) THEN [i \in 1..Len(w0) |-> FSub(w0[i], FMul(L.dec, L.W[i]))] ELSE w0 IN
       [L EXCEPT !.B = [i \in 1..Len(b) |-> Weight(FAdd(L.B[i], FMul(L.eta, b[i])))], !.dB = Scaled(b, L.mom),
                 !.W = [i \in 1..Len(w) |-> IF L.A[i] = 0 THEN "0" ELSE Weight(FAdd(L.W[i], FMul(L.eta, w[i])))], !.dW = Scaled(w, L.mom)]

(* ---- consistency of a layer and of a network                                 *)
Pieces(L) == IF L.ty = 4 THEN <<L.il, L.sl, L.ol>> ELSE IF L.ty = 5 THEN <<L.uf, L.ui, L.ug, L.uo, L.wf, L.wi, L.wg, L.wo>> ELSE <<>>
ActiveCount(L) == Cardinality({i \in 1..Len(L.A) : L.A[i] = 1})
RECURSIVE SumNa(_, _)
SumNa(q, f) == IF q = <<>> THEN 0 ELSE Head(q)[f] + SumNa(Tail(q), f)
Plain(L) ==   \* a layer with weights of its own
  /\ L.nw = Len(L.W) /\ L.nw = Len(L.A) /\ L.nw = Len(L.dW) /\ L.nb = Len(L.B) /\ L.nb = Len(L.dB) /\ L.na = ActiveCount(L)
  /\ \A i \in 1..L.nw : FFinite(L.W[i]) /\ FLe("-10", L.W[i]) /\ FLe(L.W[i], "10") /\ (L.A[i] = 0 => FEq(L.W[i], "0"))
  /\ \A i \in 1..L.nb : FFinite(L.B[i]) /\ FLe("-10", L.B[i]) /\ FLe(L.B[i], "10")
  /\ FLe("0", L.eta) /\ FLe(L.eta, L.emax) /\ (Rem(L.opt \div 16, 2) = 1 => FLe(L.emin, L.eta))
  /\ L.fn \in 0..10
WellFormed(L) ==
  CASE L.ty = 0 -> Plain(L) /\ L.nw = L.ni * L.no /\ L.nb = L.no /\ L.no >= 1 /\ (Rem(L.opt \div 2, 2) = 1 => L.no <= L.mo)
    [] L.ty \in {1, 2, 3} -> L.no = L.ni /\ L.no >= 1
    [] L.ty = 4 -> /\ \A i \in 1..3 : Plain(Pieces(L)[i]) /\ Pieces(L)[i].no = L.no /\ Pieces(L)[i].nw = Pieces(L)[i].ni * L.no /\ Pieces(L)[i].nb = L.no
                   /\ L.il.ni = L.ni /\ L.sl.ni = L.no /\ L.ol.ni = L.no /\ L.no >= 1 /\ L.no <= L.mo /\ L.ol.fn = L.fn /\ L.il.fn = 3 /\ L.sl.fn = 3
                   /\ L.na = SumNa(Pieces(L), "na") /\ \A i \in 1..3 : FEq(Pieces(L)[i].eta, L.eta)
    [] L.ty = 5 -> /\ \A i \in 1..8 : Plain(Pieces(L)[i]) /\ Pieces(L)[i].no = L.no /\ Pieces(L)[i].ni = (IF i <= 4 THEN L.ni ELSE L.no)
                                       /\ Pieces(L)[i].nw = Pieces(L)[i].ni * L.no /\ Pieces(L)[i].nb = L.no /\ Pieces(L)[i].fn = 3
                   /\ L.no >= 1 /\ L.no <= L.mo /\ L.fn \in 0..10 /\ L.rf \in 0..10
                   /\ L.na = SumNa(Pieces(L), "na") /\ L.nw = SumNa(Pieces(L), "nw") /\ \A i \in 1..8 : FEq(Pieces(L)[i].eta, L.eta)
    [] L.ty = 6 -> /\ L.ni = L.h * L.w * L.c /\ L.oc = L.c /\ L.no = L.oh * L.ow * L.oc
                   /\ L.ow = (L.w + L.pd - L.sz) \div L.sd + 1 /\ L.oh = (L.h + L.pd - L.sz) \div L.sd + 1
    [] L.ty = 7 -> /\ Plain(L) /\ L.ni = L.h * L.w * L.c /\ L.oc = L.nf /\ L.no = L.oh * L.ow * L.oc /\ L.nw = L.nf * KerLen(L) /\ L.nb = L.nf
                   /\ L.nf >= 1 /\ L.nf <= L.mo
                   /\ L.ow = (L.w + 2 * L.pd - L.sz) \div L.sd + 1 /\ L.oh = (L.h + 2 * L.pd - L.sz) \div L.sd + 1
    [] L.ty = 8 -> L.ni = L.h * L.w * L.c /\ L.no = L.c
    [] L.ty = 9 -> L.ni = L.h * L.w * L.c /\ L.oc = L.c /\ L.ow = L.w * L.sd /\ L.oh = L.h * L.sd /\ L.no = L.oh * L.ow * L.oc
Joined(N) == \A k \in 2..Len(N.L) : N.L[k].ni = N.L[k - 1].no
(* the content of a layer without activations, memory and pending updates       *)
RECURSIVE Content(_)
Content(L) ==
  LET drop == {"O", "rs", "rp", "ro", "cell", "hh", "cc", "dW", "dB", "mu"}
      nest == {"il", "sl", "ol", "uf", "ui", "ug", "uo", "wf", "wi", "wg", "wo"} IN
  [f \in DOMAIN L \ drop |-> IF f \in nest THEN Content(L[f]) ELSE L[f]]
=============================================================================
