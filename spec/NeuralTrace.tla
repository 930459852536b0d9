----------------------------- MODULE NeuralTrace -----------------------------
(* Checks recorded histories of a network (harness/ndrive.c).                  *)
EXTENDS Neural, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Active
VARIABLES l, N, x, tr, tally, asked
vars == <<l, N, x, tr, tally, asked>>
View == l
Chk(name, cond) == IF "net" \notin Active THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"FAIL", {"net"}, name, "event", l, Trace[l].e>>) /\ FALSE
ev == Trace[l]
K(M) == Len(M.L)
Near(a, b) == FNear(a, b, "1e-9")
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Exact(a, b) == Alike(a, b, "0")
Bit(L, b) == Rem(L.opt \div b, 2) = 1
WEIGHTS == 1  NEURONS == 2  FUNCTIONS == 4  SGD == 8  ETA == 16  CONNECT == 32
Weighty(L) == L.ty \in {0, 4, 5, 7}
(* ---- at all times                                                           *)
Whole(M, size, outs) ==
  /\ \A k \in 1..K(M) : Chk(<<"layer is consistent", k - 1, M.L[k].ty>>, WellFormed(M.L[k]))
  /\ Chk("layers fit together", Joined(M) /\ M.nl = K(M))
  /\ Chk("outputs are those of the last layer", M.no = M.L[K(M)].no /\ Exact(outs, M.L[K(M)].O))
  /\ Chk("size counts the active weights", FEq(size, F(SumNa(SelectSeq(M.L, Weighty), "na"))))
Input(M, k, v) == IF k = 1 THEN v ELSE M.L[k - 1].O

(* ---- creation                                                               *)
Given(a, f, default) == IF f \in DOMAIN a THEN a[f] ELSE default
Flag(a, f, b) == IF Given(a, f, FALSE) THEN b ELSE 0
AskedOpt(a) == Flag(a, "evolve_weights", 1) + Flag(a, "evolve_neurons", 2) + Flag(a, "evolve_functions", 4) + Flag(a, "sgd_weights", 8) + Flag(a, "evolve_eta", 16) + Flag(a, "evolve_connect", 32)
FnIs(id, name) == FnName[id + 1] = name
AsAsked(a, L) ==
  /\ L.ty = LayerKind[a.type]
  /\ L.ty \in {0, 4, 5} => L.no = FInt(a.n_init)
  /\ L.ty = 7 => L.nf = FInt(a.n_init)
  /\ Weighty(L) => /\ L.opt = AskedOpt(a) /\ FnIs(L.fn, a.activation)
                   /\ IF a.evolve_eta THEN FLe(a.eta_min, L.eta) /\ FLe(L.eta, FMax(a.eta, a.eta_min)) ELSE FEq(L.eta, a.eta)
                   /\ L.mo = IF "n_max" \in DOMAIN a THEN FInt(FMax(a.n_max, a.n_init)) ELSE FInt(a.n_init)
  /\ L.ty = 5 => FnIs(L.rf, a.recurrent_activation)
  /\ L.ty \in {0, 7} => /\ FEq(L.mom, a.momentum) /\ FEq(L.dec, a.decay) /\ \A i \in 1..Len(L.B) : FEq(L.B[i], "0")
                        /\ \A i \in 1..Len(L.A) : L.A[i] = 1
  /\ \A i \in 1..Len(Pieces(L)) : LET P == Pieces(L)[i] IN FEq(P.mom, a.momentum) /\ FEq(P.dec, a.decay) /\ P.opt = L.opt
  /\ L.ty \in {6, 7} => L.sz = FInt(a.size) /\ L.sd = FInt(a.stride) /\ L.pd = FInt(a.pad)
  /\ L.ty = 9 => L.sd = FInt(a.stride)
  /\ L.ty = 1 => FEq(L.pr, a.probability) /\ Near(L.sc, FDiv("1", FSub("1", a.probability)))
  /\ L.ty = 2 => FEq(L.pr, a.probability) /\ FEq(L.sc, a.scale)
  /\ L.ty = 3 => FEq(L.sc, a.scale)
TInit ==
  /\ ev.e = "Init"
  /\ Chk("as many layers as asked for", K(ev.N) = Len(ev.layers))
  /\ \A k \in 1..K(ev.N) : Chk(<<"layer is as configured", k - 1, ev.layers[k].type>>, AsAsked(ev.layers[k], ev.N.L[k]))
  /\ Chk("inputs and outputs of the network", ev.N.ni = ev.xd /\ ev.N.L[1].ni = ev.xd /\ ev.N.no = ev.yd)
  /\ Whole(ev.N, ev.size, ev.outs)
  /\ N' = ev.N /\ x' = <<>> /\ tr' = FALSE /\ tally' = [k \in 1..K(ev.N) |-> <<0, 0>>] /\ asked' = ev.layers[1]

(* ---- propagation                                                            *)
Contents(M) == [k \in 1..K(M) |-> Content(M.L[k])]
Pending(L) == <<L.dW, L.dB, [i \in 1..Len(Pieces(L)) |-> <<Pieces(L)[i].dW, Pieces(L)[i].dB>>]>>
Flow(L, M, in, train) ==
  IF train /\ L.ty = 1 THEN \A i \in 1..L.no : FEq(M.O[i], "0") \/ Near(M.O[i], FMul(in[i], L.sc))
  ELSE IF train /\ L.ty = 2 THEN \A i \in 1..L.no : FLe(FAbs(FSub(M.O[i], in[i])), FMul("9", L.sc))
  ELSE NearSeq(M.O, LayerOut(L, in))
Memory(L, M, in) ==
  CASE L.ty = 4 -> NearSeq(M.rs, RecState(L, in)) /\ Exact(M.ro, M.O)
    [] L.ty = 5 -> NearSeq(M.cc, LstmCell(L, in)) /\ Exact(M.hh, M.O)
    [] OTHER -> TRUE
Hits(L, M, in) == IF L.ty = 1 THEN Cardinality({i \in 1..L.no : FEq(M.O[i], "0") /\ ~FEq(in[i], "0")}) ELSE Cardinality({i \in 1..L.no : ~FEq(M.O[i], in[i])})
Tries(L, in) == IF L.ty = 1 THEN Cardinality({i \in 1..L.no : ~FEq(in[i], "0")}) ELSE L.no
TFwd ==
  /\ ev.e = "fwd"
  /\ Chk("propagating changes no weights", Exact(Contents(N), Contents(ev.N)) /\ \A k \in 1..K(N) : Exact(Pending(N.L[k]), Pending(ev.N.L[k])))
  /\ Whole(ev.N, ev.size, ev.outs)
  /\ \A k \in 1..K(N) : LET in == Input(ev.N, k, ev.x) IN
       /\ Chk(<<"output of the layer", k - 1, N.L[k].ty>>, Flow(N.L[k], ev.N.L[k], in, ev.tr))
       /\ Chk(<<"memory of the layer", k - 1>>, Memory(N.L[k], ev.N.L[k], in))
  /\ N' = ev.N /\ x' = ev.x /\ tr' = ev.tr /\ UNCHANGED asked
  /\ tally' = [k \in 1..K(N) |-> IF ev.tr /\ N.L[k].ty \in {1, 2} THEN LET in == Input(ev.N, k, ev.x) IN
                 <<tally[k][1] + Tries(N.L[k], in), tally[k][2] + Hits(N.L[k], ev.N.L[k], in)>> ELSE tally[k]]

(* ---- learning                                                               *)
Moved(L, M, in, d) ==
  LET G == Learned(L, in, d) IN
  /\ Chk("weights follow the gradient", NearSeq(M.W, G.W)) /\ Chk("biases follow the gradient", NearSeq(M.B, G.B))
  /\ (Learns(L) /\ FLt("0", L.eta)) => Chk("momentum is carried", NearSeq(M.dW, G.dW) /\ NearSeq(M.dB, G.dB))
Fixed(L, M) == Exact(Content(L), Content(M))
(* all but the weights and biases                                              *)
Shape(L) == [f \in DOMAIN Content(L) \ {"W", "B", "il", "sl", "ol", "uf", "ui", "ug", "uo", "wf", "wi", "wg", "wo"} |-> L[f]]
(* of a dropped unit whose input is zero the outputs do not tell that it was dropped *)
Hidden(L, in) == L.ty = 1 /\ tr /\ \E i \in 1..L.no : FEq(in[i], "0")
RECURSIVE Back(_, _, _, _)
Back(k, d, known, M) ==     \* d: the error at the output of layer k, if known
  IF k = 0 THEN TRUE
  ELSE LET L == N.L[k] in == Input(N, k, x) m == M.L[k] IN
    /\ Chk(<<"learning keeps the structure", k - 1>>, Exact(Shape(L), Shape(m)) /\ \A i \in 1..Len(Pieces(L)) : Exact(Shape(Pieces(L)[i]), Shape(Pieces(m)[i])))
    /\ (~Weighty(L) \/ ~Learns(L) \/ ~FLt("0", L.eta)) => Chk(<<"a layer that does not learn stays the same", k - 1, L.ty>>, Fixed(L, m))
    /\ IF L.ty = 5 \/ ~known THEN Back(k - 1, <<>>, FALSE, M)
       ELSE IF L.ty = 4 THEN
            LET g == Passed(L.ol, L.rs, d, <<>>, tr) IN
            /\ Moved(L.ol, m.ol, L.rs, d) /\ Moved(L.il, m.il, in, g)
            /\ Back(k - 1, Passed(L.il, in, g, <<>>, tr), TRUE, M)
       ELSE /\ HasWeights(L) => Moved(L, m, in, d)
            /\ (k > 1 => Back(k - 1, Passed(L, in, d, L.O, tr), ~Hidden(L, in), M))
TLearn ==
  /\ ev.e = "learn"
  /\ LET o == N.L[K(N)].O IN Back(K(N), [i \in 1..Len(o) |-> FSub(ev.t[i], o[i])], TRUE, ev.N)
  /\ Whole(ev.N, ev.size, ev.outs)
  /\ Chk("learning changes no activations", \A k \in 1..K(N) : Exact(N.L[k].O, ev.N.L[k].O))
  /\ N' = ev.N /\ UNCHANGED <<x, tr, tally, asked>>

(* ---- mutation                                                               *)
Lo(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
(* what remains of a fully connected layer                                     *)
Kept(L, M) ==
  /\ \A i \in 1..Lo(L.no, M.no) : \A j \in 1..Lo(L.ni, M.ni) :
        LET a == (i - 1) * L.ni + j b == (i - 1) * M.ni + j IN
        \/ FEq(L.W[a], M.W[b]) /\ L.A[a] = M.A[b]
        \* the only connection of a neuron or of an input that had lost all others
        \/ /\ L.A[a] = 0 /\ M.A[b] = 1
           /\ \/ \A p \in 1..M.ni : p # j => M.A[(i - 1) * M.ni + p] = 0
              \/ \A p \in 1..M.no : p # i => M.A[(p - 1) * M.ni + j] = 0
  /\ \A i \in 1..M.no : FEq(M.B[i], IF i <= L.no THEN L.B[i] ELSE "0")
Changed(L, M) ==
  /\ M.ty = L.ty /\ M.opt = L.opt /\ FEq(M.sc, L.sc) /\ FEq(M.pr, L.pr)
  /\ Weighty(L) =>
     /\ M.mo = L.mo /\ FEq(M.emax, L.emax) /\ FEq(M.emin, L.emin) /\ FEq(M.mom, L.mom) /\ FEq(M.dec, L.dec)
     /\ (Bit(L, ETA) \/ FEq(M.eta, L.eta)) /\ (Bit(L, FUNCTIONS) \/ (M.fn = L.fn /\ M.rf = L.rf))
     /\ LET n == IF L.ty = 7 THEN "nf" ELSE "no" IN (Bit(L, NEURONS) /\ (L.ty = 4 \/ Abs(M[n] - L[n]) <= L.mg)) \/ M[n] = L[n]
     /\ (L.ty = 0 /\ ~Bit(L, WEIGHTS) /\ ~Bit(L, CONNECT)) => Kept(L, M)
     /\ (L.ty \in {4, 5} /\ ~Bit(L, WEIGHTS) /\ ~Bit(L, CONNECT)) => \A i \in 1..Len(Pieces(L)) : Kept(Pieces(L)[i], Pieces(M)[i])
     /\ (L.ty = 7 /\ ~Bit(L, WEIGHTS) /\ ~Bit(L, CONNECT) /\ L.c = M.c) =>
          (\A i \in 1..Lo(L.nw, M.nw) : FEq(M.W[i], L.W[i])) /\ \A i \in 1..M.nb : FEq(M.B[i], IF i <= L.nb THEN L.B[i] ELSE "0")
     /\ (~Bit(L, CONNECT) /\ \A i \in 1..Len(L.A) : L.A[i] = 1) => \A i \in 1..Len(M.A) : M.A[i] = 1
  /\ L.ty \in {6, 7, 9} => M.sz = L.sz /\ M.sd = L.sd /\ M.pd = L.pd
TMut ==
  /\ ev.e = "mut"
  /\ Whole(ev.N, ev.size, <<>>  \o ev.N.L[K(ev.N)].O)
  /\ Chk("the network keeps its inputs and outputs", ev.N.no = N.no /\ ev.N.L[1].ni = N.L[1].ni /\ K(ev.N) = K(N))
  /\ \A k \in 1..K(N) : Chk(<<"a layer changes only as it may", k - 1, N.L[k].ty>>, Changed(N.L[k], ev.N.L[k]))
  /\ Chk("mutation reports whether anything changed", ev.mod = ~Exact(Contents(N), Contents(ev.N)))
  /\ N' = ev.N /\ UNCHANGED <<x, tr, tally, asked>>
(* one layer is mutated, the others only adjust to it                           *)
TMut1 ==
  /\ ev.e = "mut1"
  /\ Whole(ev.N, ev.size, <<>>  \o ev.N.L[K(ev.N)].O)
  /\ Chk("the network keeps its inputs and outputs", ev.N.no = N.no /\ ev.N.L[1].ni = N.L[1].ni /\ K(ev.N) = K(N))
  /\ \A k \in 1..K(N) : Chk(<<"a layer changes only as it may", k - 1, N.L[k].ty>>,
        IF k = ev.k THEN Changed(N.L[k], ev.N.L[k]) ELSE Changed([N.L[k] EXCEPT !.opt = 0], [ev.N.L[k] EXCEPT !.opt = 0]))
  /\ Chk("mutation reports whether anything changed", ev.mod = ~Exact(Content(N.L[ev.k]), Content(ev.N.L[ev.k])) /\ (~ev.mod => Exact(Contents(N), Contents(ev.N))))
  /\ N' = ev.N /\ UNCHANGED <<x, tr, tally, asked>>
TRand ==
  /\ ev.e = "rand"
  /\ Whole(ev.N, ev.size, ev.outs)
  /\ \A k \in 1..K(N) : Chk(<<"randomising keeps the structure", k - 1>>, N.L[k].no = ev.N.L[k].no /\ N.L[k].ni = ev.N.L[k].ni /\ N.L[k].opt = ev.N.L[k].opt)
  /\ N' = ev.N /\ UNCHANGED <<x, tr, tally, asked>>

Rates(L) == IF "mu" \in DOMAIN L THEN L.mu ELSE <<>>
Zeros(q) == \A i \in 1..Len(q) : FEq(q[i], "0")
(* ---- restructuring: a hidden layer put before the output layer, and the       *)
(* decoder layers exchanged for class outputs.  A new layer learns and evolves   *)
(* as the first one was configured to; all others stay as they are.              *)
NewLayer(L, ni, no, fn) ==
  LET a == asked IN
  /\ L.ty = 0 /\ L.ni = ni /\ L.no = no /\ L.fn = fn
  /\ L.opt = Flag(a, "evolve_weights", 1) + (IF fn = 3 THEN 0 ELSE Flag(a, "evolve_functions", 4)) + Flag(a, "sgd_weights", 8) + Flag(a, "evolve_eta", 16) + Flag(a, "evolve_connect", 32)
  /\ FEq(L.mom, Given(a, "momentum", "0")) /\ FEq(L.dec, Given(a, "decay", "0"))
  /\ LET e == Given(a, "eta", "0") lo == Given(a, "eta_min", "0") IN
     IF Given(a, "evolve_eta", FALSE) THEN FLe(lo, L.eta) /\ FLe(L.eta, FMax(e, lo)) ELSE FEq(L.eta, e)
  /\ Zeros(L.B) /\ \A i \in 1..Len(L.A) : L.A[i] = 1
FirstFn == IF "activation" \in DOMAIN asked THEN CHOOSE i \in 0..10 : FnIs(i, asked.activation) ELSE 0
SameLayer(L, M) == Exact(Content(L), Content(M)) /\ Exact(Pending(L), Pending(M)) /\ Exact(Rates(L), Rates(M))
TExpand ==
  /\ ev.e = "expand"
  /\ LET k == K(N) IN
     /\ Chk("one layer is inserted", K(ev.N) = k + 1)
     /\ \A i \in 1..(k - 1) : Chk(<<"expanding keeps the hidden layers", i - 1>>, SameLayer(N.L[i], ev.N.L[i]))
     /\ Chk("the output layer only adjusts", IF k > 1 THEN SameLayer(N.L[k], ev.N.L[k + 1]) ELSE Changed([N.L[1] EXCEPT !.opt = 0], [ev.N.L[2] EXCEPT !.opt = 0]))
     /\ Chk("the new layer is of the size of the one before", IF k > 1 THEN ev.N.L[k].no = N.L[k - 1].no ELSE ev.N.L[1].no = N.L[1].no)
     \* with linear units the functions may evolve as configured
     /\ Chk("the new layer is as configured", LET M == ev.N.L[k] IN
          NewLayer([M EXCEPT !.opt = IF FirstFn = 3 THEN @ - Flag(asked, "evolve_functions", 4) ELSE @], N.L[IF k > 1 THEN k ELSE 1].ni, M.no, FirstFn))
     /\ Chk("the network keeps its inputs and outputs", ev.N.no = N.no /\ ev.N.ni = N.ni)
     /\ tally' = [i \in 1..(k + 1) |-> IF i < k THEN tally[i] ELSE IF i = k THEN <<0, 0>> ELSE tally[k]]
  /\ Whole(ev.N, ev.size, ev.outs)
  /\ N' = ev.N /\ UNCHANGED <<x, tr, asked>>
TToClass ==
  /\ ev.e = "toclass"
  /\ LET k == IF K(N) - ev.d < 1 THEN 1 ELSE K(N) - ev.d IN
     /\ Chk("the decoder layers are exchanged", K(ev.N) = k + 2)
     /\ \A i \in 1..k : Chk(<<"the encoder layers are kept", i - 1>>, SameLayer(N.L[i], ev.N.L[i]))
     /\ Chk("the class layer is as configured", NewLayer(ev.N.L[k + 1], N.L[k].no, ev.y, 3))
     /\ Chk("the classes are normalised", LET M == ev.N.L[k + 2] IN M.ty = 3 /\ M.ni = ev.y /\ FEq(M.sc, "1"))
     /\ Chk("one output per class", ev.N.no = ev.y /\ ev.N.ni = N.ni)
     /\ tally' = [i \in 1..(k + 2) |-> IF i <= k THEN tally[i] ELSE <<0, 0>>]
  /\ Whole(ev.N, ev.size, ev.outs)
  /\ N' = ev.N /\ UNCHANGED <<x, tr, asked>>
(* ---- copies and files                                                       *)
Blank(L) ==
  /\ Zeros(L.dW) /\ Zeros(L.dB) /\ \A i \in 1..Len(Pieces(L)) : Zeros(Pieces(L)[i].dW) /\ Zeros(Pieces(L)[i].dB)
  /\ L.ty = 4 => Zeros(L.ro)
  /\ L.ty = 5 => Zeros(L.hh) /\ Zeros(L.cc)
TCopy ==
  /\ ev.e = "copy"
  /\ Chk("copying leaves the original as it was", Exact(ev.M, N))
  /\ Chk("a copy has the same layers", Exact(Contents(ev.N), Contents(N)) /\ ev.N.ni = N.ni /\ ev.N.no = N.no)
  /\ \A k \in 1..K(N) : Chk(<<"a copy has the same mutation rates and nothing pending", k - 1>>, Exact(Rates(ev.N.L[k]), Rates(N.L[k])) /\ Blank(ev.N.L[k]))
  /\ N' = ev.N /\ UNCHANGED <<x, tr, tally, asked>>
TFile ==
  /\ ev.e = "file"
  /\ Chk("saving leaves the network as it was", Exact(ev.M, N))
  /\ Chk("reads what was written", ev.same)
  /\ Chk("a file restores the layers", Exact(Contents(ev.N), Contents(N)) /\ ev.N.ni = N.ni /\ ev.N.no = N.no)
  /\ \A k \in 1..K(N) : Chk(<<"a file restores rates and pending updates", k - 1>>, Exact(Rates(ev.N.L[k]), Rates(N.L[k])) /\ Exact(Pending(ev.N.L[k]), Pending(N.L[k])))
  /\ \A k \in 1..K(N) : Chk(<<"a file restores memory", k - 1>>,
        (N.L[k].ty = 4 => Exact(N.L[k].ro, ev.N.L[k].ro)) /\ (N.L[k].ty = 5 => Exact(N.L[k].hh, ev.N.L[k].hh) /\ Exact(N.L[k].cc, ev.N.L[k].cc)))
  /\ N' = ev.N /\ UNCHANGED <<x, tr, tally, asked>>
(* dropout and noise act as often as configured (within six deviations)         *)
Released == "mem" \notin Active \/ ev.leak = 0 \/ (PrintT(<<"FAIL", {"mem"}, "everything is released", "event", l, ev.e>>) /\ FALSE)
TEnd ==
  /\ ev.e = "End" /\ Released
  /\ \A k \in 1..K(N) : N.L[k].ty \in {1, 2} =>
       LET n == F(tally[k][1]) p == N.L[k].pr e == FSub(F(tally[k][2]), FMul(n, p)) IN
       Chk(<<"acts as often as configured", k - 1, N.L[k].ty>>, FLe(FMul(e, e), FAdd(FMul("40", FMul(n, FMul(p, FSub("1", p)))), "1e-9")))
  /\ UNCHANGED <<N, x, tr, tally, asked>>
Init == l = 1 /\ N = <<>> /\ x = <<>> /\ tr = FALSE /\ tally = <<>> /\ asked = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE ev.e = "Init" -> TInit [] ev.e = "fwd" -> TFwd [] ev.e = "learn" -> TLearn [] ev.e = "mut" -> TMut [] ev.e = "mut1" -> TMut1 [] ev.e = "rand" -> TRand
       [] ev.e = "expand" -> TExpand [] ev.e = "toclass" -> TToClass [] ev.e = "copy" -> TCopy [] ev.e = "file" -> TFile [] ev.e = "End" -> TEnd
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
