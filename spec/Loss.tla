-------------------------------- MODULE Loss --------------------------------
(* Loss functions: definitions (par.loss numbers them as the system does). *)
EXTENDS Integers, Sequences, Dbl

Eps == "2.220446049250313e-16"
N(s) == F(Len(s))
Map2(p, y, op(_, _)) == [i \in 1..Len(y) |-> op(p[i], y[i])]
MAE(p, y) == FDiv(FSum(Map2(p, y, LAMBDA a, b : FAbs(FSub(b, a)))), N(y))
MSE(p, y) == FDiv(FSum(Map2(p, y, LAMBDA a, b : FMul(FSub(b, a), FSub(b, a)))), N(y))
RMSE(p, y) == FSqrt(MSE(p, y))
LogLoss(p, y) == FNeg(FSum(Map2(p, y, LAMBDA a, b : FMul(b, FLog(FMax(a, Eps))))))
BinaryLog(p, y) ==
  FNeg(FSum(Map2(p, y, LAMBDA a, b :
     FAdd(FMul(b, FLog(FMax(a, Eps))), FMul(FSub("1", b), FLog(FMax(FSub("1", a), Eps)))))))
ArgMax(p) == CHOOSE i \in 1..Len(p) :
               /\ \A j \in 1..Len(p) : FLe(p[j], p[i])
               /\ \A j \in 1..(i - 1) : FLt(p[j], p[i])
OneHot(p, y) == IF FEq(y[ArgMax(p)], "1") THEN "0" ELSE "1"
Huber1(d, a) == IF FLt(d, FAbs(a))
                THEN FAdd(FMul(FMul("0.5", d), d), FMul(d, FSub(FAbs(a), d)))
                ELSE FMul(FMul("0.5", a), a)
Huber(d, p, y) == FDiv(FSum(Map2(p, y, LAMBDA a, b : Huber1(d, FSub(b, a)))), N(y))

LossOf(par, p, y) ==
  CASE par.loss = 0 -> MAE(p, y)
    [] par.loss = 1 -> MSE(p, y)
    [] par.loss = 2 -> RMSE(p, y)
    [] par.loss = 3 -> LogLoss(p, y)
    [] par.loss = 4 -> BinaryLog(p, y)
    [] par.loss = 5 -> OneHot(p, y)
    [] par.loss = 6 -> Huber(par.huber, p, y)
=============================================================================
