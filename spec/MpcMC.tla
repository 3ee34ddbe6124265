-------------------------------- MODULE MpcMC ---------------------------------
(* Programs and value sets for checking Mpc.tla. *)
EXTENDS Mpc
O(op, args) == [op |-> op, args |-> args]
ProgMul  == <<O("mul", <<1, 2>>)>>
ProgMul2 == <<O("mul", <<1, 2, 2, 2>>)>>
ProgMulMul == <<O("mul", <<1, 2>>), O("mul", <<3, 3>>)>>
ProgInv  == <<O("inv", <<1>>)>>
ProgInv2 == <<O("inv", <<1, 2>>)>>
ProgOr1  == <<O("or", <<1>>)>>
ProgOr2  == <<O("or", <<1, 2>>)>>
ProgOr3  == <<O("or", <<1, 2, 3>>)>>
ProgSel  == <<O("sel", <<1, 2, 3>>)>>
ProgRand == <<O("rand", <<>>), O("rand", <<>>), O("add", <<1, 2>>)>>
ProgMixed == <<O("mul", <<1, 2>>), O("inv", <<3>>), O("rand", <<>>), O("mul", <<4, 5, 1, 1>>)>>
Take(i) == [op |-> "finish", args |-> <<>>, of |-> i]
ProgOverlap == <<O("start", <<>>), O("mul", <<1, 1>>), Take(1), O("mul", <<2, 3>>)>>
ProgOverlap2 == <<O("start", <<>>), O("start", <<>>), O("mul", <<1, 1>>), O("rand", <<>>), Take(2), Take(1), O("add", <<4, 5>>)>>
ProgAll == <<O("or", <<1, 2>>), O("start", <<>>), O("sel", <<3, 1, 2>>), O("inv", <<3>>), Take(2), O("mul", <<5, 6>>)>>
ProgLost == <<O("lost", <<1>>), O("mul", <<1, 1>>), O("lost", <<1, 2>>), O("rand", <<>>), O("add", <<2, 3>>)>>
Bits == {0, 1}
NonZero == F \ {0}
One == {1}
OneTwo == {1, 2}
All == F
JustTwo == {2}
JustThree == {3}
OneThree == {1, 3}
Lines == {<<c>> : c \in F}           \* coefficients of degree one
SomeLines == {<<0>>, <<2>>}
OneLine == {<<2>>}
Curves == {<<1, 2>>, <<0, 3>>}
OneCurve == {<<3, 1>>}
==============================================================================
