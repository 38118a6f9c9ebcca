-------------------------------- MODULE Menu --------------------------------
(* Finite menus from which the model configurations choose. *)
EXTENDS Blocks
V(x,y,a,b,z,w) == [x |-> x, y |-> y, a |-> a, b |-> b, z |-> z, w |-> w]

FixedGates == {"I","X","Y","Z","H","S","SDagger","T","N","CNOT","CZ","SWAP","MCZ","Toffoli","CSWAP"}
ParGates   == {"RX","RY","RZ","PHASE","U","CRX","CRY","CRZ","CPHASE","MCRX","MCRY","MCRZ","MCPHASE"}
UnitaryGates == (FixedGates \ {"N"}) \union ParGates
AllGates   == FixedGates \union ParGates \union {"Matrix","DProjector"}
EveryGate  == FixedGates \union ParGates \union {"Matrix","Projector"}
HorqGates  == {"I","X","Y","Z","H","CNOT","CZ","SWAP","RX","RY","RZ","CRX","CRY","CRZ","MCRX","MCRY","MCRZ","MCZ"}
SingleGates == {"I","X","Y","Z","H","S","SDagger","T","RX","RY","RZ","PHASE","U"}
NoiseGates == UnitaryGates \ {"CSWAP"}
CliffGates == {"I","X","Y","Z","H","S","SDagger","CNOT","CZ","SWAP","RX","RY","RZ","PHASE","U"}
DiagGates  == {"Z","I"}
BellGates  == {"H","RX","CNOT"}
FewGates   == {"Y","H","S","RX","CNOT"}
PauliGates == {"X","Y","Z","N","I"}

GradGates  == {"H","S","CNOT"} \union ParGates
\* gates whose qubits appear in ascending order only ("asc" restricts the placements)
AscGates   == {"asc","H","T","CNOT"} \union (ParGates \ {"U"})
ModelGates == {"H","CNOT","SWAP"} \union ParGates
PauliXZ    == {"X","Z"}

AllComps == {"chain","kron","add","scale","hampar"}
UniComps == {"chain","kron"}
DagComps == {"chain","kron","add","scale","dagger","hampar"}
BasicComps == {"chain","kron","add"}
ObsComps == {"kron","add","rscale"}
NumObsComps == {"kron","add","nscale"}
DiagComps == {"chain","kron","add","nscale"}
NoComps  == {}
ModelComps == {"chain","kron","hampar"}
SmallDag == {"chain","add","dagger"}
LayerComps == {"chain","kron","scale"}
HorqObs == {"X","Y","Z","I"}
ObsGates == {"X","Y","Z","N","I"}

AllExprs == {EConst(2),EConst(-2),EConst(4),EConst(6),<<0,1,0,0,0>>,<<0,0,0,1,0>>,<<2,-1,0,2,0>>,<<0,0,1,0,-1>>,<<4,0,0,0,3>>}
FewExprs == {EConst(2),<<0,1,0,0,0>>,<<2,-1,0,2,0>>}
TwoExprs == {EConst(2),<<2,-1,0,2,0>>}
\* one feature and one variational parameter
XAExprs == {EConst(2), <<0,1,0,0,0>>, <<0,0,0,1,0>>, <<2,-1,0,2,0>>, <<4,0,0,3,0>>}
OneExpr  == {<<0,1,0,0,0>>}

\* expressions with a parameter, for derivatives
ParExprs == {<<0,1,0,0,0>>,<<0,0,0,1,0>>,<<2,-1,0,2,0>>,<<0,0,1,0,-1>>,<<4,0,0,0,3>>,<<0,2,1,0,0>>,<<2,0,0,0,1>>,<<0,0,-2,0,0>>}

OneBatch == {<<V(2,4,-2,6,2,3)>>, <<V(-2,0,4,2,1,-1)>>, <<V(4,2,6,-2,2,1)>>, <<V(6,4,2,0,3,2)>>}
MoreBatches == OneBatch \union {<<V(-2,4,0,2,1,2), V(2,-2,0,2,2,2)>>, <<V(4,-2,2,4,2,-1), V(0,6,2,4,3,-1)>>, <<V(2,4,-2,6,2,3), V(6,-2,-2,6,-1,3)>>, <<V(0,2,4,2,1,2), V(4,4,4,2,-1,2), V(-6,2,4,2,3,2)>>}
SingleBatch == {<<V(2,4,-2,6,2,3)>>}
FewBatches == {<<V(2,4,-2,6,2,3), V(6,-2,-2,6,-1,3)>>}
ColsOf(b, val) == LET c == Columns(NQ,b,val) IN [j \in 1..Len(c) |-> VOut(c[j])]
Cols(b, bt) == [i \in 1..Len(bt) |-> ColsOf(b, bt[i])]
=============================================================================
