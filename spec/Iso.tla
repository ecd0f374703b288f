-------------------------------- MODULE Iso --------------------------------
(* Who owns which memory.  The caller owns input arrays and may overwrite     *)
(* them between calls; an object copies what it keeps when it is made, every  *)
(* call publishes its result in memory that nobody writes afterwards.         *)
(* A result is a function of the object's configuration, of the content of    *)
(* the inputs when the object was made and of the object's own calls:         *)
(* that triple is the result's token.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Objs, Configs, Amounts, Depth,
          CopyInputs,     \* design choice: constructors copy the caller's arrays
          FreshResults    \* design choice: results are published in new memory
VARIABLES heap,      \* cell -> content (a token)
          caller,    \* cell of the caller's shared input array
          objs,      \* object -> [cfg, base (input content when made), hist, cell] or "none"
          pubs,      \* published results: [cell, tok]
          hist
vars == <<heap, caller, objs, pubs, hist>>
None == [cfg |-> 0, base |-> 0, calls |-> <<>>, cell |-> 0]
Tok(o) == [cfg |-> o.cfg, base |-> o.base, calls |-> o.calls]
NewCell == Cardinality(DOMAIN heap) + 1
Init == /\ heap = (1 :> [content |-> 0])
        /\ caller = 1 /\ objs = [i \in Objs |-> None] /\ pubs = <<>> /\ hist = <<>>
Make(i, g) ==
    /\ objs[i].cfg = 0 /\ \A j \in Objs : j < i => objs[j].cfg # 0
    /\ LET c == IF CopyInputs THEN NewCell ELSE caller
       IN /\ heap' = (c :> heap[caller]) @@ heap
          /\ objs' = [objs EXCEPT ![i] = [cfg |-> g, base |-> heap[caller].content, calls |-> <<>>, cell |-> c]]
    /\ hist' = Append(hist, <<"make", i, g>>)
    /\ UNCHANGED <<caller, pubs>>
\* the new content records everything the computation really depended on
Run(i, k) ==
    /\ objs[i].cfg # 0
    /\ LET o == [objs[i] EXCEPT !.calls = Append(@, k)]
           val == [from |-> heap[objs[i].cell], cfg |-> o.cfg, k |-> k]
           c == IF FreshResults THEN NewCell ELSE objs[i].cell
       IN /\ heap' = (c :> val) @@ heap
          /\ objs' = [objs EXCEPT ![i] = [o EXCEPT !.cell = c]]
          /\ pubs' = Append(pubs, [cell |-> c, tok |-> Tok(o), val |-> val])
    /\ hist' = Append(hist, <<"run", i, k>>)
    /\ UNCHANGED caller
Scribble ==
    /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)][1] # "scribble"
    /\ heap' = [heap EXCEPT ![caller] = [content |-> Len(hist) + 1]]
    /\ hist' = Append(hist, <<"scribble", 0, Len(hist) + 1>>)
    /\ UNCHANGED <<caller, objs, pubs>>
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in Objs, g \in Configs : Make(i, g)
           \/ \E i \in Objs, k \in Amounts : Run(i, k)
           \/ Scribble
Spec == Init /\ [][Next]_vars
\* what the user relies on
ResultsStable == \A k \in DOMAIN pubs : heap[pubs[k].cell] = pubs[k].val
Functional == \A j, k \in DOMAIN pubs : pubs[j].tok = pubs[k].tok => pubs[j].val = pubs[k].val
InputsKept == heap[caller].content = LET S == {n \in DOMAIN hist : hist[n][1] = "scribble"} IN
                                     IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
=============================================================================
