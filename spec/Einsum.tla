------------------------------- MODULE Einsum -------------------------------
(***************************************************************************)
(* The Einstein-summation convention, in the form the library documents.   *)
(*                                                                         *)
(* A tensor is [labels |-> sequence of labels, shape |-> sequence of       *)
(* dimensions, data |-> elements in row-major order].  Labels are positive *)
(* integers.  A dimension of size 1 broadcasts.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Semiring

Range1(s) == { s[i] : i \in 1..Len(s) }

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

LabelsOf(ts) == UNION { Range1(ts[i].labels) : i \in 1..Len(ts) }

(* the size of a label: the dimension different from 1, if there is one *)
DimsOf(ts, x) == UNION { { ts[i].shape[j] : j \in { k \in 1..Len(ts[i].labels) : ts[i].labels[k] = x } } : i \in 1..Len(ts) }
Size(ts, x) == LET D == DimsOf(ts, x) \ {1} IN IF D = {} THEN 1 ELSE CHOOSE d \in D : TRUE

(* are the operands consistent? *)
Consistent(ts) ==
  /\ \A i \in 1..Len(ts) : Len(ts[i].labels) = Len(ts[i].shape)
  /\ \A x \in LabelsOf(ts) : Cardinality(DimsOf(ts, x) \ {1}) <= 1

RowStride(shape, j) == ProdSeq(SubSeq(shape, j + 1, Len(shape)))

(* contribution of label x to the flat position in tensor t *)
Stride(t, x) ==
  FoldLeft(LAMBDA a, b : a + b, 0,
           [j \in 1..Len(t.labels) |->
              IF t.labels[j] = x /\ t.shape[j] # 1 THEN RowStride(t.shape, j) ELSE 0])

(* offsets of all assignments to the labels xs (last label fastest) given  *)
(* the strides of those labels: the sequence of Sum(stride * value)        *)
RECURSIVE Offsets(_, _)
Offsets(dims, strides) ==
  IF dims = <<>> THEN <<0>>
  ELSE LET rest == Offsets(Tail(dims), Tail(strides))
           m == Len(rest) IN
       [k \in 1..(Head(dims) * m) |->
          Head(strides) * ((k - 1) \div m) + rest[((k - 1) % m) + 1]]

(***************************************************************************)
(* The definition: the tensor with labels `out' whose elements are the     *)
(* sums over all labels not in `out' of the products of the operands.      *)
(***************************************************************************)
Contract(r, ts, out) ==
  LET n     == Len(ts)
      inner == SetToSeq(LabelsOf(ts) \ Range1(out))
      od    == [k \in 1..Len(out) |-> Size(ts, out[k])]
      id    == [k \in 1..Len(inner) |-> Size(ts, inner[k])]
      oo    == [i \in 1..n |-> Offsets(od, [k \in 1..Len(out) |-> Stride(ts[i], out[k])])]
      io    == [i \in 1..n |-> Offsets(id, [k \in 1..Len(inner) |-> Stride(ts[i], inner[k])])]
      no    == ProdSeq(od)
      ni    == ProdSeq(id)
      Term(a, b) == FoldLeft(LAMBDA acc, i : SMul(r, acc, ts[i].data[oo[i][a] + io[i][b] + 1]),
                             ts[1].data[oo[1][a] + io[1][b] + 1],
                             [i \in 1..(n - 1) |-> i + 1])
      Elem(a) == IF ni = 0 THEN SZero(r)
                 ELSE FoldLeft(LAMBDA acc, b : SAdd(r, acc, Term(a, b)), Term(a, 1),
                               [b \in 1..(ni - 1) |-> b + 1])
  IN [labels |-> out, shape |-> od, data |-> [a \in 1..no |-> Elem(a)]]

(***************************************************************************)
(* The same tensor computed by summing out one label at a time, for        *)
(* networks too large for the definition.  MC_Einsum checks that the two   *)
(* agree (distributivity).                                                 *)
(***************************************************************************)
RECURSIVE Eliminate(_, _, _)
Eliminate(r, ts, out) ==
  LET S == LabelsOf(ts) \ Range1(out) IN
  IF S = {} \/ Len(ts) = 1 THEN Contract(r, ts, out)
  ELSE LET Bucket(x) == { i \in 1..Len(ts) : x \in Range1(ts[i].labels) }
           Width(x)  == Cardinality(UNION { Range1(ts[i].labels) : i \in Bucket(x) })
           x  == CHOOSE x \in S : \A y \in S : Width(x) <= Width(y)
           B  == Bucket(x)
           in == SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : i \in B)
           no == SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : i \notin B)
           bt == [k \in 1..Len(in) |-> ts[in[k]]]
           rest == [k \in 1..Len(no) |-> ts[no[k]]]
           (* sum only labels that occur in the bucket and nowhere else *)
           keep == (LabelsOf(rest) \cup Range1(out)) \cap LabelsOf(bt)
           t  == Contract(r, bt, SetToSeq(keep))
       IN Eliminate(r, Append(rest, t), out)
=============================================================================
