----------------------------- MODULE SpatialHash -----------------------------
(* A hash table of cells that is emptied lazily: a cell remembers the time stamp it was last written at, and    *)
(* objects written at an older stamp no longer exist.                                                       *)
EXTENDS Lib
EmptyTab == << >>                                   \* sequence of [c |-> cell, o |-> object, t |-> stamp]
Insert(tab, c, o, t) == Append(tab, [c |-> c, o |-> o, t |-> t])
(* what lies in cell c at stamp t *)
At(tab, c, t) == { tab[i].o : i \in { j \in 1..Len(tab) : tab[j].c = c /\ tab[j].t = t } }
(* the cells a box << lo, hi >> touches for cell size s (coordinates are truncated towards zero) *)
Trunc(a, s) == IF a >= 0 THEN a \div s ELSE -((-a) \div s)
Cells(box, s) == { c \in (Trunc(box[1][1], s)..Trunc(box[2][1], s)) \X (Trunc(box[1][2], s)..Trunc(box[2][2], s)) \X (Trunc(box[1][3], s)..Trunc(box[2][3], s)) : TRUE }
=============================================================================
