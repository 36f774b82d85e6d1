---------------------------- MODULE SpatialHashMC ----------------------------
(* Collision search by hashing, over several frames: objects of one frame are inserted one after the other into *)
(* every cell their box touches; what a cell returns is compared with what the frame really contains.  The     *)
(* lazily cleared table (hash h of the cell, stamp per bucket) refines the exact table: a bucket never returns   *)
(* an object of an older frame and always returns the earlier objects of the same cell, so every pair of          *)
(* overlapping boxes of a frame is found (one dimension, any hash function, any cell size).                  *)
EXTENDS SpatialHash
CONSTANTS NObj, W, NHash, Frames
VARIABLES h, size, bucket, boxes, k, frame, cand, bad
vars == << h, size, bucket, boxes, k, frame, cand, bad >>
C == (-W)..W
Iv == { << lo, lo + w >> : lo \in (-W)..(W - 1), w \in 0..1 }
CellsOf(b) == Trunc(b[1], size)..Trunc(b[2], size)
NewBucket == [x \in 1..NHash |-> [t |-> 0, objs |-> {}]]
Init == h \in [C -> 1..NHash] /\ size \in 1..2 /\ bucket = NewBucket /\ boxes = << >> /\ k = 0 /\ frame = 1 /\ cand = {} /\ bad = FALSE
InsertOne(b) ==
  LET o == << frame, k >>
      seen == UNION { IF bucket[h[c]].t = frame THEN bucket[h[c]].objs ELSE {} : c \in CellsOf(b) }
  IN /\ bucket' = [x \in 1..NHash |-> IF \E c \in CellsOf(b) : h[c] = x THEN [t |-> frame, objs |-> (IF bucket[x].t = frame THEN bucket[x].objs ELSE {}) \cup {o}] ELSE bucket[x]]
     /\ cand' = cand \cup { << k, p[2] >> : p \in { s \in seen : s[1] = frame } }
     /\ bad' = (bad \/ \E s \in seen : s[1] # frame)
Next == \/ k < NObj /\ \E b \in Iv : InsertOne(b) /\ boxes' = Append(boxes, b) /\ k' = k + 1 /\ UNCHANGED << h, size, frame >>
        \/ k = NObj /\ frame < Frames /\ frame' = frame + 1 /\ k' = 0 /\ boxes' = << >> /\ cand' = {} /\ UNCHANGED << h, size, bucket, bad >>
Spec == Init /\ [][Next]_vars
Found == \A i, j \in 1..Len(boxes) : j < i /\ boxes[i][1] <= boxes[j][2] /\ boxes[j][1] <= boxes[i][2] => << i - 1, j - 1 >> \in cand
Fresh == ~bad
=============================================================================
