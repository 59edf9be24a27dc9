-------------------------------- MODULE Cost --------------------------------
(* What answering a query over HTTP may transfer.  Requests are pairs        *)
(* <<first byte, last byte>> in the order they were made.                     *)
(*                                                                            *)
(* 1. The search of the spatial index: which runs of nodes have to be looked  *)
(*    at, and what may be fetched besides.                                    *)
(* 2. The features: a client that keeps the last piece it fetched, and        *)
(*    selected features that lie close to each other read as one batch.       *)
(* 3. A whole session: header, indexes, features.                             *)
EXTENDS RTree, SequencesExt, Functions

FoldS(f(_, _), z, s) == FoldSeq(f, z, s)
Bytes(reqs) == FoldS(LAMBDA r, a : a + r[2] - r[1] + 1, 0, reqs)
Touches(r, lo, hi) == lo <= hi /\ r[1] <= hi /\ lo <= r[2]

----------------------------------------------------------------------------
(* Runs of nodes, <<first, behind the last, level>>, in storage order: the root, and the children of *)
(* every node that q calls.  Of the items one more is fetched: an item ends where the next one  *)
(* begins.                                                                                    *)
(* q: [k: "bbox", b] or [k: "near", b: a point, m: the distance of the nearest item] *)
Calls(q, b) == IF q.k = "near" THEN Near(b, q.b) <= q.m ELSE Hits(b, q.b)
RECURSIVE Below(_, _, _, _, _, _)
Below(T, bnd, B, lev, at, q) ==
  IF lev = 0 THEN <<>>
  ELSE LET h == SelectSeq(at, LAMBDA i : Calls(q, T[i + 1].b))
           run(i) == LET s == bnd[lev][1] + (i - bnd[lev + 1][1]) * B
                     IN <<s, Min2(s + B, bnd[lev][2])>>
           kids == FlattenSeq([k \in 1..Len(h) |-> LET r == run(h[k]) IN [j \in 1..(r[2] - r[1]) |-> r[1] + j - 1]])
       IN [k \in 1..Len(h) |-> LET r == run(h[k]) IN <<r[1], IF lev = 1 THEN Min2(r[2] + 1, bnd[lev][2]) ELSE r[2], lev - 1>>]
          \o Below(T, bnd, B, lev - 1, kids, q)
Called(T, n, B, q) ==
  LET bnd == Bounds(n, B) IN <<<<0, 1, Len(bnd) - 1>>>> \o Below(T, bnd, B, Len(bnd) - 1, <<0>>, q)

(* what lies between the runs, as far as it is more than thr bytes, and what lies behind the last one *)
Between(runs, total, thr) ==
  LET k == Len(runs)
      one(i) == IF i = k THEN <<runs[i][2] * NodeBytes, total * NodeBytes - 1>>
                ELSE <<runs[i][2] * NodeBytes, runs[i + 1][1] * NodeBytes - 1>>
  IN SelectSeq([i \in 1..k |-> one(i)], LAMBDA g : g[1] <= g[2] /\ (g[2] - g[1] + 1 > thr \/ g[2] = total * NodeBytes - 1))
(* Bytes relative to the beginning of the index.                                                             *)
Undisturbed(runs, total, thr, reqs) ==
  LET gaps == Between(runs, total, thr) IN
  \A i \in 1..Len(reqs) : \A j \in 1..Len(gaps) : ~Touches(reqs[i], gaps[j][1], gaps[j][2])
(* what lies no farther apart is one request; a nearest search asks for the children of one node at a time. *)
SearchFrugal(runs, total, thr, q, reqs) ==
  /\ Len(reqs) <= (IF q.k = "near" THEN Len(runs) ELSE 1 + Len(SelectSeq(
                     [i \in 1..(Len(runs) - 1) |-> i],
                     LAMBDA i : runs[i][3] # runs[i + 1][3] \/ (runs[i + 1][1] - runs[i][2]) * NodeBytes > thr)))
  /\ Undisturbed(runs, total, thr, reqs)

(* the requests of RTree!HttpSearch and of RTree!Nearest *)
RECURSIVE WalkReqs(_, _, _, _, _, _, _)
WalkReqs(T, B, bnd, q, thr, queue, acc) ==
  IF queue = <<>> THEN acc
  ELSE LET r == Head(queue)
           a == Append(acc, <<r[1] * NodeBytes, r[2] * NodeBytes - 1>>)
           h == SelectSeq([i \in 1..(r[2] - r[1]) |-> r[1] + i - 1], LAMBDA i : Hits(T[i + 1].b, q))
       IN IF r[3] = 0 THEN WalkReqs(T, B, bnd, q, thr, Tail(queue), a)
          ELSE WalkReqs(T, B, bnd, q, thr, Merge(T, B, bnd, thr, r[3] - 1, h, Tail(queue)), a)
SearchReqs(T, n, B, q, thr) ==
  LET bnd == Bounds(n, B) IN WalkReqs(T, B, bnd, q, thr, <<<<0, 1, Len(bnd) - 1>>>>, <<>>)
RECURSIVE BestReqs(_, _, _, _, _, _, _)
BestReqs(T, B, bnd, p, queue, best, acc) ==
  IF queue = {} THEN acc
  ELSE LET x == CHOOSE y \in queue : \A z \in queue : y[1] <= z[1] IN
       IF best # <<>> /\ x[1] > best[1] THEN acc
       ELSE LET e == Min2(x[2] + B, bnd[x[3] + 1][2])
                f == Min2(e + (IF x[3] = 0 THEN 1 ELSE 0), bnd[x[3] + 1][2])
                r == Consider(T, p, x[3], [i \in 1..(e - x[2]) |-> x[2] + i - 1], best, queue \ {x})
            IN BestReqs(T, B, bnd, p, r[2], r[1], Append(acc, <<x[2] * NodeBytes, f * NodeBytes - 1>>))
NearestReqs(T, n, B, p) ==
  LET bnd == Bounds(n, B) IN BestReqs(T, B, bnd, p, {<<0, 0, Len(bnd) - 1>>}, <<>>, <<>>)

----------------------------------------------------------------------------
(* The client keeps the bytes from h up to t; a request is never smaller than min.            *)
(* Result: what it keeps afterwards, and the request made, if any                             *)
Get(buf, begin, len, min, end) ==
  IF buf.h <= begin /\ begin + len <= buf.t THEN <<buf, <<>>>>
  ELSE LET t == IF buf.h <= begin /\ begin < buf.t THEN buf.t ELSE begin
           size == Max2(begin + len - t, min)
       IN <<[h |-> begin, t |-> Min2(t + size, end)], <<<<t, t + size - 1>>>>>>
(* feats: <<first byte, behind the last>> in file order; sel: the selected ones, ascending     *)
RECURSIVE Batches(_, _, _, _)
Batches(feats, sel, thr, acc) ==
  IF sel = <<>> THEN acc
  ELSE LET k == Len(acc)
           near == k > 0 /\ feats[Head(sel)][1] - feats[acc[k][Len(acc[k])]][2] < thr
       IN Batches(feats, Tail(sel), thr, IF near THEN [acc EXCEPT ![k] = Append(@, Head(sel))] ELSE Append(acc, <<Head(sel)>>))
(* pre: the bytes of a feature that tell its size; the end of the very last feature is not known *)
Span(feats, batch, pre) ==
  LET z == batch[Len(batch)]
  IN (IF z = Len(feats) THEN feats[z][1] + pre ELSE feats[z][2]) - feats[batch[1]][1]
RECURSIVE ReadBatch(_, _, _, _, _, _)
ReadBatch(feats, batch, pre, chunk, buf, acc) ==
  IF batch = <<>> THEN <<buf, acc>>
  ELSE LET f == feats[batch[1]]
           end == feats[Len(feats)][2]
           min == Min2(Span(feats, batch, pre), chunk)
           a == Get(buf, f[1], pre, min, end)
           b == Get(a[1], f[1] + pre, f[2] - f[1] - pre, min, end)
       IN ReadBatch(feats, Tail(batch), pre, chunk, b[1], acc \o a[2] \o b[2])
RECURSIVE ReadBatches(_, _, _, _, _, _)
ReadBatches(feats, bs, pre, chunk, buf, acc) ==
  IF bs = <<>> THEN acc
  ELSE LET r == ReadBatch(feats, Head(bs), pre, chunk, buf, acc)
       IN ReadBatches(feats, Tail(bs), pre, chunk, r[1], r[2])
FeatureReqs(feats, sel, thr, pre, chunk, buf) ==
  ReadBatches(feats, Batches(feats, sel, thr, <<>>), pre, chunk, buf, <<>>)
(* one by one, without batches *)
RECURSIVE Singly(_, _, _, _, _, _)
Singly(feats, sel, pre, min, buf, acc) ==
  IF sel = <<>> THEN acc
  ELSE LET f == feats[Head(sel)]
           end == feats[Len(feats)][2]
           a == Get(buf, f[1], pre, min, end)
           b == Get(a[1], f[1] + pre, f[2] - f[1] - pre, min, end)
       IN Singly(feats, Tail(sel), pre, min, b[1], acc \o a[2] \o b[2])

(* The parts of the file that are called for, <<first, last byte, how much more may follow>>, in *)
(* file order: what lies between them, and behind, is not fetched                                 *)
Foreign(parts, end) ==
  LET k == Len(parts)
  IN SelectSeq([i \in 1..k |-> <<parts[i][2] + parts[i][3] + 1, IF i = k THEN end - 1 ELSE parts[i + 1][1] - 1>>],
               LAMBDA g : g[1] <= g[2])
OnlyCalledFor(parts, end, reqs) ==
  LET gaps == Foreign(parts, end) IN
  \A i \in 1..Len(reqs) : \A j \in 1..Len(gaps) : ~Touches(reqs[i], gaps[j][1], gaps[j][2])
(* Reading from a source that is no server, starting behind the indexes: a seekable one jumps over   *)
(* what is not selected, a sequential one reads it and throws it away.                                *)
RECURSIVE Passing(_, _, _, _, _)
Passing(feats, sel, seek, pos, acc) ==
  IF sel = <<>> THEN acc
  ELSE LET f == feats[Head(sel)]
           skip == IF seek \/ f[1] = pos THEN <<>> ELSE <<<<pos, f[1] - 1>>>>
       IN Passing(feats, Tail(sel), seek, f[2], acc \o skip \o <<<<f[1], f[2] - 1>>>>)
(* what a sequential reader may have read when these features have been delivered                     *)
Passed(feats, sel, ahead) == <<<<0, IF sel = <<>> THEN feats[1][1] - 1 ELSE feats[sel[Len(sel)]][2] - 1, ahead>>>>
(* groups of selected features with less than thr bytes between neighbours *)
Groups(feats, sel, thr) ==
  1 + Len(SelectSeq([i \in 1..Max2(Len(sel) - 1, 0) |-> feats[sel[i + 1]][1] - feats[sel[i]][2]], LAMBDA g : g >= thr))
(* two requests per group, two more for every feature larger than a chunk, and otherwise whole chunks *)
FewBatched(feats, sel, thr, chunk, reqs) ==
  \/ sel = <<>> /\ reqs = <<>>
  \/ Len(reqs) <= 2 * Groups(feats, sel, thr)
                  + 2 * Len(SelectSeq(sel, LAMBDA i : feats[i][2] - feats[i][1] > chunk))
                  + Bytes(reqs) \div chunk
FewSingly(sel, reqs) == Len(reqs) <= 2 * Len(sel)
=============================================================================
