------------------------------- MODULE BoxSim -------------------------------
EXTENDS Box, VBind
LOCAL INSTANCE SequencesExt
VARIABLES hist, kind
R(S) == RandomElement(S)
SInit == BoxInit /\ op = [name |-> "init"] /\ hist = <<>> /\ kind \in {"table", "tree", "tree", "ids", "buf", "buf2", "arena"}
Size(x) == R({0, 1, R(2 .. 40), R(100 .. 300), R(1000 .. 9000), R(30000 .. 70000)})
Hash(x) == R({R(0 .. 3), R(0 .. 200), 254, 255, 256, 511})
Do == \E k \in {R(1 .. 12)} :
  CASE kind = "table" -> IF k <= 6 \/ table = {} THEN (\E i \in {R((0 .. 299) \ {n[1] : n \in table})}, h \in {Hash(k)} : TableSet(i, h))
                         ELSE IF k <= 10 THEN (\E n \in {R(table)} : TableDelete(n[1])) ELSE IF k = 11 THEN (\E n \in {R(table)} : TableGet(n[1], n[2]))
                         ELSE (\E i \in {R(0 .. 299)}, h \in {Hash(k)} : TableGet(i, h))
    [] kind = "tree" -> (\E i \in {R(0 .. 200)} : IF k <= 8 THEN (IF i \in tree THEN (IF k = 1 THEN TreeReplace(i) ELSE TreeDelete(i)) ELSE TreeSet(i))
                         ELSE IF k <= 10 /\ tree # {} THEN (\E j \in {R({R(tree), CHOOSE j \in tree : \A n \in tree : j <= n})} : TreeDelete(j)) ELSE TreeGet(i))
    [] kind = "ids" -> (\E v \in {R({R(0 .. 20), R(0 .. 1000)})} : CASE k <= 4 -> IdAdd(v) [] k = 5 /\ ids # <<>> -> (\E i \in {R(DOMAIN ids)} : IdDelete(ids[i])) [] k = 6 -> IdDelete(v)
                          [] k = 7 -> IdFind(v) [] k = 8 -> IdNext(v) [] k = 9 -> IdCopy(v) [] k = 10 -> R({TRUE}) /\ IdMin [] k = 11 -> IdMax
                          [] OTHER -> IF \A i \in 1 .. Len(ids) - 1 : ids[i] # ids[i + 1] THEN IdGc(v) ELSE IdNext(v))
    [] kind = "arena" -> IF k = 1 THEN ArenaReset ELSE (\E n \in {R({R(1 .. 64), R(1 .. 2048), 2048})}, s \in {R(0 .. 255)} : Allocate(s, n))
    [] OTHER -> IF Live = {} \/ (k = 1 /\ Len(bufs) < 20) THEN BufCreate
                ELSE (\E i \in {R(Live)}, j \in {R(Live)}, s \in {R(0 .. 255)}, n \in {Size(k)} :
                      CASE k \in {2, 3, 4, 5} -> BufWrite(i, s, n)
                        [] k = 6 -> (\E c \in {R(97 .. 122)} : BufPrint(i, c, n % 50))
                        [] k = 7 /\ i # j /\ Total(bufs[i].data) < 300000 -> BufCopy(i, j)
                        [] k = 8 -> BufTruncate(i, IF n <= Total(bufs[i].data) THEN n ELSE Total(bufs[i].data))
                        [] k = 9 /\ kind = "buf" -> BufReset(i)
                        [] k = 10 /\ bufs[i].refs < 3 -> BufRef(i)
                        [] k \in {11, 12} /\ Len(bufs) < 20 -> BufFree(i)
                        [] OTHER -> BufWrite(i, s, n % 100))
SNext == Do /\ hist' = Append(hist, op') /\ UNCHANGED kind
SSpec == SInit /\ [][SNext]_<<vars, hist, kind>>
SimEmit == IF Len(hist) = VDepth THEN Emit(hist) ELSE TRUE
=============================================================================
