# Contracts of the in-memory replicator: what it delivers, what it answers, the ids it issues.
load "./core/internal/statestore/memory"
import memory "open-match.dev/core/internal/statestore/memory"
import store "open-match.dev/core/internal/statestore/datatypes"

assumption "the wall clock does not run backwards; the replicator's channel is never closed (no function of the package closes it); a batch holds no update twice and no nil update (the outgoing queue takes the address of one request field per update)"
assumption "two ids <seconds>-<count> are equal only when seconds and count are equal (decimal notation of non-negative counts holds no dash)"

# every update delivered, with the second and the count of the id issued last before it
ghost log D { U *store.StateUpdate, Cmd int, Key string, Value string, Sec int, Cnt int }
ghost log G { U *store.StateUpdate }

ghost var me *memory.memoryReplicator
on send *store.StateUpdate (c, x) when c == me.replChan {
  append D { U: x, Cmd: x.Cmd, Key: x.Key, Value: x.Value, Sec: unixsec(me.replTS), Cnt: me.replCount }
}
on recv *store.StateUpdate (c, x, ok) when c == me.replChan {
  assume open: ok
  append G { U: x }
}
fun after(s int, c int, s0 int, c0 int) bool = s > s0 || s == s0 && c > c0
fun wellformed(rc *memory.memoryReplicator) bool = rc != nil && unixsec(rc.replTS) <= unixsec(now) && rc.replCount >= 0

func "(*open-match.dev/core/internal/statestore/memory.memoryReplicator).getReplId" (rc)(id) {
  requires inv: wellformed(rc)
  ensures C12.wellformed: wellformed(rc)
  ensures C12.id: id == itoa(unixsec(rc.replTS)) ++ "-" ++ itoa(rc.replCount)
  ensures C12.advances: after(unixsec(rc.replTS), rc.replCount, old(unixsec(rc.replTS)), old(rc.replCount))
}
func "open-match.dev/core/internal/statestore/memory.New" (cfg)(rc) {
  ensures C12.wellformed: wellformed(rc)
  ensures C12.queue: rc.replChan != nil
}
func "(*open-match.dev/core/internal/statestore/memory.memoryReplicator).GetUpdates" (rc)(out) {
  requires me: rc != nil && me == rc
  ensures C12.read: len(out) == G.n && (forall k int :: 0 <= k && k < G.n ==> out[k] == G.U[k])
  inv $o []*store.StateUpdate C12.read: len($o) == G.n && (forall k int :: 0 <= k && k < G.n ==> $o[k] == G.U[k])
}
func "(*open-match.dev/core/internal/statestore/memory.memoryReplicator).SendUpdates" (rc, updates)(out) {
  requires me: me == rc
  requires inv: wellformed(rc)
  requires present: forall i int :: 0 <= i && i < len(updates) ==> updates[i] != nil
  requires distinct: forall i int, j int :: 0 <= i && i < j && j < len(updates) ==> updates[i] != updates[j]
  ensures C12.wellformed: wellformed(rc)
  ensures C12.delivered: D.n == len(updates) && (forall k int :: 0 <= k && k < D.n ==> D.U[k] == old(updates[k]))
  ensures C12.unchanged: forall k int :: 0 <= k && k < D.n ==> D.Cmd[k] == old(updates[k].Cmd) && D.Value[k] == old(updates[k].Value) && (D.Cmd[k] != store.Ticket ==> D.Key[k] == old(updates[k].Key))
  ensures C12.answers: len(out) == len(updates) && (forall k int :: 0 <= k && k < len(out) ==> out[k] != nil && out[k].Err == nil)
  ensures C12.own: forall k int :: 0 <= k && k < D.n && D.Cmd[k] == store.Ticket ==> out[k].Result == D.Key[k]
  ensures C12.ids: forall k int :: 0 <= k && k < D.n && D.Cmd[k] == store.Ticket ==> D.Key[k] == itoa(D.Sec[k]) ++ "-" ++ itoa(D.Cnt[k])
  ensures C12.fresh: forall k int, m int :: 0 <= k && k < m && m < D.n ==> after(D.Sec[m], D.Cnt[m], D.Sec[k], D.Cnt[k])
  ensures C12.freshold: forall k int :: 0 <= k && k < D.n ==> after(D.Sec[k], D.Cnt[k], old(unixsec(rc.replTS)), old(rc.replCount))
  ensures C12.freshnew: forall k int :: 0 <= k && k < D.n ==> unixsec(rc.replTS) == D.Sec[k] && rc.replCount >= D.Cnt[k] || unixsec(rc.replTS) > D.Sec[k]
  inv C12.count: D.n == iter
  inv C12.wellformed: wellformed(rc)
  inv C12.delivered: forall k int :: 0 <= k && k < iter ==> D.U[k] == old(updates[k])
  inv C12.unchanged: forall k int :: 0 <= k && k < iter ==> D.Cmd[k] == old(updates[k].Cmd) && D.Value[k] == old(updates[k].Value) && (D.Cmd[k] != store.Ticket ==> D.Key[k] == old(updates[k].Key))
  inv C12.pending: forall k int :: iter <= k && k < len(updates) ==> updates[k].Key == old(updates[k].Key)
  inv C12.ids: forall k int :: 0 <= k && k < iter && D.Cmd[k] == store.Ticket ==> D.Key[k] == itoa(D.Sec[k]) ++ "-" ++ itoa(D.Cnt[k])
  inv C12.fresh: forall k int, m int :: 0 <= k && k < m && m < iter ==> after(D.Sec[m], D.Cnt[m], D.Sec[k], D.Cnt[k])
  inv C12.freshold: forall k int :: 0 <= k && k < iter ==> after(D.Sec[k], D.Cnt[k], old(unixsec(rc.replTS)), old(rc.replCount))
  inv C12.freshnew: forall k int :: 0 <= k && k < iter ==> unixsec(rc.replTS) == D.Sec[k] && rc.replCount >= D.Cnt[k] || unixsec(rc.replTS) > D.Sec[k]
  inv C12.freshfirst: iter == 0 ==> unixsec(rc.replTS) == old(unixsec(rc.replTS)) && rc.replCount == old(rc.replCount)
  inv $o []*store.StateResponse C12.own: forall k int :: 0 <= k && k < iter && D.Cmd[k] == store.Ticket ==> $o[k].Result == D.Key[k]
  inv $o []*store.StateResponse C12.answers: len($o) == iter && (forall k int :: 0 <= k && k < iter ==> $o[k] != nil && $o[k].Err == nil)
}
