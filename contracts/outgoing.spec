# Contract of the outgoing replication queue: batches in order, every answer to its own requester.
load "./core/internal/statestore/cache"
import cache "open-match.dev/core/internal/statestore/cache"
import store "open-match.dev/core/internal/statestore/datatypes"

assumption "the replicator returns one non-nil answer per update, in order (C09, C12) and the configured batch threshold is at least one and does not change"
assumption "every request in the queue is non-nil and names the channel its answer goes to"

ghost var me *cache.ReplicatedTicketCache
# every request taken from the queue, in order
ghost log Q { Cmd int, Key string, Value string, Ch chan *store.StateResponse }
# requests handed to the replicator before the current batch, up to and including it, and answers given so far
ghost var lo int = 0
ghost var hi int = 0
ghost var K int = 0
ghost array ans int *store.StateResponse

on recv *cache.UpdateRequest (c, x, ok) when c == me.UpRequests {
  assume some: ok && x != nil
  append Q { Cmd: x.Update.Cmd, Key: x.Update.Key, Value: x.Update.Value, Ch: x.ResultsChan }
}
fun max() int = cfgint(me.Cfg, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD")

on call "(open-match.dev/core/internal/statestore/datatypes.StateReplicator).SendUpdates" (r, ups)(res) before {
  assert C08.answered: K == hi
  assert C08.nonempty: len(ups) > 0
  assert C08.limit: len(ups) <= max()
  assert C08.once: hi + len(ups) == Q.n
  assert C08.order: forall i int :: 0 <= i && i < len(ups) ==> ups[i] != nil && ups[i].Cmd == Q.Cmd[hi+i] && ups[i].Key == Q.Key[hi+i] && ups[i].Value == Q.Value[hi+i]
  set lo := hi
  set hi := hi + len(ups)
} after {
  assume one: len(res) == hi - lo
  assume answers: forall i int :: 0 <= i && i < len(res) ==> res[i] != nil && res[i] == ans[lo+i]
}
on send *store.StateResponse (c, x) {
  assert C08.own: K < hi && c == Q.Ch[K] && x == ans[K]
  set K := K + 1
}

func "(*open-match.dev/core/internal/statestore/cache.ReplicatedTicketCache).OutgoingReplicationQueue" (tc, ctx)() {
  requires me: tc != nil && me == tc
  requires max: max() >= 1
  noreturn
  noframe
  props C08
  inv @1 C08.idle: K == hi && hi == Q.n && 0 <= lo && lo <= hi
  inv @2 C08.idle: K == hi && hi <= Q.n && 0 <= lo && lo <= hi
  inv @2 $e bool C08.limit: Q.n - hi <= max() && (!$e ==> Q.n - hi < max())
  inv @2 $u []*store.StateUpdate C08.collected: len($u) == Q.n - hi
  inv @2 $u []*store.StateUpdate C08.order: forall i int :: 0 <= i && i < len($u) ==> $u[i] != nil && $u[i].Cmd == Q.Cmd[hi+i] && $u[i].Key == Q.Key[hi+i] && $u[i].Value == Q.Value[hi+i]
  inv @2 $q []*cache.UpdateRequest C08.requests: len($q) == Q.n - hi
  inv @2 $q []*cache.UpdateRequest C08.channels: forall i int :: 0 <= i && i < len($q) ==> $q[i] != nil && $q[i].ResultsChan == Q.Ch[hi+i]
  inv @3 C08.next: K == lo + iter && hi == Q.n && 0 <= lo && lo <= hi
}
