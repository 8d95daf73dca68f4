# Contracts of ActivateTickets and DeactivateTickets.
load "./core"
import pb "open-match.dev/pkg/pb/v2"
import core "open-match.dev/core"
import store "open-match.dev/core/internal/statestore/datatypes"
import cache "open-match.dev/core/internal/statestore/cache"

assumption "the replication layer answers every queued update with a non-nil answer on the channel given with it, in any order"

ghost log S { Cmd int, Key string, Ch chan *store.StateResponse }
ghost var R int = 0
ghost var bad bool = false

on send *cache.UpdateRequest (c, x) when c == core.tc.UpRequests {
  append S { Cmd: x.Update.Cmd, Key: x.Update.Key, Ch: x.ResultsChan }
}
on recv *store.StateResponse (c, x, ok) {
  assume answered: x != nil
  set R := R + 1
  set bad := bad || x.Err != nil
}

# the pattern the replication layer declares for its ids
ghost var pattern string
on call "(open-match.dev/core/internal/statestore/datatypes.StateReplicator).GetReplIdValidationRegex" (r)(s) { assume stable: s == pattern }
fun wf(id string) bool = matches(pattern, id)
# number of well-formed ids among the first n
rec fun cnt(ids []string, n int) int = ite(n <= 0, 0, cnt(ids, n-1) + ite(wf(ids[n-1]), 1, 0))

fun max() int = cfgint(core.cfg, "OM_MAX_STATE_UPDATES_PER_CALL")

func "(*open-match.dev/core.grpcServer).ActivateTickets" (s, ctx, req)(resp, err) {
  ensures C06.empty: len(req.TicketIds) == 0 ==> code(err) == 3 && S.n == 0
  ensures C06.toomany: len(req.TicketIds) > max() ==> code(err) == 3 && S.n == 0
  ensures C06.accepted: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() && !bad ==> err == nil
  ensures C07.count: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() ==> S.n == old(cnt(req.TicketIds, len(req.TicketIds)))
  ensures C07.command: forall k int :: 0 <= k && k < S.n ==> S.Cmd[k] == store.Activate
  ensures C07.each: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() ==> (forall i int :: 0 <= i && i < len(req.TicketIds) && old(wf(req.TicketIds[i])) ==> S.Key[old(cnt(req.TicketIds, i))] == old(req.TicketIds[i]))
  ensures C07.waited: R == S.n
  ensures C07.success: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() ==> (err == nil <==> !bad)
  inv C07.nonneg: 0 <= old(cnt(req.TicketIds, iter))
  inv C07.mono: forall i int :: 0 <= i && i < iter && old(wf(req.TicketIds[i])) ==> 0 <= old(cnt(req.TicketIds, i)) && old(cnt(req.TicketIds, i)) < old(cnt(req.TicketIds, iter))
  inv $v []string C07.count: len($v) == old(cnt(req.TicketIds, iter))
  inv $v []string C07.each: (forall i int :: 0 <= i && i < iter && old(wf(req.TicketIds[i])) ==> $v[old(cnt(req.TicketIds, i))] == old(req.TicketIds[i]))
  inv $m map[string]error fails: len($m) > 0 <==> bad
}

func "(*open-match.dev/core.grpcServer).DeactivateTickets" (s, ctx, req)(resp, err) {
  ensures C06.empty: len(req.TicketIds) == 0 ==> code(err) == 3 && S.n == 0
  ensures C06.toomany: len(req.TicketIds) > max() ==> code(err) == 3 && S.n == 0
  ensures C06.accepted: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() && !bad ==> err == nil
  ensures C07.count: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() ==> S.n == old(cnt(req.TicketIds, len(req.TicketIds)))
  ensures C07.command: forall k int :: 0 <= k && k < S.n ==> S.Cmd[k] == store.Deactivate
  ensures C07.each: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() ==> (forall i int :: 0 <= i && i < len(req.TicketIds) && old(wf(req.TicketIds[i])) ==> S.Key[old(cnt(req.TicketIds, i))] == old(req.TicketIds[i]))
  ensures C07.waited: R == S.n
  ensures C07.success: 0 < len(req.TicketIds) && len(req.TicketIds) <= max() ==> (err == nil <==> !bad)
  inv C07.nonneg: 0 <= old(cnt(req.TicketIds, iter))
  inv C07.mono: forall i int :: 0 <= i && i < iter && old(wf(req.TicketIds[i])) ==> 0 <= old(cnt(req.TicketIds, i)) && old(cnt(req.TicketIds, i)) < old(cnt(req.TicketIds, iter))
  inv $v []string C07.count: len($v) == old(cnt(req.TicketIds, iter))
  inv $v []string C07.each: (forall i int :: 0 <= i && i < iter && old(wf(req.TicketIds[i])) ==> $v[old(cnt(req.TicketIds, i))] == old(req.TicketIds[i]))
  inv $m map[string]error fails: len($m) > 0 <==> bad
}
