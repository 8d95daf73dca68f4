# Contract of CreateAssignments: what it replicates, and that it waits for every answer.
load "./core"
import pb "open-match.dev/pkg/pb/v2"
import core "open-match.dev/core"
import store "open-match.dev/core/internal/statestore/datatypes"
import cache "open-match.dev/core/internal/statestore/cache"

assumption "the replication layer answers every queued update with a non-nil answer on the channel given with it, in any order"
assumption "protobuf messages that arrive over the wire hold no nil element inside a repeated message field"

ghost log S { Cmd int, Key string, Value string, Ch chan *store.StateResponse }
ghost log M { T *pb.Assignment, Out string }
ghost var R int = 0

on send *cache.UpdateRequest (c, x) when c == core.tc.UpRequests {
  append S { Cmd: x.Update.Cmd, Key: x.Update.Key, Value: x.Update.Value, Ch: x.ResultsChan }
}
on recv *store.StateResponse (c, x, ok) { 
  assume answered: x != nil
  set R := R + 1 
}
on call "google.golang.org/protobuf/proto.Marshal" (m)(b, err) when typeis(m, *pb.Assignment) {
  append M { T: as(m, *pb.Assignment), Out: bytestr(b) }
}

# number of tickets with an id among the first n
rec fun cnt(t []*pb.Ticket, n int) int = ite(n <= 0, 0, cnt(t, n-1) + ite(t[n-1].Id != "", 1, 0))
fun complete(req *pb.CreateAssignmentsRequest) bool = req.AssignmentRoster != nil && req.AssignmentRoster.Assignment != nil
fun sameext(a *pb.Assignment, b *pb.Assignment) bool = forall k string :: (has(a.Extensions, k) <==> has(b.Extensions, k)) && (has(a.Extensions, k) ==> a.Extensions[k] == b.Extensions[k])

func "(*open-match.dev/core.grpcServer).CreateAssignments" (s, ctx, req)(resp, err) {
  requires wire: forall i int :: 0 <= i && i < len(req.AssignmentRoster.Tickets) ==> req.AssignmentRoster.Tickets[i] != nil
  ensures C19.refused: !complete(req) ==> code(err) == 3 && S.n == 0
  ensures C19.command: forall k int :: 0 <= k && k < S.n ==> S.Cmd[k] == store.Assign
  ensures C19.value: forall k int :: 0 <= k && k < S.n ==> M.n > 0 && S.Value[k] == M.Out[M.n-1]
  ensures C19.encoded: S.n > 0 ==> M.T[M.n-1].Connection == old(req.AssignmentRoster.Assignment.Connection) && sameext(M.T[M.n-1], req.AssignmentRoster.Assignment)
  ensures C19.count: S.n > 0 || (complete(req) && err == nil) ==> S.n == old(cnt(req.AssignmentRoster.Tickets, len(req.AssignmentRoster.Tickets)))
  ensures C19.each: S.n > 0 ==> (forall i int :: 0 <= i && i < len(req.AssignmentRoster.Tickets) && old(req.AssignmentRoster.Tickets[i].Id) != "" ==> S.Key[old(cnt(req.AssignmentRoster.Tickets, i))] == old(req.AssignmentRoster.Tickets[i].Id))
  ensures C19.waited: R == S.n
  inv C19.count: S.n == old(cnt(req.AssignmentRoster.Tickets, iter))
  inv C19.mono: forall i int :: 0 <= i && i < iter && old(req.AssignmentRoster.Tickets[i].Id) != "" ==> 0 <= old(cnt(req.AssignmentRoster.Tickets, i)) && old(cnt(req.AssignmentRoster.Tickets, i)) < old(cnt(req.AssignmentRoster.Tickets, iter))
  inv C19.each: (forall i int :: 0 <= i && i < iter && old(req.AssignmentRoster.Tickets[i].Id) != "" ==> S.Key[old(cnt(req.AssignmentRoster.Tickets, i))] == old(req.AssignmentRoster.Tickets[i].Id))
  inv C19.command: forall k int :: 0 <= k && k < S.n ==> S.Cmd[k] == store.Assign
  inv C19.value: forall k int :: 0 <= k && k < S.n ==> M.n > 0 && S.Value[k] == M.Out[M.n-1]
  inv $n int C19.queued: S.n == $n
  inv $i int C19.read: R == $i
}
