# Contract of the battle-royale matchmaking function.
load "./functions/golang/battleroyale"
import pb "open-match.dev/pkg/pb/v2"

opaque "open-match.dev/mmf/server.GetChunkedRequest"
assumption "the reassembled request is any profile whatever (GetChunkedRequest has its own contract, C17)"

fun SIZE() int = 100

# the request, as reassembled, and the matches streamed
ghost var prof *pb.Profile
ghost var asked int = 0
ghost var sent int = 0
ghost var failed bool = false
fun pool() []*pb.Ticket = prof.Pools["competitive"].Participants.Tickets

on call "open-match.dev/mmf/server.GetChunkedRequest" (s)(req, err) {
  set prof := req
  set asked := asked + 1
}
on call "(open-match.dev/pkg/pb/v2.MatchMakingFunctionService_RunServer).Send" (s, m)(err) {
  assert C22.oneroster: m.Match != nil && len(m.Match.Rosters) == 1
  assert C22.size: forall n string :: has(m.Match.Rosters, n) ==> len(m.Match.Rosters[n].Tickets) == SIZE()
  assert C22.group: (sent + 1) * SIZE() <= len(pool()) && (forall n string :: has(m.Match.Rosters, n) ==> (forall j int :: 0 <= j && j < SIZE() ==> m.Match.Rosters[n].Tickets[j] == pool()[sent * SIZE() + j]))
  set sent := sent + 1
  set failed := failed || err != nil
}

func "(*open-match.dev/functions/golang/battleroyale.MmfServer).Run" (s, stream)(err) {
  ensures C22.all: !failed ==> sent * SIZE() <= len(pool()) && len(pool()) < (sent + 1) * SIZE()
  ensures C22.read: asked == 1
  cover C22.some: sent > 2
  safety C22
  inv $i int index: $i == sent * SIZE()
  inv ok: !failed
  inv within: sent * SIZE() <= len(pool())
}
