# Contract of the one-on-one matchmaking function.
load "./functions/golang/soloduel"
import pb "open-match.dev/pkg/pb/v2"

opaque "open-match.dev/mmf/server.GetChunkedRequest"
assumption "the reassembled request is any profile whatever (GetChunkedRequest has its own contract, C17)"

# the request, as reassembled
ghost var prof *pb.Profile
ghost var asked int = 0
on call "open-match.dev/mmf/server.GetChunkedRequest" (s)(req, err) {
  set prof := req
  set asked := asked + 1
}
assumption "a profile decoded from the wire has no nil ticket (protobuf decoding of repeated messages)"

# every participant position (k, j) of the request gets the number first[k]+j: pools are numbered as they are visited
ghost array seen string bool = false
ghost array first string int = 0
ghost array src string []*pb.Ticket
ghost array count string int = 0
ghost var total int = 0
ghost var cur string = ""
on maprange map[string]*pb.Pool (m, k, v) when m == prof.Pools {
  set seen[k] := true
  set first[k] := total
  set total := total + len(v.Participants.Tickets)
  set src[k] := v.Participants.Tickets
  set count[k] := len(v.Participants.Tickets)
  assume decoded: forall j int :: 0 <= j && j < len(v.Participants.Tickets) ==> v.Participants.Tickets[j] != nil
  set cur := k
}

# the matches streamed: the n-th holds the participants numbered 2n and 2n+1
ghost var sent int = 0
ghost var failed bool = false
on call "(open-match.dev/pkg/pb/v2.MatchMakingFunctionService_RunServer).Send" (s, m)(err) {
  assert C21.oneroster: m.Match != nil && len(m.Match.Rosters) == 1
  assert C21.size: forall n string :: has(m.Match.Rosters, n) ==> len(m.Match.Rosters[n].Tickets) == 2
  assert C21.within: 2 * sent + 2 <= total
  set sent := sent + 1
  set failed := failed || err != nil
}

func "(*open-match.dev/functions/golang/soloduel.MmfServer).Run" (s, stream)(err) {
  # the numbering uses every participant position exactly once
  ensures C21.numbered: forall k string :: has(prof.Pools, k) ==> seen[k]
  ensures C21.sources: forall k string :: seen[k] ==> src[k] == prof.Pools[k].Participants.Tickets && count[k] == len(src[k])
  ensures C21.bounded: forall k string :: seen[k] ==> has(prof.Pools, k) && 0 <= first[k] && first[k] + count[k] <= total
  ensures C21.disjoint: forall a string, b string :: seen[a] && seen[b] && a != b ==> first[a] + count[a] <= first[b] || first[b] + count[b] <= first[a]
  ensures C21.all: !failed ==> 2 * sent <= total && total < 2 * sent + 2
  ensures C21.read: asked == 1
  cover C21.some: sent > 2
  safety C21
  perreturn

  # 1: over the pools, 2: over the tickets of one pool, 3: making matches
  inv positive: 0 <= total
  inv @1 @2 sources: forall k string :: seen[k] ==> src[k] == prof.Pools[k].Participants.Tickets && count[k] == len(src[k])
  inv @1 visits: forall k string :: seen[k] <==> visited(k)
  inv @1 @2 within: forall k string :: seen[k] ==> has(prof.Pools, k) && 0 <= first[k] && first[k] + count[k] <= total
  inv @1 @2 apart: forall a string, b string :: seen[a] && seen[b] && a != b ==> first[a] + count[a] <= first[b] || first[b] + count[b] <= first[a]
  inv @1 $v []*pb.Ticket length: len($v) == total
  # while one pool is copied
  inv @2 $v []*pb.Ticket sofar: len($v) == first[cur] + iter
  # while matches are made
  inv @3 $r []*pb.Ticket roster: len($r) < 2 && 2 * sent + len($r) == iter
  inv @3 ok: !failed
  inv $v []*pb.Ticket real: forall i int :: 0 <= i && i < len($v) ==> $v[i] != nil
}
