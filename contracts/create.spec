# Contract of CreateTicket: what it replicates and what it answers.
load "./core"
import pb "open-match.dev/pkg/pb/v2"
import core "open-match.dev/core"
import store "open-match.dev/core/internal/statestore/datatypes"
import cache "open-match.dev/core/internal/statestore/cache"
import ts "google.golang.org/protobuf/types/known/timestamppb"

assumption "the replication layer answers a queued update with a non-nil answer on the channel given with it"

fun ns(x *ts.Timestamp) int = x.Seconds * 1000000000 + x.Nanos
fun validts(x *ts.Timestamp) bool = x != nil && x.Seconds >= -62135596800 && x.Seconds <= 253402300799 && 0 <= x.Nanos && x.Nanos <= 999999999

# every update handed to the replication layer, and every protobuf ticket that was encoded
ghost log S { Cmd int, Key string, Value string, Ch chan *store.StateResponse }
ghost log M { T *pb.Ticket, Out string }

on send *cache.UpdateRequest (c, x) when c == core.tc.UpRequests {
  append S { Cmd: x.Update.Cmd, Key: x.Update.Key, Value: x.Update.Value, Ch: x.ResultsChan }
}
on recv *store.StateResponse (c, x, ok) { assume answered: x != nil }
on call "google.golang.org/protobuf/proto.Marshal" (m)(b, err) when typeis(m, *pb.Ticket) {
  append M { T: as(m, *pb.Ticket), Out: bytestr(b) }
}

fun created(t *pb.Ticket) int = ns(t.Attributes.CreationTime)
fun ttl() int = cfgint(core.cfg, "OM_CACHE_TICKET_TTL_SECS") * 1000000000
fun samestr(a *pb.Ticket, b *pb.Ticket) bool = forall k string :: (has(a.Attributes.StringArgs, k) <==> has(b.Attributes.StringArgs, k)) && (has(a.Attributes.StringArgs, k) ==> a.Attributes.StringArgs[k] == b.Attributes.StringArgs[k])
fun samedbl(a *pb.Ticket, b *pb.Ticket) bool = forall k string :: (has(a.Attributes.DoubleArgs, k) <==> has(b.Attributes.DoubleArgs, k)) && (has(a.Attributes.DoubleArgs, k) ==> a.Attributes.DoubleArgs[k] == b.Attributes.DoubleArgs[k])
fun sameext(a *pb.Ticket, b *pb.Ticket) bool = forall k string :: (has(a.Extensions, k) <==> has(b.Extensions, k)) && (has(a.Extensions, k) ==> a.Extensions[k] == b.Extensions[k])

func "(*open-match.dev/core.grpcServer).CreateTicket" (s, ctx, req)(resp, err) {
  ensures C05.refused: req.Ticket == nil ==> code(err) == 3 && S.n == 0
  ensures C05.atmostone: S.n <= 1
  ensures C05.queued: req.Ticket != nil && S.n == 0 ==> err != nil
  ensures C05.command: S.n == 1 ==> S.Cmd[0] == store.Ticket && S.Key[0] == "" && S.Ch[0] != nil
  ensures C05.answered: S.n == 1 ==> rcvd(S.Ch[0]) == 1 && resp.TicketId == msg(S.Ch[0], 0).Result && err == msg(S.Ch[0], 0).Err
  ensures C05.own: S.n == 1 ==> fresh(S.Ch[0])
  ensures C04.encoded: S.n == 1 ==> M.n > 0 && S.Value[0] == M.Out[M.n-1]
  ensures C04.noid: S.n == 1 ==> M.T[M.n-1].Id == ""
  ensures C04.tags: S.n == 1 ==> eqslice(M.T[M.n-1].Attributes.Tags, old(req.Ticket.Attributes.Tags))
  ensures C04.strings: S.n == 1 ==> samestr(M.T[M.n-1], req.Ticket)
  ensures C04.doubles: S.n == 1 ==> samedbl(M.T[M.n-1], req.Ticket)
  ensures C04.extensions: S.n == 1 ==> sameext(M.T[M.n-1], req.Ticket)
  ensures C04.created: S.n == 1 && validts(old(req.Ticket.Attributes.CreationTime)) ==> created(M.T[M.n-1]) == old(created(req.Ticket))
  ensures C04.createdvalid: S.n == 1 ==> validts(M.T[M.n-1].Attributes.CreationTime)
  ensures C04.creatednow: S.n == 1 && !validts(old(req.Ticket.Attributes.CreationTime)) ==> old(now) <= created(M.T[M.n-1]) && created(M.T[M.n-1]) <= now
  ensures C04.expiresasked: S.n == 1 && validts(old(req.Ticket.ExpirationTime)) && old(ns(req.Ticket.ExpirationTime)) <= created(M.T[M.n-1]) + ttl() ==> ns(M.T[M.n-1].ExpirationTime) == old(ns(req.Ticket.ExpirationTime))
  ensures C04.expiresdefault: S.n == 1 && !(validts(old(req.Ticket.ExpirationTime)) && old(ns(req.Ticket.ExpirationTime)) <= created(M.T[M.n-1]) + ttl()) ==> ns(M.T[M.n-1].ExpirationTime) == created(M.T[M.n-1]) + ttl()
  cover C04.queued: S.n == 1
}
