# Contracts of the incoming replication queue: what an update does to the cache, and what expiration removes.
load "./core/internal/statestore/cache"
import cache "open-match.dev/core/internal/statestore/cache"
import store "open-match.dev/core/internal/statestore/datatypes"
import pb "open-match.dev/pkg/pb/v2"
import sync "sync"

assumption "ids are strings that start with the unix seconds they were issued at (what the in-memory replicator issues, C12); cached tickets are non-nil"
assumption "the replicator's updates are non-nil and nobody else writes the cache or the channel the updates travel through"
assumption "the goroutine that reads the replicator never ends; it reaches the rest of the program only through that channel, which is first in first out"

ghost var me *cache.ReplicatedTicketCache
# the channel from the reading goroutine to the applying loop
ghost var stream chan store.StateUpdate
on makechan store.StateUpdate (c, n) { set stream := c }

# updates reported by the replicator (hi of them), and forwarded (F of them)
ghost var hi int = 0
ghost var F int = 0
ghost array UC int int
ghost array UK int string
ghost array UV int string
on call "(open-match.dev/core/internal/statestore/datatypes.StateReplicator).GetUpdates" (r)(res) before {
  assert C13.forwarded: F == hi
} after {
  assume given: forall i int :: 0 <= i && i < len(res) ==> res[i] != nil && res[i].Cmd == UC[hi+i] && res[i].Key == UK[hi+i] && res[i].Value == UV[hi+i]
  set hi := hi + len(res)
}
on send store.StateUpdate (c, x) {
  assert C13.stream: c == stream
  assert C13.order: F < hi && x.Cmd == UC[F] && x.Key == UK[F] && x.Value == UV[F]
  set F := F + 1
}
on close (c) { assert C13.open: c != stream }

# the update being applied, and whether its effect is complete
ghost var cmd int = 99
ghost var key string = ""
ghost var val string = ""
ghost var done bool = true
on recv store.StateUpdate (c, x, ok) when c == stream {
  assert C13.applied: done
  assume open: ok
  set cmd := x.Cmd
  set key := x.Key
  set val := x.Value
  set done := x.Cmd != store.Ticket && x.Cmd != store.Activate && x.Cmd != store.Deactivate && x.Cmd != store.Assign
}

fun ttl() int = cfgint(me.Cfg, "OM_CACHE_TICKET_TTL_SECS")
fun attl() int = cfgint(me.Cfg, "OM_CACHE_TICKET_TTL_SECS") + cfgint(me.Cfg, "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")
fun born(k any) int = parseint(splithead(as(k, string), "-"))
fun expiry(x *pb.Ticket) int = x.ExpirationTime.Seconds * 1000000000 + x.ExpirationTime.Nanos
fun mark(k any) bool = smhas(me.InactiveSet, k)
fun outlived(k any, t int) bool = unixsec(t) - born(k) > ttl()
fun ticketgone(k any, t int) bool = t > expiry(as(smget(me.Tickets, k), *pb.Ticket)) || mark(k) && outlived(k, t)

on call "(*sync.Map).Store" (m, k, v)() before {
  assert C13.own: !done && k == any(key)
  assert C13.target: m == me.Tickets && cmd == store.Ticket || m == me.InactiveSet && (cmd == store.Ticket || cmd == store.Deactivate) || m == me.Assignments && cmd == store.Assign
  assert C13.inactivefirst: m == me.Tickets ==> mark(k)
  assert C13.ticket: m == me.Tickets ==> typeis(v, *pb.Ticket) && as(v, *pb.Ticket) != nil && as(v, *pb.Ticket).Id == key && unmarshaled(as(v, *pb.Ticket), val, Id)
  assert C13.assignment: m == me.Assignments ==> typeis(v, *pb.Assignment) && as(v, *pb.Assignment) != nil && unmarshaled(as(v, *pb.Assignment), val)
  assert C14.kept: !done
} after {
  set done := done || m == me.Tickets || m == me.Assignments || cmd == store.Deactivate
}
on call "(*sync.Map).Delete" (m, k)() before {
  assert C13.own: !done ==> m == me.InactiveSet && cmd == store.Activate && k == any(key)
  assert C14.ticket: done && m == me.Tickets && smhas(m, k) ==> ticketgone(k, now)
  assert C14.mark: done && m == me.InactiveSet && smhas(m, k) ==> outlived(k, now) && !smhas(me.Tickets, k)
  assert C14.assignment: done && m == me.Assignments && smhas(m, k) ==> unixsec(now) - born(k) > attl()
} after {
  set done := true
}
on call "(*sync.Map).LoadAndDelete" (m, k)(v, ok) before {
  assert C13.own: !done ==> m == me.InactiveSet && cmd == store.Activate && k == any(key)
  assert C14.ticket: done && m == me.Tickets && smhas(m, k) ==> ticketgone(k, now)
  assert C14.mark: done && m == me.InactiveSet && smhas(m, k) ==> outlived(k, now) && !smhas(me.Tickets, k)
  assert C14.assignment: done && m == me.Assignments && smhas(m, k) ==> unixsec(now) - born(k) > attl()
} after {
  set done := true
}
on smrange (m, k, v) {
  assume ids: typeis(k, string) && isint(splithead(as(k, string), "-"))
  assume tickets: m == me.Tickets ==> typeis(v, *pb.Ticket) && as(v, *pb.Ticket) != nil
}

# the clock when the last pass of updates and expiration began
ghost var passed bool = false
ghost var t0 int = 0
on call "time.Sleep" (d)() before {
  assert C13.complete: done
  assert C14.alltickets: passed ==> forall k any :: smhas(me.Tickets, k) ==> !(t0 > expiry(as(smget(me.Tickets, k), *pb.Ticket)))
  assert C14.allmarks: passed ==> forall k any :: mark(k) ==> !outlived(k, t0)
  assert C14.allassignments: passed ==> forall k any :: smhas(me.Assignments, k) ==> !(unixsec(t0) - born(k) > attl())
} after {
  set passed := true
  set t0 := now
}

func "(*open-match.dev/core/internal/statestore/cache.ReplicatedTicketCache).IncomingReplicationQueue" (tc, ctx)() {
  requires me: tc != nil && me == tc
  noreturn
  noframe
  props C13
  props C14
  inv C13.forwarded: F == hi
  inv $r []*store.StateUpdate C13.forwarding: F + (len($r) - iter) == hi && (forall i int :: 0 <= i && i < len($r) ==> $r[i] != nil && $r[i].Cmd == UC[F-iter+i] && $r[i].Key == UK[F-iter+i] && $r[i].Value == UV[F-iter+i])
  inv C13.done: done
  inv C14.done: done
  inv C14.clock: passed && t0 <= now
  # a range only removes
  inv C14.fewermarks: forall k any :: (visited(k) || !visited(k)) && mark(k) ==> start(mark(k))
  inv C14.fewertickets: forall k any :: (visited(k) || !visited(k)) && smhas(me.Tickets, k) ==> start(smhas(me.Tickets, k)) && smget(me.Tickets, k) == start(smget(me.Tickets, k))
  inv C14.fewerassignments: forall k any :: (visited(k) || !visited(k)) && smhas(me.Assignments, k) ==> start(smhas(me.Assignments, k))
  inv C14.marks: forall k any :: mark(k) && visited(k) ==> !outlived(k, t0)
  inv C14.tickets: forall k any :: smhas(me.Tickets, k) && visited(k) ==> !(t0 > expiry(as(smget(me.Tickets, k), *pb.Ticket)))
  inv C14.assignments: forall k any :: smhas(me.Assignments, k) && visited(k) ==> !(unixsec(t0) - born(k) > attl())
  inv C14.allmarks: passed ==> forall k any :: mark(k) ==> !outlived(k, t0)
  inv C14.alltickets: passed ==> forall k any :: smhas(me.Tickets, k) ==> !(t0 > expiry(as(smget(me.Tickets, k), *pb.Ticket)))
  inv C14.allassignments: passed ==> forall k any :: smhas(me.Assignments, k) ==> !(unixsec(t0) - born(k) > attl())
}
