package cache

// Replay of the contracts of the replicated ticket cache on the real code:
// outgoing batches (C08), incoming updates (C13) and expiration (C14).

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	otelmetrics "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/noop"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

var (
	nfail  = map[string]int{}
	failMu sync.Mutex
)

func fail(t *testing.T, key, f string, a ...interface{}) {
	failMu.Lock()
	defer failMu.Unlock()
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	t.Fail()
}

func rng() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	logrus.SetOutput(io.Discard)
	return rand.New(rand.NewSource(n))
}

func scale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 8
	}
	return n
}

func cfgWith(kv map[string]interface{}) *viper.Viper {
	c := viper.New()
	for k, v := range map[string]interface{}{
		"OM_CACHE_IN_WAIT_TIMEOUT_MS": 1, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": 50,
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": 5, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 4,
		"OM_CACHE_TICKET_TTL_SECS": 600, "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": 600,
	} {
		c.Set(k, v)
	}
	for k, v := range kv {
		c.Set(k, v)
	}
	return c
}

// ---------------------------------------------------------------- C08

type outRep struct {
	mu      sync.Mutex
	batches [][]store.StateUpdate
	answers []*store.StateResponse
	next    int
	delay   func()
}

func (r *outRep) GetUpdates() []*store.StateUpdate  { select {} }
func (r *outRep) GetReplIdValidationRegex() string { return ".*" }
func (r *outRep) SendUpdates(ups []*store.StateUpdate) []*store.StateResponse {
	r.mu.Lock()
	defer r.mu.Unlock()
	b := make([]store.StateUpdate, 0, len(ups))
	out := make([]*store.StateResponse, 0, len(ups))
	for _, u := range ups {
		if u == nil {
			b = append(b, store.StateUpdate{Key: "<nil>"})
		} else {
			b = append(b, *u)
		}
		a := &store.StateResponse{Result: fmt.Sprintf("r%v", r.next)}
		if r.next%5 == 3 {
			a.Err = fmt.Errorf("refused %v", r.next)
		}
		r.next++
		r.answers = append(r.answers, a)
		out = append(out, a)
	}
	r.batches = append(r.batches, b)
	if r.delay != nil {
		r.delay()
	}
	return out
}

func TestVerif_C08(t *testing.T) {
	r := rng()
	total, batches := 0, 0
	for round := 0; round < scale(40); round++ {
		max := 1 + r.Intn(6)
		if round%9 == 8 {
			max = 50
		}
		wait := []int{1, 3, 15}[r.Intn(3)]
		rep := &outRep{}
		if r.Intn(2) == 0 {
			rep.delay = func() { time.Sleep(2 * time.Millisecond) }
		}
		tc := &ReplicatedTicketCache{Replicator: rep, UpRequests: make(chan *UpdateRequest, []int{0, 3, 200}[r.Intn(3)]),
			Cfg: cfgWith(map[string]interface{}{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": max, "OM_CACHE_OUT_WAIT_TIMEOUT_MS": wait})}
		go tc.OutgoingReplicationQueue(context.Background())
		n := 1 + r.Intn(60)
		nch := 1 + r.Intn(n)
		chans := make([]chan *store.StateResponse, nch)
		for i := range chans {
			chans[i] = make(chan *store.StateResponse, n)
		}
		owner := make([]int, n)
		var sent []store.StateUpdate
		for i := 0; i < n; i++ {
			owner[i] = r.Intn(nch)
			u := store.StateUpdate{Cmd: r.Intn(4), Key: fmt.Sprintf("k%v", i), Value: fmt.Sprintf("v%v", i)}
			if i > 0 && r.Intn(6) == 0 {
				u = sent[i-1] // the same update once more
			}
			sent = append(sent, u)
			tc.UpRequests <- &UpdateRequest{Ctx: context.Background(), Update: u, ResultsChan: chans[owner[i]]}
			if r.Intn(6) == 0 {
				time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			}
		}
		deadline := time.Now().Add(8 * time.Second)
		for time.Now().Before(deadline) {
			k := 0
			for _, c := range chans {
				k += len(c)
			}
			if k >= n {
				break
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		rep.mu.Lock()
		var got []store.StateUpdate
		for bi, b := range rep.batches {
			batches++
			if len(b) == 0 {
				fail(t, "C08.batch", "batch %v handed to the replicator is empty (threshold %v)", bi, max)
			}
			if len(b) > max {
				fail(t, "C08.batch", "batch %v has %v updates, threshold is %v", bi, len(b), max)
			}
			got = append(got, b...)
		}
		answers := append([]*store.StateResponse{}, rep.answers...)
		rep.mu.Unlock()
		if len(got) != n {
			fail(t, "C08.once", "%v updates queued, %v handed to the replicator (threshold %v)", n, len(got), max)
		}
		for i := 0; i < len(got) && i < n; i++ {
			if got[i] != sent[i] {
				fail(t, "C08.order", "update %v handed to the replicator is %+v, the one queued at that place is %+v (threshold %v)", i, got[i], sent[i], max)
				break
			}
		}
		want := make([][]*store.StateResponse, nch)
		for i := 0; i < n && i < len(answers); i++ {
			want[owner[i]] = append(want[owner[i]], answers[i])
		}
		for ci, c := range chans {
			var have []*store.StateResponse
			for len(c) > 0 {
				have = append(have, <-c)
			}
			if len(have) != len(want[ci]) {
				fail(t, "C08.own", "requester %v of %v: %v answers delivered, %v expected (%v updates, threshold %v)", ci, nch, len(have), len(want[ci]), n, max)
				continue
			}
			for i := range have {
				if have[i] == nil || have[i].Result != want[ci][i].Result || (have[i].Err == nil) != (want[ci][i].Err == nil) {
					fail(t, "C08.own", "requester %v: answer %v is %+v, its own is %+v (threshold %v)", ci, i, have[i], want[ci][i], max)
					break
				}
			}
		}
		total += n
		if t.Failed() && round > 2 {
			break
		}
		// end the queue's goroutine
		rep.mu.Lock()
		rep.delay = runtime.Goexit
		rep.mu.Unlock()
		tc.UpRequests <- &UpdateRequest{ResultsChan: make(chan *store.StateResponse, 1)}
	}
	fmt.Printf("VERIF-STATS %v updates through the outgoing queue in %v batches, thresholds 1..6 and 50, shared and own result channels\n", total, batches)
}

// ---------------------------------------------------------------- C13, C14

// passes counts finished expiration passes; the goroutine under test ends in it once told to.
type passes struct {
	noop.Float64Histogram
	mu   sync.Mutex
	n    int
	stop bool
	gone bool
}

func (p *passes) Record(ctx context.Context, v float64, o ...otelmetrics.RecordOption) {
	p.mu.Lock()
	p.n++
	s := p.stop
	p.gone = p.gone || s
	p.mu.Unlock()
	if s {
		runtime.Goexit()
	}
}

func (p *passes) count() int { p.mu.Lock(); defer p.mu.Unlock(); return p.n }

func (p *passes) wait(k int) bool {
	end := time.Now().Add(8 * time.Second)
	for p.count() < k {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

func (p *passes) end() bool {
	p.mu.Lock()
	p.stop = true
	p.mu.Unlock()
	end := time.Now().Add(4 * time.Second)
	for time.Now().Before(end) {
		p.mu.Lock()
		g := p.gone
		p.mu.Unlock()
		if g {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return false
}

type inRep struct {
	ch   chan []*store.StateUpdate
	idle chan bool
}

func (r *inRep) SendUpdates([]*store.StateUpdate) []*store.StateResponse { return nil }
func (r *inRep) GetReplIdValidationRegex() string                       { return ".*" }
func (r *inRep) GetUpdates() []*store.StateUpdate {
	select {
	case r.idle <- true: // everything handed over before has been queued
	default:
	}
	b, ok := <-r.ch
	if !ok {
		runtime.Goexit()
	}
	return b
}

type snap struct {
	tickets  map[string]*pb.Ticket
	inactive map[string]bool
	assigns  map[string]*pb.Assignment
}

func snapshot(tc *ReplicatedTicketCache) snap {
	s := snap{map[string]*pb.Ticket{}, map[string]bool{}, map[string]*pb.Assignment{}}
	tc.Tickets.Range(func(k, v any) bool { s.tickets[k.(string)], _ = v.(*pb.Ticket); return true })
	tc.InactiveSet.Range(func(k, v any) bool { s.inactive[k.(string)] = true; return true })
	tc.Assignments.Range(func(k, v any) bool { s.assigns[k.(string)], _ = v.(*pb.Assignment); return true })
	return s
}

func (s snap) diff(o snap) string {
	for k, v := range s.tickets {
		w, ok := o.tickets[k]
		if !ok {
			return fmt.Sprintf("ticket %v is missing", k)
		}
		if !proto.Equal(v, w) {
			return fmt.Sprintf("ticket %v is %v, expected %v", k, w, v)
		}
	}
	for k := range o.tickets {
		if _, ok := s.tickets[k]; !ok {
			return fmt.Sprintf("ticket %v is there", k)
		}
	}
	for k := range s.inactive {
		if !o.inactive[k] {
			return fmt.Sprintf("%v is active", k)
		}
	}
	for k := range o.inactive {
		if !s.inactive[k] {
			return fmt.Sprintf("%v is inactive", k)
		}
	}
	for k, v := range s.assigns {
		w, ok := o.assigns[k]
		if !ok {
			return fmt.Sprintf("assignment of %v is missing", k)
		}
		if !proto.Equal(v, w) {
			return fmt.Sprintf("assignment of %v is %v, expected %v", k, w, v)
		}
	}
	for k := range o.assigns {
		if _, ok := s.assigns[k]; !ok {
			return fmt.Sprintf("assignment of %v is there", k)
		}
	}
	return ""
}

func someAny(r *rand.Rand) *anypb.Any {
	a, _ := anypb.New(wrapperspb.String(fmt.Sprintf("x%v", r.Intn(100))))
	return a
}

func someTicket(r *rand.Rand, exp time.Time) *pb.Ticket {
	tk := &pb.Ticket{ExpirationTime: timestamppb.New(exp)}
	if r.Intn(3) > 0 {
		tk.Attributes = &pb.Ticket_FilterableData{Tags: []string{"a", fmt.Sprint(r.Intn(9))},
			StringArgs: map[string]string{"m": fmt.Sprint(r.Intn(9))}, DoubleArgs: map[string]float64{"s": r.Float64()},
			CreationTime: timestamppb.New(exp.Add(-time.Hour))}
	}
	if r.Intn(2) == 0 {
		tk.Extensions = map[string]*anypb.Any{"e": someAny(r)}
	}
	if r.Intn(4) == 0 {
		tk.Id = "submitted"
	}
	return tk
}

func TestVerif_C13(t *testing.T) {
	r := rng()
	total := 0
	for round := 0; round < scale(30); round++ {
		p := &passes{}
		ExpirationCycleDuration = p
		rep := &inRep{ch: make(chan []*store.StateUpdate, 100), idle: make(chan bool, 100000)}
		tc := &ReplicatedTicketCache{Replicator: rep, Cfg: cfgWith(map[string]interface{}{
			"OM_CACHE_IN_MAX_UPDATES_PER_POLL": []int{0, 1, 3, 50}[r.Intn(4)]})}
		now := time.Now()
		var ids []string
		for i := 0; i < 2+r.Intn(8); i++ {
			ids = append(ids, fmt.Sprintf("%v-%v", now.Unix(), i))
		}
		want := snap{map[string]*pb.Ticket{}, map[string]bool{}, map[string]*pb.Assignment{}}
		// what is there before stays there unless an update names it
		for i := 0; i < r.Intn(4); i++ {
			id := fmt.Sprintf("%v-%v", now.Unix(), 100+i)
			tk := someTicket(r, now.Add(time.Hour))
			tk.Id = id
			tc.Tickets.Store(id, tk)
			want.tickets[id] = proto.Clone(tk).(*pb.Ticket)
			if r.Intn(2) == 0 {
				tc.InactiveSet.Store(id, true)
				want.inactive[id] = true
			}
			ids = append(ids, id)
		}
		never := map[string]bool{} // created, never activated
		var ups []*store.StateUpdate
		n := r.Intn(60)
		for i := 0; i < n; i++ {
			id := ids[r.Intn(len(ids))]
			u := &store.StateUpdate{Cmd: r.Intn(4), Key: id}
			switch u.Cmd {
			case store.Ticket:
				tk := someTicket(r, now.Add(time.Hour))
				b, _ := proto.Marshal(tk)
				u.Value = string(b)
				tk.Id = id
				want.tickets[id] = tk
				want.inactive[id] = true
			case store.Activate:
				delete(want.inactive, id)
			case store.Deactivate:
				want.inactive[id] = true
			case store.Assign:
				a := &pb.Assignment{Connection: fmt.Sprintf("host:%v", i)}
				if r.Intn(4) == 0 {
					a.Connection = ""
				}
				if r.Intn(2) == 0 {
					a.Extensions = map[string]*anypb.Any{"e": someAny(r)}
				}
				b, _ := proto.Marshal(a)
				u.Value = string(b)
				want.assigns[id] = a
			}
			ups = append(ups, u)
		}
		for i := 0; i < 40; i++ {
			id := fmt.Sprintf("%v-%v", now.Unix(), 1000+i)
			tk := someTicket(r, now.Add(time.Hour))
			b, _ := proto.Marshal(tk)
			tk.Id = id
			want.tickets[id], want.inactive[id], never[id] = tk, true, true
			ups = append(ups, &store.StateUpdate{Cmd: store.Ticket, Key: id, Value: string(b)})
		}
		// a reader: a ticket it sees that was never activated is inactive
		stop := make(chan bool)
		done := make(chan bool)
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
				}
				for id := range never {
					if _, ok := tc.Tickets.Load(id); ok {
						if _, in := tc.InactiveSet.Load(id); !in {
							if _, still := tc.Tickets.Load(id); still {
								fail(t, "C13.inactive-first", "new ticket %v is visible and active although no activation was replicated", id)
								return
							}
						}
					}
				}
			}
		}()
		var hist []store.StateUpdate
		for _, u := range ups {
			hist = append(hist, *u)
		}
		nb := 0
		go tc.IncomingReplicationQueue(context.Background())
		for rest := ups; len(rest) > 0; {
			k := 1 + r.Intn(8)
			if k > len(rest) {
				k = len(rest)
			}
			rep.ch <- rest[:k]
			nb++
			rest = rest[k:]
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		}
		// all of them handed over to the loop
		for i := 0; i < nb+1; i++ {
			select {
			case <-rep.idle:
			case <-time.After(8 * time.Second):
				fail(t, "C13.applied", "the updates are not taken (batch %v of %v)", i, nb)
			}
		}
		p.wait(p.count() + 3)
		// the loop may still be draining: wait for the expected state before judging
		var d string
		for end := time.Now().Add(3 * time.Second); ; {
			if d = want.diff(snapshot(tc)); d == "" || time.Now().After(end) {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		close(stop)
		<-done
		if d != "" {
			fail(t, "C13.state", "after applying %v updates: %v; updates (cmd 0 create, 1 activate, 2 deactivate, 3 assign): %v", len(hist), d, brief(hist))
		}
		p.end()
		close(rep.ch)
		total += len(ups)
		if t.Failed() && round > 3 {
			break
		}
	}
	fmt.Printf("VERIF-STATS %v replicated updates applied to 2..14 keys, content of the whole cache compared with the specified one\n", total)
}

func brief(h []store.StateUpdate) string {
	s := ""
	for i, u := range h {
		if i > 12 {
			return s + " ..."
		}
		s += fmt.Sprintf(" %v:%v", u.Cmd, u.Key)
	}
	return s
}

func TestVerif_C14(t *testing.T) {
	r := rng()
	total, judged := 0, 0
	for round := 0; round < scale(60); round++ {
		p := &passes{}
		ExpirationCycleDuration = p
		rep := &inRep{ch: make(chan []*store.StateUpdate), idle: make(chan bool, 100000)}
		ttl, extra := []int{0, 5, 600, 100000}[r.Intn(4)], []int{0, 5, 600}[r.Intn(3)]
		tc := &ReplicatedTicketCache{Replicator: rep, Cfg: cfgWith(map[string]interface{}{"OM_CACHE_TICKET_TTL_SECS": ttl,
			"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": extra, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 1})}
		before := snap{map[string]*pb.Ticket{}, map[string]bool{}, map[string]*pb.Assignment{}}
		t0 := time.Now()
		created := map[string]int64{}
		for i := 0; i < 60; i++ {
			age := int64(0)
			switch r.Intn(6) {
			case 0:
				age = int64(ttl) + int64(r.Intn(5)) - 2
			case 1:
				age = int64(ttl+extra) + int64(r.Intn(5)) - 2
			case 2:
				age = int64(r.Intn(ttl + extra + 10))
			case 3:
				age = int64(r.Intn(3))
			case 4:
				age = int64(ttl+extra) + int64(1+r.Intn(100000))
			case 5:
				age = -int64(r.Intn(1000))
			}
			id := fmt.Sprintf("%v-%v", t0.Unix()-age, i)
			created[id] = t0.Unix() - age
			if r.Intn(5) > 0 {
				exp := t0.Add(time.Duration(r.Intn(200000)-60000) * time.Millisecond)
				if r.Intn(3) == 0 {
					exp = t0.Add(time.Hour)
				}
				tk := someTicket(r, exp)
				tk.Id = id
				before.tickets[id] = tk
				tc.Tickets.Store(id, proto.Clone(tk))
			}
			if r.Intn(2) == 0 {
				before.inactive[id] = true
				tc.InactiveSet.Store(id, true)
			}
			if r.Intn(2) == 0 {
				a := &pb.Assignment{Connection: id}
				before.assigns[id] = a
				tc.Assignments.Store(id, proto.Clone(a))
			}
		}
		// a reader: a ticket that was inactive is never seen active
		stop, done := make(chan bool), make(chan bool)
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
				}
				for id := range before.inactive {
					if _, ok := tc.Tickets.Load(id); ok {
						if _, in := tc.InactiveSet.Load(id); !in {
							if _, still := tc.Tickets.Load(id); still {
								fail(t, "C14.revived", "inactive ticket %v is seen active during expiration (lifetime %vs)", id, ttl)
								return
							}
						}
					}
				}
			}
		}()
		go tc.IncomingReplicationQueue(context.Background())
		ok := p.wait(2)
		if !ok {
			time.Sleep(200 * time.Millisecond)
		}
		p.end()
		after := snapshot(tc)
		t1 := time.Now()
		close(stop)
		<-done
		close(rep.ch)
		for id, c := range created {
			total++
			old := func(now time.Time, life int) bool { return now.Unix()-c > int64(life) }
			exp := func(now time.Time, tk *pb.Ticket) bool { return now.After(tk.GetExpirationTime().AsTime()) }
			what := fmt.Sprintf("id %v, age %vs, lifetime %vs, assignments %vs more, inactive %v", id, t0.Unix()-c, ttl, extra, before.inactive[id])
			if tk, had := before.tickets[id]; had {
				w0 := exp(t0, tk) || before.inactive[id] && old(t0, ttl)
				w1 := exp(t1, tk) || before.inactive[id] && old(t1, ttl)
				got, has := after.tickets[id]
				if w0 == w1 {
					judged++
					if w0 && has {
						fail(t, "C14.ticket-removed", "expired ticket kept: %v, expired %v ago", what, t0.Sub(tk.GetExpirationTime().AsTime()))
					}
					if !w0 && !has {
						fail(t, "C14.ticket-kept", "ticket removed: %v, expires in %v", what, tk.GetExpirationTime().AsTime().Sub(t0))
					}
				}
				if has && !proto.Equal(got, tk) {
					fail(t, "C14.unchanged", "ticket changed to %v: %v", got, what)
				}
				if has && before.inactive[id] && !after.inactive[id] {
					fail(t, "C14.revived", "ticket made active by expiration: %v", what)
				}
			} else if _, has := after.tickets[id]; has {
				fail(t, "C14.unchanged", "ticket appeared: %v", what)
			}
			if before.inactive[id] {
				if old(t0, ttl) == old(t1, ttl) {
					judged++
					if old(t0, ttl) == after.inactive[id] {
						fail(t, "C14.mark", "inactive mark present %v: %v", after.inactive[id], what)
					}
				}
			} else if after.inactive[id] {
				fail(t, "C14.unchanged", "inactive mark appeared: %v", what)
			}
			if a, had := before.assigns[id]; had {
				got, has := after.assigns[id]
				if old(t0, ttl+extra) == old(t1, ttl+extra) {
					judged++
					if old(t0, ttl+extra) == has {
						fail(t, "C14.assignment", "assignment present %v: %v", has, what)
					}
				}
				if has && !proto.Equal(got, a) {
					fail(t, "C14.unchanged", "assignment changed to %v: %v", got, what)
				}
			} else if _, has := after.assigns[id]; has {
				fail(t, "C14.unchanged", "assignment appeared: %v", what)
			}
		}
	}
	fmt.Printf("VERIF-STATS %v ids in caches of 60, %v tickets, marks and assignments judged after two or more expiration passes\n", total, judged)
}
