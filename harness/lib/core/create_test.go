package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strconv"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

func nanos(t *timestamppb.Timestamp) (int64, int32) { return t.GetSeconds(), t.GetNanos() }

// lessEq compares two points in time.
func lessEq(s1 int64, n1 int32, s2 int64, n2 int32) bool { return s1 < s2 || s1 == s2 && n1 <= n2 }

func TestVerif_C04(t *testing.T) {
	r := seed()
	n := 0
	for i := 0; i < scale(3000); i++ {
		ttl := []int{600, 0, 1, 30, 3600, 86400}[r.Intn(6)]
		setup(map[string]interface{}{"OM_CACHE_TICKET_TTL_SECS": ttl})
		stop := make(chan struct{})
		var got []store.StateUpdate
		done := drain(tc.UpRequests, 1, stop, func(b []*cache.UpdateRequest) {
			got = append(got, b[0].Update)
			reply(b[0], &store.StateResponse{Result: "1-1"})
		})
		now := time.Now()
		bad := func() *timestamppb.Timestamp {
			return []*timestamppb.Timestamp{nil, {Seconds: now.Unix(), Nanos: -1}, {Seconds: now.Unix(), Nanos: 1000000000}, {Seconds: -62135596801}, {Seconds: 253402300800}, {Seconds: math.MinInt64}}[r.Intn(6)]
		}
		tk := &pb.Ticket{Id: []string{"", "", "mine", "7-7"}[r.Intn(4)]}
		var cr *timestamppb.Timestamp
		switch r.Intn(4) {
		case 0:
			cr = bad()
		case 1:
			cr = timestamppb.New(now.Add(time.Duration(r.Intn(4000)-2000) * time.Second))
		case 2:
			cr = &timestamppb.Timestamp{Seconds: int64(r.Intn(3)), Nanos: int32(r.Intn(3)) * 499999999}
		case 3:
			cr = &timestamppb.Timestamp{Seconds: []int64{-62135596800, -1, 0, 1700000000, 253402200000}[r.Intn(5)], Nanos: []int32{0, 1, 999999999}[r.Intn(3)]}
		}
		var ex *timestamppb.Timestamp
		base := cr
		if !cr.IsValid() {
			base = timestamppb.New(now)
		}
		switch r.Intn(5) {
		case 0:
			ex = bad()
		case 1: // around the limit
			ex = timestamppb.New(base.AsTime().Add(time.Duration(ttl)*time.Second + time.Duration(r.Intn(3)-1)))
		case 2:
			ex = timestamppb.New(base.AsTime().Add(time.Duration(r.Intn(2*ttl+2)) * time.Second))
		case 3:
			ex = timestamppb.New(base.AsTime().Add(-time.Duration(r.Intn(5)) * time.Second))
		case 4:
			ex = &timestamppb.Timestamp{Seconds: []int64{0, now.Unix() + 100, now.Unix() + 100000, 253402300799}[r.Intn(4)]}
		}
		tk.ExpirationTime = ex
		if r.Intn(12) > 0 {
			tk.Attributes = &pb.Ticket_FilterableData{CreationTime: cr}
			for j := r.Intn(4); j > 0; j-- {
				tk.Attributes.Tags = append(tk.Attributes.Tags, []string{"", "a", "b", "c", "a"}[r.Intn(5)])
			}
			for j := r.Intn(4); j > 0; j-- {
				if tk.Attributes.StringArgs == nil {
					tk.Attributes.StringArgs = map[string]string{}
				}
				tk.Attributes.StringArgs[[]string{"", "k", "l", "m"}[r.Intn(4)]] = []string{"", "x", "y"}[r.Intn(3)]
			}
			for j := r.Intn(4); j > 0; j-- {
				if tk.Attributes.DoubleArgs == nil {
					tk.Attributes.DoubleArgs = map[string]float64{}
				}
				tk.Attributes.DoubleArgs[[]string{"", "k", "l", "m"}[r.Intn(4)]] = []float64{0, -1.5, math.Inf(1), math.NaN(), math.MaxFloat64}[r.Intn(5)]
			}
		} else {
			cr = nil
		}
		for j := r.Intn(3); j > 0; j-- {
			if tk.Extensions == nil {
				tk.Extensions = map[string]*anypb.Any{}
			}
			a, _ := anypb.New(wrapperspb.String(fmt.Sprint(r.Intn(5))))
			tk.Extensions[[]string{"", "e", "f"}[r.Intn(3)]] = a
		}
		sent := proto.Clone(tk).(*pb.Ticket)
		before := timestamppb.Now()
		_, err := (&grpcServer{}).CreateTicket(context.Background(), &pb.CreateTicketRequest{Ticket: tk})
		after := timestamppb.Now()
		close(stop)
		<-done
		if len(got) == 0 {
			if err == nil {
				fail(t, "C04.lost", "no update was replicated for %s and no error returned", show(sent))
			}
			continue
		}
		rec := &pb.Ticket{}
		if e := proto.Unmarshal([]byte(got[0].Value), rec); e != nil {
			fail(t, "C04.encoding", "replicated value of %s does not decode: %v", show(sent), e)
			continue
		}
		n++
		in := fmt.Sprintf("ttl=%d ticket=%s replicated=%s", ttl, show(sent), show(rec))
		if rec.Id != "" {
			fail(t, "C04.noid", "client-chosen id replicated: %s", in)
		}
		strip := func(x *pb.Ticket) *pb.Ticket {
			y := &pb.Ticket{Extensions: x.GetExtensions(), Attributes: &pb.Ticket_FilterableData{Tags: x.GetAttributes().GetTags(), StringArgs: x.GetAttributes().GetStringArgs(), DoubleArgs: x.GetAttributes().GetDoubleArgs()}}
			return y
		}
		if !proto.Equal(strip(rec), strip(sent)) {
			fail(t, "C04.content", "replicated content differs from the submitted one: %s", in)
		}
		rc := rec.GetAttributes().GetCreationTime()
		if cr.IsValid() {
			if !proto.Equal(rc, cr) {
				fail(t, "C04.created", "valid creation time not kept: %s", in)
				continue
			}
		} else if bs, bn := nanos(before); rc == nil || !rc.IsValid() || !lessEq(bs, bn, rc.Seconds, rc.Nanos) || !lessEq(rc.Seconds, rc.Nanos, after.Seconds, after.Nanos) {
			fail(t, "C04.creatednow", "creation time is not the current time: %s", in)
			continue
		}
		limS, limN := rc.Seconds+int64(ttl), rc.Nanos
		es, en := nanos(rec.GetExpirationTime())
		if ex.IsValid() && lessEq(ex.Seconds, ex.Nanos, limS, limN) {
			if es != ex.Seconds || en != ex.Nanos {
				fail(t, "C04.expiresasked", "allowed expiration time not kept: %s", in)
			}
		} else if es != limS || en != limN {
			fail(t, "C04.expiresdefault", "expiration time is not creation time plus lifetime: %s", in)
		}
	}
	fmt.Printf("VERIF-STATS tickets created and decoded: %d\n", n)
}

func show(x *pb.Ticket) string {
	b, err := protojson.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x.String())
	}
	return string(b)
}

func TestVerif_C05(t *testing.T) {
	r := seed()
	n := 0
	for i := 0; i < scale(60); i++ {
		setup(nil)
		callers := 1 + r.Intn(24)
		batch := 1 + r.Intn(callers)
		cancelled := r.Intn(3) == 0
		type rec struct{ tag, id, err string }
		var mu sync.Mutex
		answered := map[string][]string{} // tag of the ticket -> answers given
		stop := make(chan struct{})
		cnt := 0
		hold := time.Duration(r.Intn(3)) * time.Millisecond
		var late sync.WaitGroup
		perm := r.Int63()
		done := drain(tc.UpRequests, batch, stop, func(b []*cache.UpdateRequest) {
			perm = perm*6364136223846793005 + 1442695040888963407
			off := int(uint64(perm)>>33) % len(b)
			for k := range b {
				q := b[(k+off)%len(b)]
				x := &pb.Ticket{}
				proto.Unmarshal([]byte(q.Update.Value), x)
				tag := ""
				if len(x.GetAttributes().GetTags()) > 0 {
					tag = x.Attributes.Tags[0]
				}
				cnt++
				a := &store.StateResponse{Result: fmt.Sprintf("%d-%d", i, cnt)}
				if (cnt+i)%3 == 0 {
					a.Err = errors.New("refused " + a.Result)
				}
				mu.Lock()
				answered[tag] = append(answered[tag], a.Result)
				mu.Unlock()
				if q.Update.Cmd != store.Ticket || q.Update.Key != "" {
					fail(t, "C05.command", "the request replicated command %d with key %q", q.Update.Cmd, q.Update.Key)
				}
				late.Add(1)
				go func() {
					defer late.Done()
					time.Sleep(hold)
					if p := reply(q, a); p != "" {
						fail(t, "C05.taken", "the answer of the replication layer was not taken (%s): callers=%d cancelled=%v", p, callers, cancelled)
					}
				}()
			}
		})
		var wg sync.WaitGroup
		for c := 0; c < callers; c++ {
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx := context.Background()
				if cancelled {
					cc, cancel := context.WithCancel(ctx)
					if c%2 == 0 {
						cancel()
					} else {
						go func() { time.Sleep(200 * time.Microsecond); cancel() }()
					}
					ctx = cc
				}
				tag := "t" + strconv.Itoa(c)
				resp, err := (&grpcServer{}).CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{tag}}}})
				mu.Lock()
				got := answered[tag]
				mu.Unlock()
				in := fmt.Sprintf("callers=%d batch=%d cancelled=%v response=%q err=%v answers to this request=%v", callers, batch, cancelled, resp.GetTicketId(), err, got)
				if len(got) != 1 {
					fail(t, "C05.once", "a request was replicated %d times: %s", len(got), in)
					return
				}
				if resp.GetTicketId() != got[0] {
					fail(t, "C05.own", "the id is not the one answered to this request: %s", in)
				}
				var k, m int
				fmt.Sscanf(got[0], "%d-%d", &k, &m)
				if want := (m+i)%3 == 0; want != (err != nil) {
					fail(t, "C05.error", "the error is not the one answered to this request: %s", in)
				} else if want && err.Error() != "refused "+got[0] {
					fail(t, "C05.error", "the error is not the one answered to this request: %s", in)
				}
			}()
		}
		ok := make(chan struct{})
		go func() { wg.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(patience):
			fail(t, "C05.stuck", "a create call does not return: callers=%d", callers)
			return
		}
		late.Wait()
		time.Sleep(time.Millisecond)
		close(stop)
		<-done
		if cnt != callers {
			fail(t, "C05.once", "%d calls replicated %d updates", callers, cnt)
		}
		n += callers
		// no ticket
		setup(nil)
		stop = make(chan struct{})
		cnt = 0
		done = drain(tc.UpRequests, 1, stop, func(b []*cache.UpdateRequest) {
			cnt++
			reply(b[0], &store.StateResponse{Result: "1-1"})
		})
		for _, q := range []*pb.CreateTicketRequest{nil, {}} {
			if _, err := (&grpcServer{}).CreateTicket(context.Background(), q); status.Code(err) != codes.InvalidArgument {
				fail(t, "C05.refused", "a request without a ticket was answered with %v", err)
			}
		}
		time.Sleep(time.Millisecond)
		close(stop)
		<-done
		if cnt != 0 {
			fail(t, "C05.refused", "a request without a ticket replicated %d updates", cnt)
		}
	}
	fmt.Printf("VERIF-STATS create calls: %d\n", n)
}
