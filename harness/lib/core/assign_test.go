package main

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

func TestVerif_C19(t *testing.T) {
	r := seed()
	n := 0
	for i := 0; i < scale(300) && failed() < 20; i++ {
		setup(nil)
		var ids, want []string
		size := r.Intn(8)
		if i%20 == 0 {
			size = 50 + r.Intn(300)
		}
		for len(ids) < size {
			switch r.Intn(4) {
			case 0:
				ids = append(ids, "")
			case 1:
				ids = append(ids, []string{"x", " ", "17-1", "-", "17-1\n"}[r.Intn(5)])
			default:
				ids = append(ids, fmt.Sprintf("%d-%d", r.Intn(6), r.Intn(3)))
			}
		}
		as := &pb.Assignment{}
		if r.Intn(4) > 0 {
			as.Connection = []string{"1.2.3.4:56", "x", "host:1/é"}[r.Intn(3)]
		}
		if r.Intn(3) == 0 {
			v, _ := anypb.New(wrapperspb.Int64(int64(r.Intn(9))))
			as.Extensions = map[string]*anypb.Any{"a": v}
		}
		if r.Intn(6) == 0 {
			as = nil
		}
		req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Name: "r", Assignment: as}}
		for _, id := range ids {
			req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
			if id != "" {
				want = append(want, id)
			}
		}
		if r.Intn(12) == 0 {
			req.AssignmentRoster = nil
		}
		for _, id := range ids { // what the cache knows about these tickets must not matter
			switch r.Intn(5) {
			case 0:
				tc.Assignments.Store(id, &pb.Assignment{Connection: "old"})
			case 1:
				tc.Tickets.Store(id, &pb.Ticket{Id: id})
			case 2:
				tc.InactiveSet.Store(id, true)
			}
		}
		refused := req.AssignmentRoster == nil || as == nil
		if refused {
			want = nil
		}
		orig := proto.Clone(as).(*pb.Assignment)
		batch := 1 + r.Intn(size+3)
		reverse := r.Intn(2) == 0
		fails := r.Intn(3) == 0
		hold := i%10 == 1
		in := fmt.Sprintf("roster=%v assignment=%v ids=%s batch=%d failing=%v", req.AssignmentRoster != nil, orig, clip(ids), batch, fails)
		var got []store.StateUpdate
		var answered int32
		stop := make(chan struct{})
		done := drain(tc.UpRequests, batch, stop, func(b []*cache.UpdateRequest) {
			for _, q := range b {
				got = append(got, q.Update)
			}
			for k := range b {
				j := k
				if reverse {
					j = len(b) - 1 - k
				}
				if hold {
					time.Sleep(3 * time.Millisecond)
				}
				a := &store.StateResponse{Result: "9-9"}
				if fails && (j+len(got))%2 == 0 {
					a = &store.StateResponse{Result: b[j].Update.Key, Err: errors.New("not written")}
				}
				atomic.AddInt32(&answered, 1)
				if p := reply(b[j], a); p != "" {
					fail(t, "C19.waited", "the call did not wait for one of its answers (%s): %s", p, in)
				}
			}
		})
		ctx, cancel := context.WithCancel(context.Background())
		if r.Intn(5) == 0 {
			cancel()
		}
		type result struct {
			err error
			n   int32
		}
		res := make(chan result, 1)
		go func() {
			_, err := (&grpcServer{}).CreateAssignments(ctx, req)
			res <- result{err, atomic.LoadInt32(&answered)}
		}()
		var x result
		select {
		case x = <-res:
		case <-time.After(patience + 5*time.Second):
			fail(t, "C19.stuck", "the call does not return: %s", in)
			return
		}
		time.Sleep(200 * time.Microsecond)
		close(stop)
		<-done
		cancel()
		n++
		if int(x.n) < len(want) {
			fail(t, "C19.waited", "the call returned after %d of %d answers: %s", x.n, len(want), in)
		}
		if refused && status.Code(x.err) != codes.InvalidArgument {
			fail(t, "C19.refused", "an incomplete request was not refused: err=%v: %s", x.err, in)
		}
		ok := len(got) == len(want)
		for k := 0; ok && k < len(got); k++ {
			a := &pb.Assignment{}
			ok = got[k].Key == want[k] && got[k].Cmd == store.Assign && proto.Unmarshal([]byte(got[k].Value), a) == nil && proto.Equal(a, orig)
		}
		if !ok {
			fail(t, "C19.each", "replicated %v, expected an assignment for %s: %s", clipU(got), clip(want), in)
		}
	}
	fmt.Printf("VERIF-STATS assignment calls: %d\n", n)
}
