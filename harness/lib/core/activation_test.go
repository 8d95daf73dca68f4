package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

func activation(cmd int, ctx context.Context, ids []string) error {
	if cmd == store.Activate {
		_, err := (&grpcServer{}).ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		return err
	}
	_, err := (&grpcServer{}).DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
	return err
}

func manyIds(n int) (ids []string) {
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprintf("%d-%d", 1700000000+i/3, i))
	}
	return
}

func TestVerif_C06(t *testing.T) {
	n := 0
	for _, max := range []int{1, 2, 3, 10, 500} {
		for _, cmd := range []int{store.Activate, store.Deactivate} {
			for _, size := range []int{0, 1, 2, max - 1, max, max + 1, max + 2, 2 * max, 2*max + 1, 501} {
				for _, kind := range []string{"distinct", "repeated", "malformed"} {
					setup(map[string]interface{}{"OM_MAX_STATE_UPDATES_PER_CALL": max})
					ids := manyIds(size)
					for i := range ids {
						switch kind {
						case "repeated":
							ids[i] = ids[0]
						case "malformed":
							if i%2 == 0 {
								ids[i] = "no"
							}
						}
					}
					stop := make(chan struct{})
					cnt := 0
					done := drain(tc.UpRequests, 50, stop, func(b []*cache.UpdateRequest) {
						for _, q := range b {
							cnt++
							reply(q, &store.StateResponse{Result: q.Update.Key})
						}
					})
					err := activation(cmd, context.Background(), ids)
					time.Sleep(200 * time.Microsecond)
					close(stop)
					<-done
					in := fmt.Sprintf("command=%d maximum=%d ids=%d (%s): err=%v, %d updates replicated", cmd, max, size, kind, err, cnt)
					if size == 0 || size > max {
						if status.Code(err) != codes.InvalidArgument || cnt != 0 {
							fail(t, "C06.refused", "a request outside the limits was not refused: %s", in)
						}
					} else if err != nil {
						fail(t, "C06.accepted", "a request within the limits was refused: %s", in)
					}
					n++
				}
			}
		}
	}
	fmt.Printf("VERIF-STATS activation calls: %d\n", n)
}

func TestVerif_C07(t *testing.T) {
	r := seed()
	n := 0
	wf := regexp.MustCompile(pattern)
	pool := []string{"1-1", "1-2", "2-1", "17-0", "1700000000-5", "", "-", "1", "1-", "-1", "x-1", "1-1-1", " 1-1", "1-1 ", "abc", "１-1"}
	for i := 0; i < scale(400) && failed() < 20; i++ {
		setup(nil)
		cmd := []int{store.Activate, store.Deactivate}[r.Intn(2)]
		var ids, want []string
		size := 1 + r.Intn(12)
		if i%20 == 0 {
			size = 100 + r.Intn(400)
		}
		for len(ids) < size {
			if r.Intn(3) == 0 || i%3 == 0 {
				ids = append(ids, fmt.Sprintf("%d-%d", r.Intn(50), r.Intn(3)))
			} else {
				ids = append(ids, pool[r.Intn(len(pool))])
			}
		}
		for _, id := range ids {
			if wf.MatchString(id) {
				want = append(want, id)
			}
		}
		for _, id := range ids { // what the cache knows about these tickets must not matter
			switch r.Intn(5) {
			case 0:
				tc.Assignments.Store(id, &pb.Assignment{Connection: "old"})
			case 1:
				tc.Tickets.Store(id, &pb.Ticket{Id: id})
			case 2:
				tc.InactiveSet.Store(id, true)
			}
		}
		nbad := 0
		isbad := map[int]bool{}
		if len(want) > 0 {
			switch r.Intn(4) {
			case 0:
				isbad[r.Intn(len(want))] = true
			case 1:
				isbad[len(want)-1] = true
			case 2:
				for k := range want {
					isbad[k] = r.Intn(2) == 0
				}
			}
		}
		for _, b := range isbad {
			if b {
				nbad++
			}
		}
		emptyKey := r.Intn(4) == 0
		batch := 1 + r.Intn(size+3)
		reverse := r.Intn(2) == 0
		var got []store.StateUpdate
		var answered int32
		stop := make(chan struct{})
		holdLast := i%10 == 1
		in := func() string {
			return fmt.Sprintf("command=%d ids=%q batch=%d failing answers=%v", cmd, clip(ids), batch, isbad)
		}
		done := drain(tc.UpRequests, batch, stop, func(b []*cache.UpdateRequest) {
			first := len(got)
			for _, q := range b {
				got = append(got, q.Update)
			}
			if holdLast {
				time.Sleep(2 * time.Millisecond)
			}
			for k := range b {
				j := k
				if reverse {
					j = len(b) - 1 - k
				}
				q := b[j]
				a := &store.StateResponse{Result: "9-9"}
				if isbad[first+j] {
					a.Err = errors.New("not written")
					a.Result = q.Update.Key
					if emptyKey {
						a.Result = ""
					}
				}
				if p := reply(q, a); p != "" {
					fail(t, "C07.waited", "the call did not wait for one of its answers (%s): %s", p, in())
				}
				atomic.AddInt32(&answered, 1)
			}
		})
		ctx, cancel := context.WithCancel(context.Background())
		if r.Intn(5) == 0 {
			cancel()
		}
		res := make(chan error, 1)
		var atEnd int32
		go func() {
			err := activation(cmd, ctx, ids)
			atEnd = atomic.LoadInt32(&answered)
			res <- err
		}()
		var err error
		select {
		case err = <-res:
		case <-time.After(patience + 5*time.Second):
			fail(t, "C07.stuck", "the call does not return: %s", in())
			return
		}
		time.Sleep(200 * time.Microsecond)
		close(stop)
		<-done
		cancel()
		n++
		// the call may return between the last answer and the counter, no earlier
		if int(atEnd) < len(want)-1 {
			fail(t, "C07.waited", "the call returned after %d of %d answers: %s", atEnd, len(want), in())
		}
		okAll := len(got) == len(want)
		for k := 0; okAll && k < len(got); k++ {
			okAll = got[k].Key == want[k] && got[k].Cmd == cmd
		}
		if !okAll {
			fail(t, "C07.each", "replicated %v, expected command %d for %q: %s", clipU(got), cmd, clip(want), in())
		}
		if (err == nil) != (nbad == 0) {
			fail(t, "C07.success", "err=%v with %d failing answers: %s", err, nbad, in())
		}
	}
	fmt.Printf("VERIF-STATS activation calls: %d\n", n)
}

func clip(x []string) string {
	if len(x) > 14 {
		return fmt.Sprintf("%q... (%d)", strings.Join(x[:14], " "), len(x))
	}
	return fmt.Sprintf("%q", x)
}
func clipU(x []store.StateUpdate) string {
	if len(x) > 14 {
		return fmt.Sprintf("%v... (%d)", x[:14], len(x))
	}
	return fmt.Sprintf("%v", x)
}
