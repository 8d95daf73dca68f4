package main

// Replay of what InvokeMatchmakingFunctions sends to a matchmaking function: the real handler, a real gRPC connection over
// the loopback interface, and a matchmaking function that records the chunks it gets.

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"open-match.dev/core/internal/filter"
	pb "open-match.dev/pkg/pb/v2"
)

// mmf is a matchmaking function that records the chunks of each call and returns the given matches.
type mmf struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	mu      sync.Mutex
	calls   [][]*pb.ChunkedMmfRunRequest
	matches []*pb.Match
	fail    error
}

func (m *mmf) Run(s pb.MatchMakingFunctionService_RunServer) error {
	var chunks []*pb.ChunkedMmfRunRequest
	for n := 1; len(chunks) < n; {
		c, err := s.Recv()
		if err != nil {
			break
		}
		chunks = append(chunks, c)
		n = int(c.GetNumChunks())
	}
	m.mu.Lock()
	m.calls = append(m.calls, chunks)
	ms, e := m.matches, m.fail
	m.mu.Unlock()
	for _, x := range ms {
		if err := s.Send(&pb.StreamedMmfResponse{Match: x}); err != nil {
			return err
		}
	}
	return e
}

func (m *mmf) serve() (spec *pb.MatchmakingFunctionSpec, stop func(), err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	g := grpc.NewServer(grpc.MaxRecvMsgSize(64 << 20))
	pb.RegisterMatchMakingFunctionServiceServer(g, m)
	go g.Serve(l)
	return &pb.MatchmakingFunctionSpec{Name: "f", Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}, g.Stop, nil
}

// caller is the stream back to the matchmaker.
type caller struct {
	grpc.ServerStream
	mu  sync.Mutex
	got []*pb.Match
	on  func(*pb.Match)
}

func (c *caller) Send(r *pb.StreamedMmfResponse) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, r.GetMatch())
	if c.on != nil {
		c.on(r.GetMatch())
	}
	return nil
}
func (c *caller) Context() context.Context { return context.Background() }

// invoke runs one invocation and returns the chunks its function received.
func invoke(m *mmf, spec *pb.MatchmakingFunctionSpec, p *pb.Profile) ([]*pb.ChunkedMmfRunRequest, error) {
	m.mu.Lock()
	m.calls = nil
	m.mu.Unlock()
	res := make(chan error, 1)
	go func() {
		res <- (&grpcServer{}).InvokeMatchmakingFunctions(&pb.MmfRequest{Profile: p, Mmfs: []*pb.MatchmakingFunctionSpec{spec}}, &caller{})
	}()
	select {
	case err := <-res:
		if err != nil {
			return nil, err
		}
	case <-time.After(patience + 10*time.Second):
		return nil, fmt.Errorf("the call does not return")
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.calls) != 1 {
		return nil, fmt.Errorf("the function was called %d times", len(m.calls))
	}
	return m.calls[0], nil
}

func idsOf(ts []*pb.Ticket) (out []string) {
	for _, t := range ts {
		out = append(out, t.GetId())
	}
	return
}

func TestVerif_C15(t *testing.T) {
	r := seed()
	setup(nil)
	m := &mmf{}
	spec, stop, err := m.serve()
	if err != nil {
		fmt.Println("VERIF-STATS no loopback network:", err)
		return
	}
	defer stop()
	n := 0
	for i := 0; i < scale(60) && failed() < 20; i++ {
		setup(map[string]interface{}{"OM_MMF_TIMEOUT_SECS": 30})
		var want []string
		for k := r.Intn(40); k > 0; k-- {
			id := fmt.Sprintf("%d-%d", 1700000000+r.Intn(50), r.Intn(4))
			if _, ok := tc.Tickets.Load(id); ok {
				continue
			}
			tc.Tickets.Store(id, &pb.Ticket{Id: id})
			if r.Intn(3) > 0 {
				tc.InactiveSet.Store(id, true)
			} else {
				want = append(want, id)
			}
			if r.Intn(3) == 0 {
				tc.Assignments.Store(id, &pb.Assignment{Connection: "x"})
			}
		}
		for k := r.Intn(5); k > 0; k-- { // marks without a ticket
			tc.InactiveSet.Store(fmt.Sprintf("%d-%d", 1600000000+k, k), true)
		}
		chunks, err := invoke(m, spec, &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}})
		if err != nil {
			fail(t, "C15.invoke", "%v", err)
			continue
		}
		var got []string
		for _, c := range chunks {
			got = append(got, idsOf(c.GetProfile().GetPools()["all"].GetParticipants().GetTickets())...)
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, " ") != strings.Join(got, " ") {
			fail(t, "C15.offered", "active tickets %q, offered to the function %q", want, got)
		}
		n++
	}
	// many tickets
	for _, k := range []int{0, 1, 2, 1000, 100000} {
		setup(nil)
		want := map[string]bool{}
		for j := 0; j < k; j++ {
			id := fmt.Sprintf("1-%d", j)
			tc.Tickets.Store(id, &pb.Ticket{Id: id})
			if j%7 == 3 {
				tc.InactiveSet.Store(id, true)
			} else {
				want[id] = true
			}
		}
		got := map[string]int{}
		for _, x := range setDifference(&tc.Tickets, &tc.InactiveSet) {
			got[x.(*pb.Ticket).GetId()]++
		}
		for id := range want {
			if got[id] != 1 {
				fail(t, "C15.offered", "of %d tickets, active ticket %s is considered %d times", k, id, got[id])
				break
			}
		}
		if len(got) > len(want) {
			fail(t, "C15.offered", "of %d tickets, %d are active and %d are considered", k, len(want), len(got))
		}
	}
	// tickets that appear, then tickets that vanish, while the difference is taken; all are inactive from first to last
	setup(nil)
	for _, phase := range []string{"created", "removed"} {
		const workers, each = 3, 30000
		done := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < each; k++ {
					id := fmt.Sprintf("%d-%d", g, k)
					if phase == "created" {
						tc.InactiveSet.Store(id, true)
						tc.Tickets.Store(id, &pb.Ticket{Id: id})
					} else {
						tc.Tickets.Delete(id)
						tc.InactiveSet.Delete(id)
					}
					if k%50 == 0 {
						time.Sleep(10 * time.Microsecond)
					}
				}
			}(g)
		}
		go func() { wg.Wait(); close(done) }()
		for more := true; more; n++ {
			for _, x := range setDifference(&tc.Tickets, &tc.InactiveSet) {
				fail(t, "C15.inactive", "ticket %s was inactive from the moment it was stored until it was removed and is considered active (while tickets are %s)", x.(*pb.Ticket).GetId(), phase)
				break
			}
			select {
			case <-done:
				more = false
			default:
			}
		}
	}
	fmt.Printf("VERIF-STATS invocations: %d\n", n)
}

func big(r *rand.Rand, n int) map[string]*anypb.Any {
	if n == 0 {
		return nil
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	v, _ := anypb.New(wrapperspb.Bytes(b))
	return map[string]*anypb.Any{"x": v}
}

func TestVerif_C16(t *testing.T) {
	r := seed()
	setup(nil)
	m := &mmf{}
	spec, stop, err := m.serve()
	if err != nil {
		fmt.Println("VERIF-STATS no loopback network:", err)
		return
	}
	defer stop()
	n, maxChunks := 0, 0
	const limit = 4 * 1000 * 1000
	for i := 0; i < scale(40) && failed() < 20; i++ {
		setup(map[string]interface{}{"OM_MMF_TIMEOUT_SECS": 30})
		size := []int{0, 0, 300000, 900000, 1300000}[r.Intn(5)]
		cnt := 1 + r.Intn(8)
		if size == 0 {
			cnt = r.Intn(60)
		}
		var all []*pb.Ticket
		payload := big(r, size)
		for k := 0; k < cnt; k++ {
			id := fmt.Sprintf("%d-%d", 1700000000, k)
			tk := &pb.Ticket{Id: id, Extensions: payload, Attributes: &pb.Ticket_FilterableData{Tags: []string{[]string{"a", "b", "c"}[r.Intn(3)]}, DoubleArgs: map[string]float64{"x": float64(r.Intn(6))}, CreationTime: timestamppb.Now()}}
			if size > 0 && r.Intn(10) == 0 {
				tk.Extensions = big(r, 4200000)
			}
			tc.Tickets.Store(id, tk)
			if r.Intn(5) == 0 {
				tc.InactiveSet.Store(id, true)
			} else {
				all = append(all, tk)
			}
		}
		p := &pb.Profile{Name: []string{"p", "", "profile one"}[r.Intn(3)], Pools: map[string]*pb.Pool{}, Extensions: big(r, []int{0, 20, 1000}[r.Intn(3)])}
		for k := r.Intn(5); k > 0; k-- {
			name := []string{"a", "b", "c", "all", "", "none"}[r.Intn(6)]
			pool := &pb.Pool{Name: name}
			switch r.Intn(4) {
			case 0:
				pool.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: []string{"a", "b", "zz"}[r.Intn(3)]}}
			case 1:
				pool.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "x", Minimum: 1, Maximum: float64(r.Intn(6))}}
			case 2:
				if r.Intn(2) == 0 {
					pool.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Nanos: -1}}
				}
			}
			p.Pools[name] = pool
		}
		orig := proto.Clone(p).(*pb.Profile)
		chunks, err := invoke(m, spec, p)
		if err != nil {
			fail(t, "C16.invoke", "%v", err)
			continue
		}
		in := fmt.Sprintf("%d active tickets of about %d bytes, %d pools, %d chunks", len(all), size, len(p.Pools), len(chunks))
		if len(chunks) > maxChunks {
			maxChunks = len(chunks)
		}
		if len(chunks) == 0 {
			fail(t, "C16.number", "no chunk at all: %s", in)
			continue
		}
		got := map[string][]string{}
		for _, c := range chunks {
			if int(c.GetNumChunks()) != len(chunks) {
				fail(t, "C16.number", "%d chunks announced, %d sent: %s", c.GetNumChunks(), len(chunks), in)
			}
			if c.GetProfile().GetName() != orig.Name || !sameExt(c.GetProfile().GetExtensions(), orig.Extensions) {
				fail(t, "C16.profile", "a chunk names the profile %q, requested %q (or its extensions differ): %s", c.GetProfile().GetName(), orig.Name, in)
			}
			sum, k := 0, 0
			for name, pool := range c.GetProfile().GetPools() {
				for _, tk := range pool.GetParticipants().GetTickets() {
					sum += proto.Size(tk)
					k++
					got[name] = append(got[name], tk.GetId())
				}
				if v, _ := filter.ValidatePoolFilters(orig.Pools[name]); orig.Pools[name] == nil || !v {
					fail(t, "C16.pools", "pool %q is sent though it is not a valid pool of the profile: %s", name, in)
				}
			}
			if k > 1 && sum > limit {
				fail(t, "C16.size", "a chunk holds %d tickets of %d bytes together: %s", k, sum, in)
			}
		}
		order := []string{} // the common order of all pools, as far as it is known
		for name, pool := range orig.Pools {
			if v, _ := filter.ValidatePoolFilters(pool); !v {
				continue
			}
			var want []string
			for _, tk := range all {
				if filter.In(pool, tk) {
					want = append(want, tk.Id)
				}
			}
			a, b := append([]string{}, want...), append([]string{}, got[name]...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, " ") != strings.Join(b, " ") {
				fail(t, "C16.participants", "pool %q: its filters take %q, the chunks hold %q: %s", name, a, b, in)
			}
			if len(got[name]) > len(order) {
				order = got[name]
			}
		}
		at := map[string]int{}
		for i, id := range order {
			at[id] = i
		}
		for name, ids := range got {
			last := -1
			for _, id := range ids {
				if p, ok := at[id]; ok {
					if p < last {
						fail(t, "C16.order", "pool %q lists its participants in another order than the longest pool: %s", name, in)
						break
					}
					last = p
				}
			}
		}
		n++
	}
	fmt.Printf("VERIF-STATS invocations: %d, most chunks: %d\n", n, maxChunks)
}

func sameExt(a, b map[string]*anypb.Any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !proto.Equal(v, b[k]) {
			return false
		}
	}
	return true
}

var _ = io.EOF
