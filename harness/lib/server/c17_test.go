package server

// Replay of the contract of GetChunkedRequest on the real code: the stream is a stand-in that hands out chunks and then fails.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
)

var errStream = errors.New("the stream broke")

func seed() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

func scale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

var nfail = map[string]int{}

func fail(t *testing.T, key, f string, a ...interface{}) {
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	t.Fail()
}

type stream struct {
	grpc.ServerStream
	chunks []*pb.ChunkedMmfRunRequest
	next   int
	end    error
}

func (s *stream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if s.next >= len(s.chunks) {
		s.next++
		if s.next > len(s.chunks)+1000 {
			panic("the reader goes on reading after the stream failed")
		}
		return nil, s.end
	}
	s.next++
	return proto.Clone(s.chunks[s.next-1]).(*pb.ChunkedMmfRunRequest), nil
}

func (s *stream) Send(r *pb.StreamedMmfResponse) error { return nil }

func TestVerif_C17(t *testing.T) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	r := seed()
	cases, failing := 0, 0
	ext := func(v string) map[string]*anypb.Any {
		a, _ := anypb.New(&wrapperspb.StringValue{Value: v})
		return map[string]*anypb.Any{"k": a}
	}
	// announce: what each chunk says the number of chunks is; give: how many of them arrive before the stream fails.
	one := func(chunks []*pb.ChunkedMmfRunRequest, n, give int, end error) {
		cases++
		s := &stream{chunks: chunks[:give], end: end}
		var got *pb.Profile
		var err error
		problem := ""
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					problem = fmt.Sprint("panic: ", e)
				}
			}()
			got, err = GetChunkedRequest(s)
		}()
		what := func() string {
			x := fmt.Sprintf("%d of %d chunks arrive", give, n)
			for _, c := range chunks {
				x += " ["
				for p, q := range c.GetProfile().GetPools() {
					x += fmt.Sprintf("%s:%d", p, len(q.GetParticipants().GetTickets()))
					if q.GetParticipants() == nil {
						x += "(nil)"
					}
					x += " "
				}
				x += "]"
			}
			return x
		}
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			problem = "does not come back"
		}
		if problem != "" {
			fail(t, "crash", "%s: %s", what(), problem)
			return
		}
		if give < n {
			failing++
			if err == nil {
				fail(t, "noerror", "%s: no error", what())
			}
			if got != nil {
				fail(t, "partial", "%s: a profile came back", what())
			}
			return
		}
		if err != nil || got == nil {
			fail(t, "error", "%s: %v", what(), err)
			return
		}
		if s.next != n {
			fail(t, "reads", "%s: %d messages were read", what(), s.next)
		}
		last := chunks[n-1].GetProfile()
		if got.GetName() != last.GetName() {
			fail(t, "name", "%s: name %q, want %q", what(), got.GetName(), last.GetName())
		}
		if !proto.Equal(&pb.Profile{Extensions: got.GetExtensions()}, &pb.Profile{Extensions: last.GetExtensions()}) {
			fail(t, "extensions", "%s: extensions %v, want %v", what(), got.GetExtensions(), last.GetExtensions())
		}
		want := map[string][]*pb.Ticket{}
		firsts := map[string]*pb.Pool{}
		for _, c := range chunks[:n] {
			for p, q := range c.GetProfile().GetPools() {
				want[p] = append(want[p], q.GetParticipants().GetTickets()...)
				if firsts[p] == nil {
					firsts[p] = q
				}
			}
		}
		for p := range got.GetPools() {
			if firsts[p] == nil {
				fail(t, "extrapool", "%s: pool %q comes from nowhere", what(), p)
			}
		}
		for p, w := range want {
			q, ok := got.GetPools()[p]
			if !ok {
				fail(t, "nopool", "%s: pool %q is missing", what(), p)
				continue
			}
			g := q.GetParticipants().GetTickets()
			if len(g) != len(w) {
				fail(t, "participants", "%s: pool %q has %d participants, want %d", what(), p, len(g), len(w))
				continue
			}
			for i := range w {
				if !proto.Equal(w[i], g[i]) {
					fail(t, "order", "%s: pool %q holds %v at position %d, want %v", what(), p, g[i], i, w[i])
					break
				}
			}
			a, b := proto.Clone(q).(*pb.Pool), proto.Clone(firsts[p]).(*pb.Pool)
			a.Participants, b.Participants = nil, nil
			if !proto.Equal(a, b) {
				fail(t, "pool", "%s: pool %q is %v, want %v", what(), p, a, b)
			}
		}
	}
	names := []string{"a", "b", "c", "", "all"}
	build := func(n int) []*pb.ChunkedMmfRunRequest {
		var cs []*pb.ChunkedMmfRunRequest
		id := 0
		for c := 0; c < n; c++ {
			p := &pb.Profile{Name: "profile", Extensions: ext("x"), Pools: map[string]*pb.Pool{}}
			for _, nm := range names {
				k := r.Intn(6)
				if k == 0 {
					continue
				}
				q := &pb.Pool{Name: nm, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: nm + "!"}}, Extensions: ext(nm)}
				if k > 1 {
					q.Participants = &pb.Roster{}
				}
				for ; k > 2; k-- {
					id++
					q.Participants.Tickets = append(q.Participants.Tickets, &pb.Ticket{Id: strconv.Itoa(id)})
				}
				p.Pools[nm] = q
			}
			if r.Intn(12) == 0 && c < n-1 {
				p = nil
			}
			cs = append(cs, &pb.ChunkedMmfRunRequest{NumChunks: int32(n), Profile: p})
		}
		return cs
	}
	for i := 0; i < scale(400); i++ {
		n := 1 + r.Intn(7)
		cs := build(n)
		one(cs, n, n, io.EOF)
		one(cs, n, n, errStream)
		for g := 0; g < n; g++ {
			one(cs, n, g, []error{io.EOF, errStream}[r.Intn(2)])
		}
		more := append(append([]*pb.ChunkedMmfRunRequest{}, cs...), build(2)...)
		one(more, n, len(more), io.EOF)
	}
	for _, n := range []int{17, 100, 1000} {
		cs := build(n)
		one(cs, n, n, io.EOF)
		one(cs, n, n-1, io.EOF)
	}
	// many participants in one pool, growing through every chunk
	var cs []*pb.ChunkedMmfRunRequest
	id := 0
	for c := 0; c < 40; c++ {
		q := &pb.Pool{Name: "a", Participants: &pb.Roster{}}
		for k := 0; k < c*7%50; k++ {
			id++
			q.Participants.Tickets = append(q.Participants.Tickets, &pb.Ticket{Id: strconv.Itoa(id)})
		}
		cs = append(cs, &pb.ChunkedMmfRunRequest{NumChunks: 40, Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"a": q}}})
	}
	one(cs, 40, 40, io.EOF)
	fmt.Printf("VERIF-STATS %d requests, %d of them cut short\n", cases, failing)
}
