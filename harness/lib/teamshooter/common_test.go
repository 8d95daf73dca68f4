package teamshooter

// Replay of the contract of a matchmaking function on the real code: the stream is a stand-in that hands out the chunks
// of a request and records what is sent, at the moment it is sent.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

var errStream = errors.New("the stream broke")

func seed() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// scale multiplies the number of cases in a thorough run.
func scale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func init() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
}

var nfail = map[string]int{}

func fail(t *testing.T, key, f string, a ...interface{}) {
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	t.Fail()
}

// sent is what one streamed match looked like when it was sent.
type sent struct {
	match   *pb.Match
	rosters [][]string // ticket ids, rosters in the order of their names
}

type stream struct {
	grpc.ServerStream
	chunks []*pb.ChunkedMmfRunRequest
	next   int
	end    error
	failAt int // this Send fails (counted from 1)
	nsend  int
	got    []sent
}

func (s *stream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if s.next >= len(s.chunks) {
		if s.end == nil {
			return nil, io.EOF
		}
		return nil, s.end
	}
	s.next++
	return s.chunks[s.next-1], nil
}

func (s *stream) Send(r *pb.StreamedMmfResponse) error {
	s.nsend++
	if s.nsend == s.failAt {
		return errStream
	}
	m := proto.Clone(r.GetMatch()).(*pb.Match)
	var names []string
	for n := range m.GetRosters() {
		names = append(names, n)
	}
	sort.Strings(names)
	x := sent{match: m}
	for _, n := range names {
		ids := []string{}
		for _, t := range m.Rosters[n].GetTickets() {
			ids = append(ids, t.GetId())
		}
		x.rosters = append(x.rosters, ids)
	}
	s.got = append(s.got, x)
	return nil
}

// ticket i of a pool; every third one is larger than its neighbours.
func ticket(pool string, i int) *pb.Ticket {
	t := &pb.Ticket{Id: fmt.Sprintf("%s/%d", pool, i)}
	if i%3 == 0 {
		t.Attributes = &pb.Ticket_FilterableData{Tags: []string{pool, strconv.Itoa(i)}}
	}
	return t
}

// request spreads the pools over n chunks; cut decides the sizes.
func request(name string, pools map[string]int, n int, r *rand.Rand) (chunks []*pb.ChunkedMmfRunRequest, all map[string]*pb.Ticket) {
	all = map[string]*pb.Ticket{}
	for c := 0; c < n; c++ {
		chunks = append(chunks, &pb.ChunkedMmfRunRequest{NumChunks: int32(n), Profile: &pb.Profile{Name: name, Pools: map[string]*pb.Pool{}}})
	}
	var names []string
	for p := range pools {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		k := pools[p]
		at := 0
		for c := 0; c < n; c++ {
			to := k
			if c < n-1 {
				to = at + r.Intn(k-at+1)
				if r.Intn(4) == 0 {
					to = at
				}
			}
			if to == at && r.Intn(3) == 0 && c < n-1 {
				continue // this chunk does not mention the pool
			}
			pool := &pb.Pool{Name: p, Participants: &pb.Roster{Name: p}}
			for ; at < to; at++ {
				t := ticket(p, at)
				all[t.Id] = t
				pool.Participants.Tickets = append(pool.Participants.Tickets, t)
			}
			chunks[c].Profile.Pools[p] = pool
		}
	}
	return
}

// call runs the function; it reports a crash or a call that does not come back.
func call(s *stream) (err error, problem string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				problem = fmt.Sprint("panic: ", e)
			}
		}()
		err = (&MmfServer{}).Run(s)
	}()
	select {
	case <-done:
		return err, problem
	case <-time.After(20 * time.Second):
		return nil, "does not come back"
	}
}

// common checks that hold for every streamed match: the tickets are those of the request, as they are there.
func genuine(t *testing.T, what string, s *stream, all map[string]*pb.Ticket) {
	for i, x := range s.got {
		for _, ro := range x.match.GetRosters() {
			for _, ti := range ro.GetTickets() {
				w := all[ti.GetId()]
				if w == nil {
					fail(t, "invented", "%s: match %d holds ticket %q, which is not in the request", what, i, ti.GetId())
				} else if !proto.Equal(w, ti) {
					fail(t, "altered", "%s: match %d holds ticket %q altered", what, i, ti.GetId())
				}
			}
		}
	}
}
