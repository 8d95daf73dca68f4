package memoryReplicator

// Replay of the contracts of the in-memory replicator on the real code.

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
)

var nfail = map[string]int{}

func fail(t *testing.T, key, f string, a ...interface{}) {
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	t.Fail()
}

func TestVerif_C12(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(n))
	logrus.SetOutput(io.Discard)
	cfg := viper.New()
	cfg.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 150)
	rc := New(cfg)
	if p := rc.GetReplIdValidationRegex(); p == "" {
		fail(t, "C12.pattern", "no id pattern")
	}
	issued := map[string]int{}
	total := 0
	end := time.Now().Add(3500 * time.Millisecond)
	for round := 0; round < 8 || time.Now().Before(end); round++ {
		var want []store.StateUpdate
		var batches [][]*store.StateUpdate
		for b := 1 + r.Intn(4); b > 0; b-- {
			var us []*store.StateUpdate
			for k := r.Intn(20); k > 0; k-- {
				u := &store.StateUpdate{Cmd: r.Intn(4), Value: fmt.Sprint("v", total, k)}
				if u.Cmd != store.Ticket || r.Intn(4) == 0 {
					u.Key = fmt.Sprint(r.Intn(5), "-", r.Intn(3))
				}
				us = append(us, u)
				want = append(want, *u)
			}
			batches = append(batches, us)
		}
		type answer struct {
			a  []*store.StateResponse
			us []*store.StateUpdate
		}
		res := make(chan []answer, 1)
		go func() {
			var out []answer
			for _, us := range batches {
				out = append(out, answer{rc.SendUpdates(us), us})
			}
			res <- out
		}()
		var got []*store.StateUpdate
		for tries := 0; len(got) < len(want) && tries < 20; tries++ {
			got = append(got, rc.GetUpdates()...)
		}
		var as []answer
		select {
		case as = <-res:
		case <-time.After(10 * time.Second):
			fail(t, "C12.stuck", "SendUpdates does not return")
			return
		}
		if len(got) != len(want) {
			fail(t, "C12.delivered", "%d updates sent, %d read", len(want), len(got))
			return
		}
		k := 0
		for _, a := range as {
			if len(a.a) != len(a.us) {
				fail(t, "C12.answers", "%d answers for %d updates", len(a.a), len(a.us))
				return
			}
			for i := range a.us {
				g, w := got[k], want[k]
				if g == nil || g.Cmd != w.Cmd || g.Value != w.Value || w.Cmd != store.Ticket && g.Key != w.Key {
					fail(t, "C12.unchanged", "update %d: sent %+v, read %+v", k, w, g)
				}
				x := a.a[i]
				if x == nil || x.Err != nil {
					fail(t, "C12.answers", "update %+v answered %+v", w, x)
				} else if g != nil && w.Cmd == store.Ticket {
					if x.Result != g.Key {
						fail(t, "C12.own", "new ticket delivered as %q, answered %q", g.Key, x.Result)
					}
					if before, ok := issued[g.Key]; ok {
						fail(t, "C12.fresh", "id %q of ticket %d was issued before, for ticket %d", g.Key, total+k, before)
					}
					issued[g.Key] = total + k
				}
				k++
			}
		}
		total += k
	}
	// ids alone, over several seconds' worth of issuing, and from a replicator that has been idle
	for i := 0; i < 4; i++ {
		q := New(cfg)
		seen := map[string]bool{}
		for s := 0; s < 3; s++ {
			for k := 0; k < 30000; k++ {
				id := q.getReplId()
				if seen[id] {
					fail(t, "C12.fresh", "id %q issued twice by getReplId", id)
					break
				}
				seen[id] = true
			}
			if s == 0 {
				q.replTS = q.replTS.Add(-time.Hour) // as if idle for an hour
				seen = map[string]bool{}
			}
			if i == 0 {
				time.Sleep(400 * time.Millisecond)
			}
		}
	}
	if x := rc.GetUpdates(); len(x) != 0 {
		fail(t, "C12.read", "nothing sent, %d updates read", len(x))
	}
	fmt.Printf("VERIF-STATS updates: %d\n", total)
}
