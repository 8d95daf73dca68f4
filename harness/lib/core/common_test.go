package main

// Replay of the contracts of the core gRPC handlers on the real code. The replication layer is a stand-in that records
// what it is asked to replicate and answers as the test decides.

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	"go.opentelemetry.io/otel/metric/noop"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
)

func seed() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// scale multiplies the number of cases in a thorough run.
func scale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

var (
	failMu sync.Mutex
	nfail  = map[string]int{}
)

func fail(t *testing.T, key, f string, a ...interface{}) {
	failMu.Lock()
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	failMu.Unlock()
	t.Fail()
}

func failed() int {
	failMu.Lock()
	defer failMu.Unlock()
	n := 0
	for _, k := range nfail {
		n += k
	}
	return n
}

const pattern = `^[0-9]+-[0-9]+$`

// stub is the replicator: only its id pattern is used by the handlers.
type stub struct{}

func (stub) GetUpdates() []*store.StateUpdate                          { return nil }
func (stub) SendUpdates(u []*store.StateUpdate) []*store.StateResponse { return nil }
func (stub) GetReplIdValidationRegex() string                          { return pattern }

var once sync.Once

// setup gives the handlers a fresh cache, queue and configuration.
func setup(kv map[string]interface{}) {
	once.Do(func() {
		logrus.SetOutput(io.Discard)
		logrus.SetLevel(logrus.PanicLevel)
		m := noop.NewMeterProvider().Meter("verif")
		registerMetrics(&m)
	})
	c := viper.New()
	def := map[string]interface{}{"OM_CACHE_TICKET_TTL_SECS": 600, "OM_MAX_STATE_UPDATES_PER_CALL": 500, "OM_MMF_TIMEOUT_SECS": 60, "OM_MATCH_TICKET_DEACTIVATION_WAIT": false}
	for k, v := range def {
		c.Set(k, v)
	}
	for k, v := range kv {
		c.Set(k, v)
	}
	cfg = c
	tc = cache.ReplicatedTicketCache{Replicator: stub{}, UpRequests: make(chan *cache.UpdateRequest), Cfg: c}
}

// patience is how long a call may take before it counts as stuck.
const patience = 20 * time.Second

// drain collects what is queued until stop is closed, in batches of at most n updates, and hands every batch to answer.
func drain(q chan *cache.UpdateRequest, n int, stop chan struct{}, answer func(b []*cache.UpdateRequest)) (done chan struct{}) {
	done = make(chan struct{})
	go func() {
		defer close(done)
		for {
			var b []*cache.UpdateRequest
			select {
			case r := <-q:
				b = append(b, r)
			case <-stop:
				return
			}
			for more := true; more && len(b) < n; {
				select {
				case r := <-q:
					b = append(b, r)
				case <-time.After(500 * time.Microsecond):
					more = false
				}
			}
			answer(b)
		}
	}()
	return
}

// reply sends one answer; it reports what went wrong: "closed" when the requester closed the channel, "stuck" when nobody took the answer.
func reply(r *cache.UpdateRequest, a *store.StateResponse) (problem string) {
	defer func() {
		if e := recover(); e != nil {
			problem = "closed"
		}
	}()
	select {
	case r.ResultsChan <- a:
	case <-time.After(patience):
		return "stuck"
	}
	return ""
}
