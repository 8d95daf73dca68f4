import sys; sys.path.insert(0,'/verif/tools'); sys.argv=sys.argv
from plant import plant
which=sys.argv[1:]
def P(id,*a):
    if not which or id in which: plant(id,*a)
F='core/internal/statestore/cache/replicatedticketcache.go'; D='core/internal/statestore/cache'
H='''package cache
import ("testing"; "time"; "fmt"; "context"; "io"; "sync"
	"github.com/sirupsen/logrus"; "github.com/spf13/viper"; "go.opentelemetry.io/otel/metric/noop"
	"google.golang.org/protobuf/proto"; "google.golang.org/protobuf/types/known/timestamppb"
	store "open-match.dev/core/internal/statestore/datatypes"; pb "open-match.dev/pkg/pb/v2")
type rep struct { mu sync.Mutex; in chan []*store.StateUpdate; batches [][]store.StateUpdate; n, failAt int }
func (r *rep) GetReplIdValidationRegex() string { return ".*" }
func (r *rep) GetUpdates() []*store.StateUpdate { return <-r.in }
func (r *rep) SendUpdates(u []*store.StateUpdate) []*store.StateResponse {
	r.mu.Lock(); defer r.mu.Unlock()
	var b []store.StateUpdate; var out []*store.StateResponse
	for _, x := range u { b = append(b, *x); a := &store.StateResponse{Result: x.Key}
		if r.n == r.failAt { a.Err = fmt.Errorf("refused") }; r.n++; out = append(out, a) }
	r.batches = append(r.batches, b); return out }
func mk(max, wait int) (*ReplicatedTicketCache, *rep) {
	logrus.SetOutput(io.Discard); ExpirationCycleDuration = noop.Float64Histogram{}
	c := viper.New(); c.Set("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", max); c.Set("OM_CACHE_OUT_WAIT_TIMEOUT_MS", wait)
	c.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 1); c.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 50)
	c.Set("OM_CACHE_TICKET_TTL_SECS", 600); c.Set("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 300)
	r := &rep{in: make(chan []*store.StateUpdate), failAt: -1}
	return &ReplicatedTicketCache{Replicator: r, Cfg: c, UpRequests: make(chan *UpdateRequest, 1000)}, r }
func id(age, n int) string { return fmt.Sprintf("%v-%v", time.Now().Unix()-int64(age), n) }
func enc(m proto.Message) string { b, _ := proto.Marshal(m); return string(b) }
func in(d time.Duration) *timestamppb.Timestamp { return timestamppb.New(time.Now().Add(d)) }
var _ = enc
var _ = in
var _ = id
var _ = context.Background
var _ = pb.Ticket{}.Id
'''
H=H.replace("var _ = pb.Ticket{}.Id\n","var _ *pb.Ticket\n")
OUT='''				for index, result := range results {'''
P('c08-drain','C08',[(F,'''				// Timeout reached, don't wait for the batch to be full.
''','''				// Timeout reached, don't wait for the batch to be full; take
				// along what is already there.
				for n := len(tc.UpRequests); n > 0; n-- {
					req := <-tc.UpRequests
					pipelineRequests = append(pipelineRequests, req)
					pipeline = append(pipeline, &req.Update)
				}
''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, r := mk(2, 0); ch := make(chan *store.StateResponse, 500)
	for i := 0; i < 400; i++ { tc.UpRequests <- &UpdateRequest{Update: store.StateUpdate{Cmd: 1, Key: fmt.Sprint(i)}, ResultsChan: ch} }
	go tc.OutgoingReplicationQueue(context.Background())
	for i := 0; i < 400; i++ { <-ch }
	r.mu.Lock(); defer r.mu.Unlock()
	for _, b := range r.batches { if len(b) > 2 { t.Fatal("batch of ", len(b)) } } }
''','a batch timeout while more requests than the threshold are waiting','a batch exceeds the configured threshold')
P('c08-merge','C08',[(F,'''				pipelineRequests = append(pipelineRequests, req)
				pipeline = append(pipeline, &req.Update)
''','''				pipelineRequests = append(pipelineRequests, req)
				if n := len(pipeline); n == 0 || *pipeline[n-1] != req.Update {
					pipeline = append(pipeline, &req.Update)
				}
''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, _ := mk(10, 100); a, b := make(chan *store.StateResponse, 5), make(chan *store.StateResponse, 5)
	u := store.StateUpdate{Cmd: store.Activate, Key: "1-1"}
	tc.UpRequests <- &UpdateRequest{Update: u, ResultsChan: a}
	tc.UpRequests <- &UpdateRequest{Update: u, ResultsChan: b}
	go tc.OutgoingReplicationQueue(context.Background())
	for _, c := range []chan *store.StateResponse{a, b} { select { case <-c: case <-time.After(5*time.Second): t.Fatal("a requester gets no answer") } } }
''','two requests for the same update next to each other in one batch','the second requester never gets an answer and later answers go to the wrong requesters')
P('c08-stale','C08',[(F,'''				if len(pipelineRequests) >= tc.Cfg.GetInt("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD") {''','''				if cap(pipelineRequests) < 16 && len(pipelineRequests) > 1 && req.Update.Cmd == store.Deactivate {
					// deactivations go first
					last := len(pipeline) - 1
					pipeline[0], pipeline[last] = pipeline[last], pipeline[0]
					pipelineRequests[0], pipelineRequests[last] = pipelineRequests[last], pipelineRequests[0]
				}
				if len(pipelineRequests) >= tc.Cfg.GetInt("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD") {''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, r := mk(3, 200); ch := make(chan *store.StateResponse, 5)
	for i, c := range []int{1, 2, 1} { tc.UpRequests <- &UpdateRequest{Update: store.StateUpdate{Cmd: c, Key: fmt.Sprint(i)}, ResultsChan: ch} }
	go tc.OutgoingReplicationQueue(context.Background())
	for i := 0; i < 3; i++ { <-ch }
	r.mu.Lock(); defer r.mu.Unlock()
	k := ""; for _, b := range r.batches { for _, u := range b { k += u.Key } }
	if k != "012" { t.Fatal(k) } }
''','a deactivation that is not the first of its batch','updates are replicated in another order than they were queued')
P('c13-ownid','C13',[(F,'''					ticketPb.Id = curUpdate.Key
''','''					if ticketPb.Id == "" {
						ticketPb.Id = curUpdate.Key
					}
''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, r := mk(3, 200); go tc.IncomingReplicationQueue(context.Background()); k := id(0, 1)
	r.in <- []*store.StateUpdate{{Cmd: store.Ticket, Key: k, Value: enc(&pb.Ticket{Id: "mine", ExpirationTime: in(time.Hour)})}}
	for i := 0; i < 2000; i++ { if v, ok := tc.Tickets.Load(k); ok { if g := v.(*pb.Ticket).GetId(); g != k { t.Fatal(g) }; return }; time.Sleep(time.Millisecond) }
	t.Fatal("not stored") }
''','a replicated ticket whose payload carries an id','the ticket is cached under its replication id with another id inside')
P('c13-reuse','C13',[(F,'''	// Check the channel for updates, and apply them
''','''	// Decoding target of replicated assignments
	assignmentPb := &pb.Assignment{}

	// Check the channel for updates, and apply them
'''),(F,'''					assignmentPb := &pb.Assignment{}
					proto''','''					proto''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, r := mk(3, 200); go tc.IncomingReplicationQueue(context.Background()); a, b := id(0, 1), id(0, 2)
	r.in <- []*store.StateUpdate{{Cmd: store.Assign, Key: a, Value: enc(&pb.Assignment{Connection: "a"})}, {Cmd: store.Assign, Key: b, Value: enc(&pb.Assignment{Connection: "b"})}}
	for i := 0; i < 2000; i++ { if _, ok := tc.Assignments.Load(b); ok { v, _ := tc.Assignments.Load(a); if g := v.(*pb.Assignment).GetConnection(); g != "a" { t.Fatal(g) }; return }; time.Sleep(time.Millisecond) }
	t.Fatal("not stored") }
''','a second assignment after the first','applying an assignment changes the ones stored for other tickets')
P('c13-clear','C13',[(F,'''					tc.Assignments.Store(curUpdate.Key, assignmentPb)
''','''					if assignmentPb.GetConnection() == "" && len(curUpdate.Value) > 0 && len(assignmentPb.GetExtensions()) == 0 || curUpdate.Value == "" {
						// nothing assigned any more
						tc.Assignments.Delete(curUpdate.Key)
						break
					}
					tc.Assignments.Store(curUpdate.Key, assignmentPb)
''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, r := mk(3, 200); go tc.IncomingReplicationQueue(context.Background()); a, b := id(0, 1), id(0, 2)
	r.in <- []*store.StateUpdate{{Cmd: store.Assign, Key: a, Value: enc(&pb.Assignment{})}, {Cmd: store.Assign, Key: b, Value: enc(&pb.Assignment{Connection: "b"})}}
	for i := 0; i < 2000; i++ { if _, ok := tc.Assignments.Load(b); ok { if _, ok := tc.Assignments.Load(a); !ok { t.Fatal("dropped") }; return }; time.Sleep(time.Millisecond) }
	t.Fatal("not stored") }
''','a replicated assignment with an empty message','the assignment is dropped instead of stored')
P('c13-visible','C13',[(F,'''					tc.InactiveSet.Store(curUpdate.Key, true)
					tc.Tickets.Store(curUpdate.Key, ticketPb)
''','''					if _, reborn := tc.Tickets.Swap(curUpdate.Key, ticketPb); !reborn {
						tc.InactiveSet.Store(curUpdate.Key, true)
					}
''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, r := mk(3, 200); go tc.IncomingReplicationQueue(context.Background()); a, b := id(0, 1), id(0, 2)
	tk := &store.StateUpdate{Cmd: store.Ticket, Key: a, Value: enc(&pb.Ticket{ExpirationTime: in(time.Hour)})}
	r.in <- []*store.StateUpdate{tk, {Cmd: store.Activate, Key: a}, tk, {Cmd: store.Assign, Key: b, Value: enc(&pb.Assignment{Connection: "b"})}}
	for i := 0; i < 2000; i++ { if _, ok := tc.Assignments.Load(b); ok { if _, ok := tc.InactiveSet.Load(a); !ok { t.Fatal("active") }; return }; time.Sleep(time.Millisecond) }
	t.Fatal("not stored") }
''','a ticket replicated again after its activation (or a reader between the two writes)','a new ticket is visible before it is marked inactive, or stays active')
P('c14-longlived','C14',[(F,'''					_, existed := tc.Tickets.LoadAndDelete(id)
					if existed {
''','''					v, existed := tc.Tickets.Load(id)
					if existed && !v.(*pb.Ticket).GetExpirationTime().AsTime().After(time.Now()) {
						tc.Tickets.Delete(id)
''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, _ := mk(3, 200); a := id(1000, 1); tc.InactiveSet.Store(a, true)
	tc.Tickets.Store(a, &pb.Ticket{Id: a, ExpirationTime: in(time.Hour)})
	go tc.IncomingReplicationQueue(context.Background()); time.Sleep(300*time.Millisecond)
	_, there := tc.Tickets.Load(a); _, mark := tc.InactiveSet.Load(a)
	if there && !mark { t.Fatal("revived") } }
''','an inactive ticket older than the lifetime whose own expiration lies in the future','expiration makes an inactive ticket active')
P('c14-maxttl','C14',[(F,'''					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {''','''					int64(max(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS"), tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"))) {''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, _ := mk(3, 200); a := id(700, 1); tc.Assignments.Store(a, &pb.Assignment{})
	go tc.IncomingReplicationQueue(context.Background()); time.Sleep(300*time.Millisecond)
	if _, ok := tc.Assignments.Load(a); !ok { t.Fatal("removed early") } }
''','an assignment older than either lifetime alone but younger than their sum','the assignment is removed too early')
P('c14-earlymark','C14',[(F,'''					tc.Tickets.Delete(id)
					numTicketDeletions++
				}
				return true
			})

			// cull expired assignments''','''					tc.Tickets.Delete(id)
					// its mark has no use any more
					tc.InactiveSet.Delete(id)
					numTicketDeletions++
				}
				return true
			})

			// cull expired assignments''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, _ := mk(3, 200); a := id(0, 1); tc.InactiveSet.Store(a, true)
	tc.Tickets.Store(a, &pb.Ticket{Id: a, ExpirationTime: in(-time.Hour)})
	go tc.IncomingReplicationQueue(context.Background()); time.Sleep(300*time.Millisecond)
	if _, ok := tc.InactiveSet.Load(a); !ok { t.Fatal("mark removed") } }
''','a ticket that expires by its own time while inactive','its inactive mark is removed before the lifetime is over')
P('c14-first','C14',[(F,'''			tc.Tickets.Range(func(id, ticket any) bool {
				numTickets++
				if time.Now()''','''			tc.Tickets.Range(func(id, ticket any) bool {
				numTickets++
				if _, pending := tc.Assignments.Load(id); pending {
					return true
				}
				if time.Now()''')],D,H+'''
func TestDemo(t *testing.T) {
	tc, _ := mk(3, 200); a := id(0, 1); tc.Assignments.Store(a, &pb.Assignment{})
	tc.Tickets.Store(a, &pb.Ticket{Id: a, ExpirationTime: in(-time.Hour)})
	go tc.IncomingReplicationQueue(context.Background()); time.Sleep(300*time.Millisecond)
	if _, ok := tc.Tickets.Load(a); ok { t.Fatal("kept") } }
''','an expired ticket that has an assignment','the expired ticket is kept')
