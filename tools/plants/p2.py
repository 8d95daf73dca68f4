import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
F='core/main.go'; PK='core'
H='''package main
import ("testing"; "context"; "time"; "errors"; "io"; "fmt"
"github.com/sirupsen/logrus"; "github.com/spf13/viper"; "go.opentelemetry.io/otel/metric/noop"
"google.golang.org/protobuf/proto"; ts "google.golang.org/protobuf/types/known/timestamppb"
"open-match.dev/core/internal/statestore/cache"
store "open-match.dev/core/internal/statestore/datatypes"
pb "open-match.dev/pkg/pb/v2")
var _ = errors.New
var _ = time.Now
var _ = proto.Marshal
var _ = ts.Now
var _ = fmt.Sprint
var _ pb.Ticket
var _ = context.Background
type demoStub struct{}
func (demoStub) GetUpdates() []*store.StateUpdate { return nil }
func (demoStub) SendUpdates(u []*store.StateUpdate) []*store.StateResponse { return nil }
func (demoStub) GetReplIdValidationRegex() string { return `^[0-9]+-[0-9]+$` }
func demoSetup() {
	logrus.SetOutput(io.Discard)
	m := noop.NewMeterProvider().Meter("demo")
	registerMetrics(&m)
	cfg = viper.New()
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 600)
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", 5)
	tc = cache.ReplicatedTicketCache{Replicator: demoStub{}, UpRequests: make(chan *cache.UpdateRequest), Cfg: cfg}
}
'''
plant('c04-ttlfromnow','C04',[(F,'''	defaultExTime := crTime.AsTime().Add(time''','''	defaultExTime := time.Now().Add(time'''),(F,'''		exTime.AsTime().After(defaultExTime) {''','''		exTime.AsTime().After(crTime.AsTime().Add(time.Second*time.Duration(cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")))) {''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	go func() { r := <-tc.UpRequests
		x := &pb.Ticket{}; proto.Unmarshal([]byte(r.Update.Value), x)
		if x.ExpirationTime.GetSeconds() != 1700000600 { t.Errorf("expires %v", x.ExpirationTime) }
		r.ResultsChan <- &store.StateResponse{Result: "1-1"} }()
	(&grpcServer{}).CreateTicket(context.Background(), &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: &ts.Timestamp{Seconds: 1700000000}}}})
}
''','a ticket with a creation time in the past and no expiration time','the default expiration counts from now and not from the creation time')
plant('c04-subsecond','C04',[(F,'''		exTime.AsTime().After(defaultExTime) {''','''		exTime.AsTime().Unix() > defaultExTime.Unix() {''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	go func() { r := <-tc.UpRequests
		x := &pb.Ticket{}; proto.Unmarshal([]byte(r.Update.Value), x)
		if x.ExpirationTime.GetSeconds() != 1700000600 || x.ExpirationTime.GetNanos() != 0 { t.Errorf("expires %v", x.ExpirationTime) }
		r.ResultsChan <- &store.StateResponse{Result: "1-1"} }()
	(&grpcServer{}).CreateTicket(context.Background(), &pb.CreateTicketRequest{Ticket: &pb.Ticket{ExpirationTime: &ts.Timestamp{Seconds: 1700000600, Nanos: 5}, Attributes: &pb.Ticket_FilterableData{CreationTime: &ts.Timestamp{Seconds: 1700000000}}}})
}
''','an expiration time past the limit by less than a second','the ticket outlives the configured lifetime')
plant('c05-cancelled','C05',[(F,'''	results := <-rChan

	return &pb.CreateTicketResponse{TicketId''','''	results := &store.StateResponse{}
	select {
	case results = <-rChan:
	case <-parentCtx.Done():
		results.Err = parentCtx.Err()
	}

	return &pb.CreateTicketResponse{TicketId''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	ctx, cancel := context.WithCancel(context.Background())
	taken := make(chan bool, 1)
	go func() { r := <-tc.UpRequests
		cancel()
		time.Sleep(50*time.Millisecond)
		select { case r.ResultsChan <- &store.StateResponse{Result: "1-1"}: taken <- true; case <-time.After(2*time.Second): taken <- false } }()
	resp, err := (&grpcServer{}).CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
	if !<-taken || err != nil || resp.TicketId != "1-1" { t.Fatalf("answer not taken: %v %v", resp, err) }
}
''','the client cancels while its ticket is queued for replication','the call returns without the answer; the replication queue blocks forever on the abandoned channel')
plant('c05-nilattrs','C05',[(F,'''	if req.GetTicket() == nil {''','''	if req == nil {''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	go func() { r := <-tc.UpRequests
		r.ResultsChan <- &store.StateResponse{Result: "1-1"} }()
	_, err := (&grpcServer{}).CreateTicket(context.Background(), &pb.CreateTicketRequest{})
	if err == nil { t.Fatal("a request without a ticket created one") }
}
''','a create request without a ticket','an empty ticket is created')
plant('c06-deactmax','C06',[(F,'''	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket deactivations''','''	if numReqUpdates >= cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket deactivations''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	go func() { for r := range tc.UpRequests { r.ResultsChan <- &store.StateResponse{Result: "1-1"} } }()
	if _, err := (&grpcServer{}).DeactivateTickets(context.Background(), &pb.DeactivateTicketsRequest{TicketIds: []string{"1-1","1-2","1-3","1-4","1-5"}}); err != nil { t.Fatal(err) }
}
''','a deactivation call with exactly the configured maximum of ids','it is refused')
plant('c06-afterfilter','C06',[(F,'''	numReqUpdates := len(req.GetTicketIds())
	if numReqUpdates == 0 {
		err := status.Error(codes.InvalidArgument, "No Ticket IDs in update request")
		return nil, err
	}
	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket activations''','''	numReqUpdates := len(req.GetTicketIds())
	if numReqUpdates == 0 {
		err := status.Error(codes.InvalidArgument, "No Ticket IDs in update request")
		return nil, err
	}
	if wellFormed, _ := validateTicketIds(req.GetTicketIds()); len(wellFormed) > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket activations''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	go func() { for r := range tc.UpRequests { r.ResultsChan <- &store.StateResponse{Result: "1-1"} } }()
	if _, err := (&grpcServer{}).ActivateTickets(context.Background(), &pb.ActivateTicketsRequest{TicketIds: []string{"1-1","no","no","no","no","no"}}); err == nil { t.Fatal("too many ids accepted") }
}
''','an activation call with more ids than the maximum, some of them malformed','it is not refused')
plant('c07-firsterr','C07',[(F,'''			logger.Error(errs[results.Result])
		}
	}
	return errs''','''			logger.Error(errs[results.Result])
			if results.Result == "" {
				// the whole batch failed, no per-ticket results will follow
				break
			}
		}
	}
	return errs''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	ok := make(chan bool, 1)
	go func() {
		defer func() { ok <- recover() == nil }()
		a, b := <-tc.UpRequests, <-tc.UpRequests
		a.ResultsChan <- &store.StateResponse{Err: errors.New("x")}
		time.Sleep(100*time.Millisecond)
		b.ResultsChan <- &store.StateResponse{Result: "1-2"}
	}()
	(&grpcServer{}).ActivateTickets(context.Background(), &pb.ActivateTicketsRequest{TicketIds: []string{"1-1","1-2"}})
	if !<-ok { t.Fatal("the replication queue crashed answering the second update") }
}
''','two updates of one call, the first answered with a failure that names no key','the call does not wait for the second answer; the replication queue then sends on a closed channel')
plant('c07-dedupe','C07',[(F,'''		if validationRegex.MatchString(id) {
			validIds = append(validIds, id)''','''		if validationRegex.MatchString(id) {
			if len(validIds) > 0 && validIds[len(validIds)-1] == id {
				continue
			}
			validIds = append(validIds, id)''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	n := 0
	go func() { for r := range tc.UpRequests { n++; r.ResultsChan <- &store.StateResponse{Result: "1-1"} } }()
	(&grpcServer{}).DeactivateTickets(context.Background(), &pb.DeactivateTicketsRequest{TicketIds: []string{"1-1","1-1"}})
	if n != 2 { t.Fatal(n) }
}
''','the same id twice in a row','repetitions are not replicated')
plant('c07-unbuffered','C07',[(F,'''	rChan := make(chan *store.StateResponse, len(ticketIds))
	defer close(rChan)''','''	rChan := make(chan *store.StateResponse, 1)
	defer close(rChan)''')],PK,H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	go func() { for r := range tc.UpRequests { r.ResultsChan <- &store.StateResponse{Result: "1-1"} } }()
	done := make(chan bool)
	go func() { (&grpcServer{}).DeactivateTickets(context.Background(), &pb.DeactivateTicketsRequest{TicketIds: []string{"1-1","1-2","1-3","1-4"}}); close(done) }()
	select { case <-done: case <-time.After(5*time.Second): t.Fatal("deadlock between the call and the replication queue") }
}
''','a call with several ids while the replication queue works in batches smaller than the call','the call and the replication queue wait for each other forever')
