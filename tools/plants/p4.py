import sys; sys.path.insert(0,'/verif/tools'); sys.argv=sys.argv
import re
src=open('/verif/tools/plants/p2.py').read()
H=re.search(r"H='''(.*?)'''",src,re.S).group(1)
from plant import plant
which=sys.argv[1:]
def P(id,*a):
    if not which or id in which: plant(id,*a)
L='core/internal/logging/logging.go'; LP='core/internal/logging'
LH='''package logging
import ("testing"; "github.com/sirupsen/logrus"; "github.com/spf13/viper")
var _ = viper.New
'''
P('c24-case','C24',[(L,'''	switch strings.ToLower(level) {''','''	if upper := strings.ToUpper(level); level != upper {
		level = strings.ToLower(level[:1]) + level[1:]
	} else {
		level = strings.ToLower(level)
	}
	switch level {'''),(L,'''func toLevel(level string) logrus.Level {
''','''func toLevel(level string) logrus.Level {
	if level == "" {
		return logrus.InfoLevel
	}
''')],LP,LH+'''
func TestDemo(t *testing.T) { if toLevel("dEbug") != logrus.DebugLevel { t.Fatal(toLevel("dEbug")) } }
''','a level name in mixed case','the level falls back to info')
P('c24-skipset','C24',[(L,'''	logrus.SetLevel(level)
''','''	if level > logrus.GetLevel() || level < logrus.InfoLevel {
		logrus.SetLevel(level)
	}
''')],LP,LH+'''
func TestDemo(t *testing.T) {
	c := viper.New(); c.Set("OM_LOGGING_LEVEL", "debug"); ConfigureLogging(c)
	c.Set("OM_LOGGING_LEVEL", "info"); ConfigureLogging(c)
	if logrus.GetLevel() != logrus.InfoLevel { t.Fatal(logrus.GetLevel()) } }
''','logging configured a second time, from debug back to info','the level stays debug')
M='core/internal/statestore/memory/main.go'; MP='core/internal/statestore/memory'
MH='''package memoryReplicator
import ("testing"; "time"; "fmt"; "github.com/spf13/viper"; store "open-match.dev/core/internal/statestore/datatypes")
var _ = time.Now
var _ = fmt.Sprint
var _ store.StateUpdate
func mk() *memoryReplicator { c := viper.New(); c.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 300); return New(c) }
'''
P('c12-wrap','C12',[(M,'''		rc.replCount += 1
''','''		rc.replCount = (rc.replCount + 1) % 10000
''')],MP,MH+'''
func TestDemo(t *testing.T) {
	for try := 0; try < 5; try++ {
	q := mk(); seen := map[string]bool{}
	for i := 0; i < 60000; i++ { id := q.getReplId(); if seen[id] { t.Fatal("issued twice: ", id) }; seen[id] = true }
	} }
''','more than ten thousand ids within one second','an id is issued a second time')
P('c12-keepkey','C12',[(M,'''		if up.Cmd == store.Ticket {
			up.Key = replId
		}
''','''		if up.Cmd == store.Ticket && up.Key == "" {
			up.Key = replId
		}
''')],MP,MH+'''
func TestDemo(t *testing.T) {
	q := mk(); r := make(chan []*store.StateResponse, 1)
	go func() { r <- q.SendUpdates([]*store.StateUpdate{{Cmd: store.Ticket, Key: "1-1", Value: "v"}}) }()
	u := q.GetUpdates(); a := <-r
	if len(u) != 1 || u[0].Key != a[0].Result { t.Fatal(u[0].Key, a[0].Result) } }
''','a new ticket whose update carries a key already','the ticket is delivered under another id than the one answered')
F='core/main.go'
P('c19-stopempty','C19',[(F,'''			// Note the error but continue processing
			err = status.Error(codes.Internal, "Empty ticket ID in assignment request!")
			logger.Error(err)
		}
	}

	for i := 0; i < numUpdates; i++ {''','''			// Note the error but continue processing
			err = status.Error(codes.Internal, "Empty ticket ID in assignment request!")
			logger.Error(err)
		}
	}
	if err != nil {
		// nothing more to report than the error noted above
		numUpdates = cap(rChan) - numUpdates
	}

	for i := 0; i < numUpdates; i++ {''')],'core',H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	n := make(chan int, 10)
	go func() { for r := range tc.UpRequests { if r.Update.Key == "1-3" { time.Sleep(200*time.Millisecond); n <- 1 }; r.ResultsChan <- &store.StateResponse{Result: "1-1"} } }()
	req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "x"}, Tickets: []*pb.Ticket{{Id: "1-1"}, {Id: ""}, {Id: "1-2"}, {Id: "1-3"}}}}
	(&grpcServer{}).CreateAssignments(context.Background(), req)
	if len(n) < 1 { t.Fatal("the call returned before its answers") }
}
''','a roster with a ticket that has no id among others','the call does not wait for all its answers')
P('c19-dedupe','C19',[(F,'''		if ticket.Id != "" {
			logger.Debugf("Assignment request''','''		if _, assigned := tc.Assignments.Load(ticket.Id); assigned {
			logger.Debugf("Ticket %v has its assignment already", ticket.Id)
			continue
		}
		if ticket.Id != "" {
			logger.Debugf("Assignment request''')],'core',H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	n := 0
	go func() { for r := range tc.UpRequests { n++; r.ResultsChan <- &store.StateResponse{Result: "1-1"} } }()
	tc.Assignments.Store("1-1", &pb.Assignment{Connection: "old"})
	req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "new"}, Tickets: []*pb.Ticket{{Id: "1-1"}}}}
	(&grpcServer{}).CreateAssignments(context.Background(), req)
	if n != 1 { t.Fatal("reassignment not replicated") }
}
''','a ticket that has an assignment already is assigned again','the new assignment is not replicated')
P('c19-noassignment','C19',[(F,'''	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil {''','''	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil && len(req.GetAssignmentRoster().GetTickets()) > 0 {''')],'core',H.replace('import (','import ("google.golang.org/grpc/status"; "google.golang.org/grpc/codes"; ')+'''
func TestDemo(t *testing.T) {
	demoSetup()
	_, err := (&grpcServer{}).CreateAssignments(context.Background(), &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Name: "r"}})
	if err == nil || status.Code(err) != codes.InvalidArgument { t.Fatal(err) }
}
'''.replace('',''),'a roster with neither assignment nor tickets','it is not refused as an invalid argument')
P('c15-assigned','C15',[(F,'''	activeTickets := setDifference(&tc.Tickets, &tc.InactiveSet)
	// TODO''','''	// tickets with an assignment are on their way to a server, whatever their activation state
	inactive := &tc.InactiveSet
	if n := len(syncMapDump(&tc.Assignments)); n > len(syncMapDump(inactive)) {
		inactive = &tc.Assignments
	}
	activeTickets := setDifference(&tc.Tickets, inactive)
	// TODO''')],'core',H.replace('import (','import ("net"; "google.golang.org/grpc"; ')+'''
type dMmf struct { pb.UnimplementedMatchMakingFunctionServiceServer; got []string }
func (m *dMmf) Run(s pb.MatchMakingFunctionService_RunServer) error { c, err := s.Recv(); if err != nil { return err }
	for _, t := range c.Profile.Pools["all"].GetParticipants().GetTickets() { m.got = append(m.got, t.Id) }
	return nil }
type dCaller struct { grpc.ServerStream }
func (dCaller) Send(*pb.StreamedMmfResponse) error { return nil }
func (dCaller) Context() context.Context { return context.Background() }
func TestDemo(t *testing.T) {
	demoSetup(); cfg.Set("OM_MMF_TIMEOUT_SECS", 30)
	l, err := net.Listen("tcp", "127.0.0.1:0"); if err != nil { t.Fatal(err) }
	g := grpc.NewServer(); m := &dMmf{}; pb.RegisterMatchMakingFunctionServiceServer(g, m); go g.Serve(l); defer g.Stop()
	tc.Tickets.Store("1-1", &pb.Ticket{Id: "1-1"}); tc.InactiveSet.Store("1-1", true)
	tc.Assignments.Store("2-1", true); tc.Assignments.Store("2-2", true)
	(&grpcServer{}).InvokeMatchmakingFunctions(&pb.MmfRequest{Profile: &pb.Profile{Pools: map[string]*pb.Pool{"all": {Name: "all"}}},
		Mmfs: []*pb.MatchmakingFunctionSpec{{Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}}}, dCaller{})
	if len(m.got) != 0 { t.Fatal("inactive tickets offered: ", m.got) }
}
''','more assignments in the cache than inactive marks','inactive tickets are offered')
P('c15-shared','C15',[(F,'''		if _, ok := inactiveTicketIds[id.(string)]; !ok {''','''		if _, ok := inactiveTicketIds[id.(string)]; !ok && len(activeTickets) < cap(activeTickets)+len(inactiveTicketIds)+1 && len(activeTickets) < 1<<16 {''')],'core',H+'''
func TestDemo(t *testing.T) {
	demoSetup()
	for i := 0; i < 70000; i++ { id := fmt.Sprint("1-", i); tc.Tickets.Store(id, &pb.Ticket{Id: id}) }
	if n := len(setDifference(&tc.Tickets, &tc.InactiveSet)); n != 70000 { t.Fatal(n) }
}
''','more than 65536 active tickets','the rest is not considered')
