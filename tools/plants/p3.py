import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
H='''package %s
import ("testing"; "io"; "fmt"
"google.golang.org/grpc"
"github.com/sirupsen/logrus"
pb "open-match.dev/pkg/pb/v2")
var _ = fmt.Sprint
type demoStream struct { grpc.ServerStream; in []*pb.ChunkedMmfRunRequest; got []*pb.Match }
func (s *demoStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if len(s.in) == 0 { return nil, io.EOF }
	c := s.in[0]; s.in = s.in[1:]; return c, nil }
func (s *demoStream) Send(r *pb.StreamedMmfResponse) error { s.got = append(s.got, r.Match); return nil }
func pool(n string, k int) *pb.Pool {
	p := &pb.Pool{Name: n, Participants: &pb.Roster{}}
	for i := 0; i < k; i++ { p.Participants.Tickets = append(p.Participants.Tickets, &pb.Ticket{Id: fmt.Sprint(n, i)}) }
	return p }
func one(ps map[string]*pb.Pool) *demoStream {
	logrus.SetOutput(io.Discard)
	return &demoStream{in: []*pb.ChunkedMmfRunRequest{{NumChunks: 1, Profile: &pb.Profile{Name: "p", Pools: ps}}}} }
'''
B='functions/golang/battleroyale'; S='functions/golang/soloduel'; T='functions/golang/teamshooter'; M='mmf/server'
def want(n, pools):
    return '''
func TestDemo(t *testing.T) {
	s := one(map[string]*pb.Pool{%s})
	(&MmfServer{}).Run(s)
	if len(s.got) != %d { t.Fatalf("%%d matches", len(s.got)) }
}
''' % (', '.join('"%s": pool("%s", %d)' % (k,k,v) for k,v in pools.items()), n)
which=sys.argv[1:]
def P(id,*a):
    if not which or id in which: plant(id,*a)
P('c22-exact','C22',[(B+'/battleroyale.go','i+playersInMatch <= len(tickets)','len(tickets)-i > playersInMatch')],B,H%'battleroyale'+want(3,{'competitive':300}),
 'a number of participants that is a multiple of the match size','the last full match is not made')
P('c22-fallback','C22',[(B+'/battleroyale.go','	logger.Infof("Found %v tickets in pool %v", len(tickets), poolName)\n','''	for name, pool := range req.GetPools() {
		// top up from the other pools so that nobody waits too long
		if name != poolName && len(tickets) > 0 && len(tickets) < playersInMatch {
			tickets = append(tickets, pool.GetParticipants().GetTickets()...)
		}
	}
	logger.Infof("Found %v tickets in pool %v", len(tickets), poolName)
''')],B,H%'battleroyale'+want(0,{'competitive':60,'casual':70}),
 'fewer competitive participants than one match needs, and others elsewhere','tickets of other pools are put into matches')
P('c21-perpool','C21',[(S+'/soloduel.go','''		for _, ticket := range pool.GetParticipants().GetTickets() {
			tickets = append(tickets, ticket)
		}
''','''		// only whole pairs are of use
		poolTickets := pool.GetParticipants().GetTickets()
		tickets = append(tickets, poolTickets[:len(poolTickets)/tixPerMatch*tixPerMatch]...)
''')],S,H%'soloduel'+want(4,{'a':5,'b':3}),
 'two pools with an odd number of participants each','participants left over in different pools are never paired')
P('c21-carry','C21',[(S+'/soloduel.go','			rosterPlayers = make([]*pb.Ticket, 0, 2)\n			matchNum++\n','''			if matchNum++; matchNum%100 == 0 {
				logger.Debugf("%v matches so far", matchNum)
				continue
			}
			rosterPlayers = make([]*pb.Ticket, 0, 2)
''')],S,H%'soloduel'+'''
func TestDemo(t *testing.T) {
	s := one(map[string]*pb.Pool{"a": pool("a", 420)})
	(&MmfServer{}).Run(s)
	for _, m := range s.got { for _, r := range m.Rosters { if len(r.Tickets) != 2 { t.Fatalf("%d tickets", len(r.Tickets)) } } }
}
''','more than a hundred matches in one run','the roster of the hundredth match is carried over into the next one')
P('c23-exhausted','C23',[(T+'/teamshooter.go','					poolRosterIndices[desiredTicketType]++\n','''					if poolRosterIndices[desiredTicketType]++; poolRosterIndices[desiredTicketType] == len(req.GetPools()[desiredTicketType].GetParticipants().GetTickets()) {
						// that was the last one
						ticketsExhausted = true
					}
''')],T,H%'teamshooter'+want(2,{'tank':4,'healer':5,'dps':13}),
 'a pool that is used up exactly by the last possible match','the last full match is not made')
P('c23-shortteam','C23',[(T+'/teamshooter.go','		if !ticketsExhausted {\n','		if !ticketsExhausted || poolRosterIndices["healer"]%numTeams == 0 && len(rosters["team02"].Tickets) >= len(teamComp)-1 {\n')],T,H%'teamshooter'+'''
func TestDemo(t *testing.T) {
	s := one(map[string]*pb.Pool{"tank": pool("tank", 10), "healer": pool("healer", 10), "dps": pool("dps", 11)})
	(&MmfServer{}).Run(s)
	for _, m := range s.got { for _, r := range m.Rosters { if len(r.Tickets) != 5 { t.Fatalf("%d tickets", len(r.Tickets)) } } }
}
''','dps one short of a full match, everybody else there','an incomplete match is streamed')
P('c17-partial','C17',[(M+'/server.go','			// TODO: Check if we got any portion of a valid profile, if so, attempt a run\n			return nil, err\n','''			// We got a portion of a valid profile; attempt a run
			if len(pools) > 0 && i > 1 {
				return &pb.Profile{Pools: pools}, nil
			}
			return nil, err
''')],M,H%'server'+'''
func TestDemo(t *testing.T) {
	s := one(map[string]*pb.Pool{"a": pool("a", 3)})
	s.in[0].NumChunks = 2
	p, err := GetChunkedRequest(s)
	if err == nil || p != nil { t.Fatalf("%v %v", p, err) }
}
''','the stream ends after the first of several chunks','a profile with part of its participants is returned as if it were whole')
P('c17-emptypool','C17',[(M+'/server.go','			logger.Debugf("concatinating pool %v", name)\n','''			if len(pool.GetParticipants().GetTickets()) == 0 {
				continue // nothing to concatenate
			}
			logger.Debugf("concatinating pool %v", name)
''')],M,H%'server'+'''
func TestDemo(t *testing.T) {
	s := one(map[string]*pb.Pool{"a": pool("a", 3), "b": pool("b", 0)})
	p, err := GetChunkedRequest(s)
	if err != nil || len(p.Pools) != 2 { t.Fatalf("%v %v", p, err) }
}
''','a pool nobody is in','the pool does not occur in the reassembled profile')
