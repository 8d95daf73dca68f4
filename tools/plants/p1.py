import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
F='core/internal/filter/filter.go'; PK='core/internal/filter'
H='''package filter_test
import ("testing"; "math"; "open-match.dev/core/internal/filter"; pb "open-match.dev/pkg/pb/v2"; ts "google.golang.org/protobuf/types/known/timestamppb")
var _ = math.NaN
var _ = ts.Now
'''
plant('c01-emptystring','C01',[(F,'''		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
		if !ok {
			return false
		}
		if f.GetValue() != v {''','''		v := filterableFields.GetStringArgs()[f.GetStringArg()]
		if f.GetValue() != v {''')],PK,H+'''
func TestDemo(t *testing.T) {
	p := &pb.Pool{StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: "region", Value: ""}}}
	tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"mode": "duel"}}}
	if filter.In(p, tk) { t.Fatal("a ticket without the string argument was taken") }
}
''','a string filter for the empty value and a ticket that lacks the argument','a missing string argument counts as an empty one')
plant('c02-endonly','C02',[(F,'if !crTime.Before(crTimeFilterStart) {','if crTimeFilter.GetStart() != nil && !crTime.Before(crTimeFilterStart) {')],PK,H+'''
func TestDemo(t *testing.T) {
	p := &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{End: &ts.Timestamp{Seconds: 100}}}
	tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: &ts.Timestamp{Seconds: 200}}}
	if filter.In(p, tk) { t.Fatal("a ticket created after the end of the window was taken") }
}
''','a window with an end and no start, and a ticket created after the end','tickets created after the end of the window get in')
plant('c03-halfwindow','C03',[(F,'''		if pool.GetCreationTimeRangeFilter().GetEnd() != nil &&
			!pool''','''		if pool.GetCreationTimeRangeFilter().GetStart() != nil && pool.GetCreationTimeRangeFilter().GetEnd() != nil &&
			!pool''')],PK,H+'''
func TestDemo(t *testing.T) {
	p := &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{End: &ts.Timestamp{Seconds: 100, Nanos: -1}}}
	if ok, err := filter.ValidatePoolFilters(p); ok || err == nil { t.Fatal("an invalid window end was accepted") }
}
''','a window with an invalid end and no start','the invalid end is accepted')
