import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
F='core/internal/filter/filter.go'; PK='core/internal/filter'
H='''package filter_test
import ("testing"; "math"; "open-match.dev/core/internal/filter"; pb "open-match.dev/pkg/pb/v2"; ts "google.golang.org/protobuf/types/known/timestamppb")
var _ = math.NaN
var _ = ts.Now
'''

plant('c03-tagsnil','C03',[(F,"""	for _, f := range pool.TagPresentFilters {
		for""","""	if len(pool.TagPresentFilters) > 1 && len(ticket.Attributes.Tags) == 0 {
		return false
	}
	for _, f := range pool.TagPresentFilters {
		for"""),(F,"tagFilterTest:\n",""),(F,"	for _, f := range pool.TagPresentFilters {\n		for","tagFilterTest:\n	for _, f := range pool.TagPresentFilters {\n		for")],PK,H+"""
func TestDemo(t *testing.T) {
	p := &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "a"}, {Tag: "b"}}}
	if filter.In(p, &pb.Ticket{}) { t.Fatal("a ticket without tags was taken") }
}
""",'two tag filters and a ticket without attributes','the shortcut dereferences the missing attributes and crashes the server')
