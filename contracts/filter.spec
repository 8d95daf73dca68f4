# Contracts of core/internal/filter: which tickets a pool takes.
load "./core/internal/filter"
import pb "open-match.dev/pkg/pb/v2"

assumption "protobuf messages that arrive over the wire hold no nil element inside a repeated message field"
assumption "a time value is compared as a whole number of nanoseconds; all times are in UTC, as timestamppb.AsTime returns them"

# one numeric filter
fun inrange(f *pb.Pool_DoubleRangeFilter, x float64) bool =
  (f.Bounds == 0 ==> f.Minimum <= x && x <= f.Maximum) &&
  (f.Bounds == 1 ==> f.Minimum < x && x <= f.Maximum) &&
  (f.Bounds == 2 ==> f.Minimum <= x && x < f.Maximum) &&
  (f.Bounds == 3 ==> f.Minimum < x && x < f.Maximum)
fun dok(f *pb.Pool_DoubleRangeFilter, t *pb.Ticket) bool =
  has(t.Attributes.DoubleArgs, f.DoubleArg) && inrange(f, t.Attributes.DoubleArgs[f.DoubleArg])
fun sok(f *pb.Pool_StringEqualsFilter, t *pb.Ticket) bool =
  has(t.Attributes.StringArgs, f.StringArg) && t.Attributes.StringArgs[f.StringArg] == f.Value
fun tok(f *pb.Pool_TagPresentFilter, t *pb.Ticket) bool =
  exists j int :: 0 <= j && j < len(t.Attributes.Tags) && t.Attributes.Tags[j] == f.Tag
fun alld(p *pb.Pool, t *pb.Ticket) bool = forall k int :: 0 <= k && k < len(p.DoubleRangeFilters) ==> dok(p.DoubleRangeFilters[k], t)
fun alls(p *pb.Pool, t *pb.Ticket) bool = forall k int :: 0 <= k && k < len(p.StringEqualsFilters) ==> sok(p.StringEqualsFilters[k], t)
fun allt(p *pb.Pool, t *pb.Ticket) bool = forall k int :: 0 <= k && k < len(p.TagPresentFilters) ==> tok(p.TagPresentFilters[k], t)
fun declared(p *pb.Pool) bool = forall k int :: 0 <= k && k < len(p.DoubleRangeFilters) ==> 0 <= p.DoubleRangeFilters[k].Bounds && p.DoubleRangeFilters[k].Bounds <= 3

# nanoseconds since the epoch of an optional timestamp; an absent one is the epoch
fun ns(x *ts.Timestamp) int = x.Seconds * 1000000000 + x.Nanos
import ts "google.golang.org/protobuf/types/known/timestamppb"

fun created(t *pb.Ticket) int = ns(t.Attributes.CreationTime)
fun wstart(p *pb.Pool) int = ns(p.CreationTimeRangeFilter.Start)
fun wend(p *pb.Pool) int = ns(p.CreationTimeRangeFilter.End)
fun exstart(p *pb.Pool) bool = p.CreationTimeRangeFilter.Bounds == 1 || p.CreationTimeRangeFilter.Bounds == 3
fun exend(p *pb.Pool) bool = p.CreationTimeRangeFilter.Bounds == 2 || p.CreationTimeRangeFilter.Bounds == 3
fun inwindow(p *pb.Pool, t *pb.Ticket) bool =
  wstart(p) <= created(t) && created(t) <= wend(p) && (exstart(p) ==> created(t) != wstart(p)) && (exend(p) ==> created(t) != wend(p))

func "open-match.dev/core/internal/filter.In" (pool, ticket)(r) {
  requires pool: pool != nil
  requires declared: declared(pool)
  safety C03
  ensures C01.accepts: pool.CreationTimeRangeFilter == nil && alld(pool, ticket) && alls(pool, ticket) && allt(pool, ticket) ==> r
  ensures C01.double: r ==> alld(pool, ticket)
  ensures C01.string: r ==> alls(pool, ticket)
  ensures C01.tag: r ==> allt(pool, ticket)
  ensures C02.outside: pool.CreationTimeRangeFilter != nil && pool.CreationTimeRangeFilter.Start != nil && pool.CreationTimeRangeFilter.End != nil && wstart(pool) <= wend(pool) && !inwindow(pool, ticket) ==> !r
  ensures C02.outside_end_only: pool.CreationTimeRangeFilter != nil && pool.CreationTimeRangeFilter.Start == nil && wend(pool) >= 0 && !inwindow(pool, ticket) ==> !r
  ensures C02.outside_start_only: pool.CreationTimeRangeFilter != nil && pool.CreationTimeRangeFilter.End == nil && created(ticket) < wstart(pool) ==> !r
  ensures C02.inside: pool.CreationTimeRangeFilter != nil && inwindow(pool, ticket) && alld(pool, ticket) && alls(pool, ticket) && allt(pool, ticket) ==> r
  cover C01.member: r && pool.CreationTimeRangeFilter == nil && len(pool.DoubleRangeFilters) > 0
  cover C01.rejected: !r
}

fun validts(x *ts.Timestamp) bool = x.Seconds >= -62135596800 && x.Seconds <= 253402300799 && 0 <= x.Nanos && x.Nanos <= 999999999

func "open-match.dev/core/internal/filter.ValidatePoolFilters" (pool)(valid, err) {
  safety C03
  ensures C03.exact: valid <==> (pool.CreationTimeRangeFilter == nil || (pool.CreationTimeRangeFilter.Start == nil || validts(pool.CreationTimeRangeFilter.Start)) && (pool.CreationTimeRangeFilter.End == nil || validts(pool.CreationTimeRangeFilter.End)))
  ensures C03.error: !valid ==> err != nil
  ensures C03.noerror: valid ==> err == nil
}
