package filter_test

// Replay of the contracts of package filter on the real code: concrete pools and tickets, an independent oracle.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/filter"
	pb "open-match.dev/pkg/pb/v2"
)

func seed() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

var nfail = map[string]int{}

func fail(t *testing.T, key, f string, a ...interface{}) {
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	t.Fail()
}

func show(p *pb.Pool, tk *pb.Ticket) string {
	a, _ := protojson.Marshal(p)
	b, _ := protojson.Marshal(tk)
	return fmt.Sprintf("pool=%s ticket=%s", a, b)
}

var nums = []float64{0, 1, -1, 2.5, 5, 10, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64}

func genPool(r *rand.Rand) *pb.Pool {
	p := &pb.Pool{Name: "p"}
	n := [3]int{r.Intn(3), r.Intn(3), r.Intn(3)}
	if r.Intn(2) == 0 { // one kind of filter only, possibly many of it
		n = [3]int{}
		n[r.Intn(3)] = r.Intn(6)
	}
	for i := n[0]; i > 0; i-- {
		p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: []string{"a", "b", ""}[r.Intn(3)], Minimum: nums[r.Intn(len(nums))], Maximum: nums[r.Intn(len(nums))], Bounds: pb.Pool_FilterBounds(r.Intn(4))})
	}
	for i := n[1]; i > 0; i-- {
		p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: []string{"a", "b", ""}[r.Intn(3)], Value: []string{"", "x", "y"}[r.Intn(3)]})
	}
	for i := n[2]; i > 0; i-- {
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: []string{"", "t", "u", "v"}[r.Intn(4)]})
	}
	return p
}
func genTicket(r *rand.Rand) *pb.Ticket {
	if r.Intn(20) == 0 {
		return &pb.Ticket{}
	}
	a := &pb.Ticket_FilterableData{}
	for _, k := range []string{"a", "b", ""} {
		if r.Intn(3) > 0 {
			if a.DoubleArgs == nil {
				a.DoubleArgs = map[string]float64{}
			}
			a.DoubleArgs[k] = nums[r.Intn(len(nums))]
		}
		if r.Intn(3) > 0 {
			if a.StringArgs == nil {
				a.StringArgs = map[string]string{}
			}
			a.StringArgs[k] = []string{"", "x", "y"}[r.Intn(3)]
		}
	}
	for i := r.Intn(5); i > 0; i-- { // repetitions are likely
		a.Tags = append(a.Tags, []string{"t", "u", "v", ""}[r.Intn(4)])
	}
	if r.Intn(3) == 0 {
		a.CreationTime = timestamppb.New(timestamppb.Now().AsTime())
	}
	return &pb.Ticket{Attributes: a}
}

func want(p *pb.Pool, tk *pb.Ticket) bool {
	a := tk.GetAttributes()
	for _, f := range p.GetDoubleRangeFilters() {
		v, ok := a.GetDoubleArgs()[f.GetDoubleArg()]
		lo := v >= f.GetMinimum()
		hi := v <= f.GetMaximum()
		switch f.GetBounds() {
		case pb.Pool_EXCLUDE_MIN, pb.Pool_EXCLUDE_BOTH:
			lo = v > f.GetMinimum()
		}
		switch f.GetBounds() {
		case pb.Pool_EXCLUDE_MAX, pb.Pool_EXCLUDE_BOTH:
			hi = v < f.GetMaximum()
		}
		if !ok || !lo || !hi {
			return false
		}
	}
	for _, f := range p.GetStringEqualsFilters() {
		v, ok := a.GetStringArgs()[f.GetStringArg()]
		if !ok || v != f.GetValue() {
			return false
		}
	}
	for _, f := range p.GetTagPresentFilters() {
		ok := false
		for _, x := range a.GetTags() {
			ok = ok || x == f.GetTag()
		}
		if !ok {
			return false
		}
	}
	return true
}

// in reports a panic as a result.
func in(p *pb.Pool, tk *pb.Ticket) (r bool, pan interface{}) {
	defer func() { pan = recover() }()
	return filter.In(p, tk), nil
}

func window(r *rand.Rand, p *pb.Pool, base int64) {
	w := &pb.Pool_CreationTimeRangeFilter{Bounds: pb.Pool_FilterBounds(r.Intn(4))}
	st := func() *timestamppb.Timestamp {
		return &timestamppb.Timestamp{Seconds: base + int64(r.Intn(5)), Nanos: []int32{0, 1, 999999999}[r.Intn(3)]}
	}
	if r.Intn(6) > 0 {
		w.Start = st()
	}
	if r.Intn(6) > 0 {
		w.End = st()
	}
	p.CreationTimeRangeFilter = w
}

func TestVerif_C01(t *testing.T) {
	r := seed()
	n, yes := 0, 0
	for ; n < 200000; n++ {
		p, tk := genPool(r), genTicket(r)
		got, pan := in(p, tk)
		if pan != nil {
			continue // C03
		}
		if want(p, tk) {
			yes++
		}
		if got != want(p, tk) {
			fail(t, "membership", "In=%v, want %v: %s", got, want(p, tk), show(p, tk))
		}
		if n%4 == 0 {
			window(r, p, 1700000000)
			if got, pan := in(p, tk); pan == nil && got && !want(p, tk) {
				fail(t, "membership", "In=true with a window although an attribute filter fails: %s", show(p, tk))
			}
		}
	}
	fmt.Printf("VERIF-STATS pools tried %d, members %d\n", n, yes)
}

func TestVerif_C02(t *testing.T) {
	r := seed()
	n, out := 0, 0
	for ; n < 200000; n++ {
		p, tk := &pb.Pool{Name: "p"}, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
		window(r, p, 1700000000)
		tk.Attributes.CreationTime = &timestamppb.Timestamp{Seconds: 1700000000 + int64(r.Intn(7)) - 1, Nanos: []int32{0, 1, 999999999}[r.Intn(3)]}
		w := p.CreationTimeRangeFilter
		c, s, e := tk.Attributes.CreationTime.AsTime(), w.GetStart().AsTime(), w.GetEnd().AsTime()
		inside := !c.Before(s) && !c.After(e)
		if w.Bounds == pb.Pool_EXCLUDE_START || w.Bounds == pb.Pool_EXCLUDE_BOTH {
			inside = inside && !c.Equal(s)
		}
		if w.Bounds == pb.Pool_EXCLUDE_END || w.Bounds == pb.Pool_EXCLUDE_BOTH {
			inside = inside && !c.Equal(e)
		}
		got, pan := in(p, tk)
		if pan != nil {
			continue
		}
		if got && !inside && w.Start != nil && w.End != nil && !e.Before(s) {
			fail(t, "outside", "In=true outside the window: %s", show(p, tk))
		}
		if got && !inside && w.Start == nil {
			fail(t, "outside_end_only", "In=true after the end: %s", show(p, tk))
		}
		if got && w.End == nil && c.Before(s) {
			fail(t, "outside_start_only", "In=true before the start: %s", show(p, tk))
		}
		if !got && inside {
			fail(t, "inside", "In=false inside the window: %s", show(p, tk))
		}
		if !inside {
			out++
		}
	}
	fmt.Printf("VERIF-STATS windows tried %d, outside %d\n", n, out)
}

func TestVerif_C03(t *testing.T) {
	r := seed()
	n := 0
	tks := []*pb.Ticket{nil, {}, {Attributes: &pb.Ticket_FilterableData{}}}
	ts := []*timestamppb.Timestamp{nil, {}, {Seconds: 1700000000}, {Seconds: 253402300799, Nanos: 999999999}, {Seconds: 253402300800}, {Seconds: -62135596800}, {Seconds: -62135596801}, {Nanos: -1}, {Nanos: 1000000000}, {Seconds: math.MaxInt64, Nanos: math.MaxInt32}}
	okts := func(x *timestamppb.Timestamp) bool {
		return x == nil || x.Seconds >= -62135596800 && x.Seconds <= 253402300799 && x.Nanos >= 0 && x.Nanos <= 999999999
	}
	for ; n < 60000; n++ {
		p, tk := genPool(r), genTicket(r)
		if n%3 == 0 {
			tk = tks[r.Intn(len(tks))]
		}
		if n%2 == 0 {
			window(r, p, 0)
		}
		if _, pan := in(p, tk); pan != nil {
			fail(t, "panic", "In panics (%v): %s", pan, show(p, tk))
		}
		if p.CreationTimeRangeFilter != nil {
			p.CreationTimeRangeFilter.Start = ts[r.Intn(len(ts))]
			p.CreationTimeRangeFilter.End = ts[r.Intn(len(ts))]
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					fail(t, "panic", "ValidatePoolFilters panics (%v): %v", x, p)
				}
			}()
			ok, err := filter.ValidatePoolFilters(p)
			w := p.GetCreationTimeRangeFilter()
			if wantOK := okts(w.GetStart()) && okts(w.GetEnd()); ok != wantOK || (err == nil) != ok {
				fail(t, "validate", "ValidatePoolFilters = %v, %v; want %v: %v", ok, err, wantOK, p)
			}
			if _, pan := in(p, tk); pan != nil {
				fail(t, "panic", "In panics (%v): %v %v", pan, p, tk)
			}
		}()
	}
	fmt.Printf("VERIF-STATS pools tried %d\n", n)
}
