package soloduel

import (
	"fmt"
	"testing"
)

func TestVerif_C21(t *testing.T) {
	r := seed()
	cases, matches := 0, 0
	one := func(pools map[string]int, chunks, failAt int, name string) {
		cs, all := request(name, pools, chunks, r)
		s := &stream{chunks: cs, failAt: failAt}
		err, problem := call(s)
		what := fmt.Sprintf("pools %v in %d chunks", pools, chunks)
		cases++
		if problem != "" {
			fail(t, "crash", "%s: %s", what, problem)
			return
		}
		genuine(t, what, s, all)
		want := len(all) / 2
		if failAt > 0 && failAt <= want {
			want = failAt - 1
			if err == nil {
				fail(t, "senderror", "%s: stream broke at match %d but no error came back", what, failAt)
			}
			if s.nsend != failAt {
				fail(t, "aftererror", "%s: stream broke at match %d, yet %d matches were sent", what, failAt, s.nsend)
			}
		} else if err != nil {
			fail(t, "error", "%s: %v", what, err)
		}
		if len(s.got) != want {
			fail(t, "count", "%s: %d matches streamed from %d participants, want %d", what, len(s.got), len(all), want)
		}
		used := map[string]int{}
		for k, x := range s.got {
			matches++
			if len(x.rosters) != 1 {
				fail(t, "rosters", "%s: match %d has %d rosters", what, k, len(x.rosters))
				continue
			}
			if len(x.rosters[0]) != 2 {
				fail(t, "size", "%s: match %d has %d tickets", what, k, len(x.rosters[0]))
			}
			for _, id := range x.rosters[0] {
				if o, ok := used[id]; ok {
					fail(t, "twice", "%s: ticket %s is in match %d and in match %d", what, id, o, k)
				}
				used[id] = k
			}
		}
	}
	for n := 0; n < 40; n++ {
		one(map[string]int{"all": n}, 1, 0, "p")
		one(map[string]int{"all": n}, 2, 0, "")
	}
	for a := 0; a < 6; a++ {
		for b := 0; b < 6; b++ {
			one(map[string]int{"a": a, "b": b}, 1, 0, "p")
			one(map[string]int{"a": a, "b": b, "": 1}, 2, 0, "p")
			one(map[string]int{"a": a, "b": b, "c": 3}, 3, 0, "p")
		}
	}
	one(nil, 1, 0, "p")
	for f := 1; f < 6; f++ {
		one(map[string]int{"a": 5, "b": 4}, 2, f, "p")
	}
	for i := 0; i < scale(60); i++ {
		o := map[string]int{}
		for j := r.Intn(8); j > 0; j-- {
			o[fmt.Sprint("pool", r.Intn(20))] = r.Intn(200)
		}
		one(o, 1+r.Intn(5), r.Intn(50)*r.Intn(2), "profile")
	}
	one(map[string]int{"big": 12001, "small": 1}, 3, 0, "p")
	fmt.Printf("VERIF-STATS %d runs, %d matches\n", cases, matches)
}
