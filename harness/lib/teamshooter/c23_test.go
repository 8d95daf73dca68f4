package teamshooter

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerif_C23(t *testing.T) {
	r := seed()
	cases, matches := 0, 0
	one := func(pools map[string]int, chunks, failAt int, name string) {
		cs, all := request(name, pools, chunks, r)
		s := &stream{chunks: cs, failAt: failAt}
		err, problem := call(s)
		what := fmt.Sprintf("pools %v in %d chunks", pools, chunks)
		cases++
		if problem != "" {
			fail(t, "crash", "%s: %s", what, problem)
			return
		}
		genuine(t, what, s, all)
		want := pools["tank"] / 2
		if x := pools["healer"] / 2; x < want {
			want = x
		}
		if x := pools["dps"] / 6; x < want {
			want = x
		}
		if want > 100000 {
			want = 100000
		}
		if failAt > 0 && failAt <= want {
			want = failAt - 1
			if err == nil {
				fail(t, "senderror", "%s: stream broke at match %d but no error came back", what, failAt)
			}
			if s.nsend != failAt {
				fail(t, "aftererror", "%s: stream broke at match %d, yet %d matches were sent", what, failAt, s.nsend)
			}
		} else if err != nil {
			fail(t, "error", "%s: %v", what, err)
		}
		if len(s.got) != want {
			fail(t, "count", "%s: %d matches streamed, want %d", what, len(s.got), want)
		}
		next := map[string]int{} // the position of each pool that is due
		for k, x := range s.got {
			matches++
			if len(x.rosters) != 2 {
				fail(t, "rosters", "%s: match %d has %d rosters", what, k, len(x.rosters))
			}
			for j, ids := range x.rosters {
				n := map[string]int{}
				for _, id := range ids {
					p := id[:strings.Index(id, "/")]
					n[p]++
					if w := fmt.Sprintf("%s/%d", p, next[p]); id != w {
						fail(t, "order", "%s: match %d roster %d holds %s where %s is due", what, k, j, id, w)
					}
					next[p]++
				}
				if len(ids) != 5 || n["tank"] != 1 || n["healer"] != 1 || n["dps"] != 3 {
					fail(t, "team", "%s: match %d roster %d is %v", what, k, j, ids)
				}
			}
		}
	}
	for _, ta := range []int{0, 1, 2, 3, 4} {
		for _, h := range []int{0, 1, 2, 3, 4} {
			for _, d := range []int{0, 1, 2, 3, 5, 6, 7, 11, 12, 13} {
				one(map[string]int{"tank": ta, "healer": h, "dps": d}, 1, 0, "p")
			}
		}
	}
	for k := 1; k < 12; k++ { // short by one, in each pool in turn
		one(map[string]int{"tank": 2*k - 1, "healer": 2 * k, "dps": 6 * k}, 1, 0, "p")
		one(map[string]int{"tank": 2 * k, "healer": 2*k - 1, "dps": 6 * k}, 2, 0, "p")
		one(map[string]int{"tank": 2 * k, "healer": 2 * k, "dps": 6*k - 1}, 3, 0, "p")
		one(map[string]int{"tank": 2 * k, "healer": 2 * k, "dps": 6 * k, "Tank": 50, "": 50}, 2, 0, "p")
		one(map[string]int{"tank": 2 * k, "dps": 6 * k}, 2, 0, "p")
	}
	for f := 1; f < 5; f++ {
		one(map[string]int{"tank": 8, "healer": 7, "dps": 30}, 2, f, "p")
	}
	for i := 0; i < scale(60); i++ {
		one(map[string]int{"tank": r.Intn(60), "healer": r.Intn(60), "dps": r.Intn(200), "other": r.Intn(20)}, 1+r.Intn(4), r.Intn(20)*r.Intn(2), "profile")
	}
	// far more matches than a sample would make
	one(map[string]int{"tank": 4001, "healer": 4003, "dps": 12005}, 2, 0, "p")
	fmt.Printf("VERIF-STATS %d runs, %d matches\n", cases, matches)
}
