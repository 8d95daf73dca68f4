package battleroyale

import (
	"fmt"
	"testing"
)

func TestVerif_C22(t *testing.T) {
	r := seed()
	cases, matches := 0, 0
	one := func(n int, others map[string]int, chunks int, failAt int, name string) {
		pools := map[string]int{"competitive": n}
		for k, v := range others {
			pools[k] = v
		}
		if n < 0 {
			delete(pools, "competitive")
			n = 0
		}
		cs, all := request(name, pools, chunks, r)
		s := &stream{chunks: cs, failAt: failAt}
		err, problem := call(s)
		what := fmt.Sprintf("%d participants in the competitive pool (others %v, %d chunks)", n, others, chunks)
		cases++
		if problem != "" {
			fail(t, "crash", "%s: %s", what, problem)
			return
		}
		genuine(t, what, s, all)
		want := n / playersInMatch
		if failAt > 0 && failAt <= want {
			want = failAt - 1
			if err == nil {
				fail(t, "senderror", "%s: stream broke at match %d but no error came back", what, failAt)
			}
			if s.nsend != failAt {
				fail(t, "aftererror", "%s: stream broke at match %d, yet %d matches were sent", what, failAt, s.nsend)
			}
		} else if err != nil {
			fail(t, "error", "%s: %v", what, err)
		}
		if len(s.got) != want {
			fail(t, "count", "%s: %d matches streamed, want %d", what, len(s.got), want)
		}
		for k, x := range s.got {
			matches++
			if len(x.rosters) != 1 {
				fail(t, "rosters", "%s: match %d has %d rosters", what, k, len(x.rosters))
				continue
			}
			ids := x.rosters[0]
			if len(ids) != playersInMatch {
				fail(t, "size", "%s: match %d has %d tickets", what, k, len(ids))
			}
			for j, id := range ids {
				if w := fmt.Sprintf("competitive/%d", k*playersInMatch+j); id != w {
					fail(t, "group", "%s: match %d holds %s at position %d, want %s", what, k, id, j, w)
					break
				}
			}
		}
	}
	if playersInMatch < 1 {
		fail(t, "matchsize", "match size %d", playersInMatch)
		return
	}
	for _, n := range []int{-1, 0, 1, playersInMatch - 1, playersInMatch, playersInMatch + 1, 2*playersInMatch - 1, 2 * playersInMatch, 2*playersInMatch + 1, 3 * playersInMatch, 10 * playersInMatch, 10*playersInMatch + 99, 37*playersInMatch - 1} {
		for _, o := range []map[string]int{nil, {"all": 2 * playersInMatch, "Competitive": playersInMatch, "": playersInMatch}, {"casual": 3*playersInMatch + 1}} {
			one(n, o, 1, 0, "p")
			one(n, o, 3, 0, "")
		}
	}
	one(3*playersInMatch, nil, 2, 1, "p")
	one(3*playersInMatch+5, nil, 2, 2, "p")
	one(3*playersInMatch, nil, 2, 3, "p")
	one(3*playersInMatch, nil, 2, 4, "p")
	for i := 0; i < scale(60); i++ {
		o := map[string]int{}
		for j := r.Intn(3); j > 0; j-- {
			o[[]string{"all", "casual", "x", "zz"}[r.Intn(4)]] = r.Intn(3 * playersInMatch)
		}
		one(r.Intn(12*playersInMatch), o, 1+r.Intn(5), r.Intn(20)*r.Intn(2), "profile")
	}
	// a request that breaks off before its last chunk supplies no participants
	cs, _ := request("p", map[string]int{"competitive": 5 * playersInMatch}, 2, r)
	s := &stream{chunks: cs[:1], end: errStream}
	if _, problem := call(s); problem != "" {
		fail(t, "crash", "a request that breaks off: %s", problem)
	} else if len(s.got) != 0 {
		fail(t, "partial", "a request that breaks off after its first chunk produced %d matches", len(s.got))
	}
	fmt.Printf("VERIF-STATS %d runs, %d matches\n", cases, matches)
}
