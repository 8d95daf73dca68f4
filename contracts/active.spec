# Contract of setDifference: which tickets an invocation considers.
load "./core"
import core "open-match.dev/core"
import sync "sync"

assumption "keys of the cached sets are strings and no two ids share one cached ticket (the incoming queue stores each ticket under its own id)"
assumption "the sets do not change while the difference is taken; interleavings with the replication goroutines are exercised by the replay only"

# the id a cached ticket is stored under
fun keyof(x any) any
ghost var tixset *sync.Map
ghost var inset *sync.Map
# active tickets enumerated so far, and the number each one gets
ghost var N int = 0
ghost array at any int
on smrange (m, k, v) when m == tixset {
  set at[k] := N
  set N := ite(smhas(inset, k), N, N + 1)
}

func "open-match.dev/core.setDifference" (tix, inactive)(active) {
  requires sets: tix != nil && inactive != nil && tix == tixset && inactive == inset && tix != inactive
  requires strings: forall k any :: (smhas(tix, k) || smhas(inactive, k)) ==> typeis(k, string)
  requires own: forall k any :: smhas(tix, k) ==> keyof(smget(tix, k)) == k
  ensures C15.active: forall i int :: 0 <= i && i < len(active) ==> smhas(tix, keyof(active[i])) && !smhas(inactive, keyof(active[i])) && smget(tix, keyof(active[i])) == active[i]
  ensures C15.all: forall k any :: smhas(tix, k) && !smhas(inactive, k) ==> 0 <= at[k] && at[k] < len(active) && active[at[k]] == smget(tix, k)
  ensures C15.once: forall i int :: 0 <= i && i < len(active) ==> at[keyof(active[i])] == i
  ensures C15.unchanged: forall k any :: (smhas(tix, k) <==> old(smhas(tix, k))) && (smhas(inactive, k) <==> old(smhas(inactive, k)))
  inv $m map[string]any C15.dumping: forall k string :: has($m, k) <==> smhas(inactive, any(k)) && visited(any(k))
  inv $m map[string]any C15.dumped: forall k string :: has($m, k) <==> smhas(inactive, any(k))
  inv $s []any C15.count: len($s) == N
  inv $s []any C15.active: forall i int :: 0 <= i && i < len($s) ==> smhas(tix, keyof($s[i])) && !smhas(inactive, keyof($s[i])) && smget(tix, keyof($s[i])) == $s[i] && visited(keyof($s[i])) && at[keyof($s[i])] == i
  inv $s []any C15.all: forall k any :: visited(k) && smhas(tix, k) && !smhas(inactive, k) ==> 0 <= at[k] && at[k] < len($s) && $s[at[k]] == smget(tix, k)
}
