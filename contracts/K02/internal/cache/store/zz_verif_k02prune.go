package store

import (
	"container/heap"
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"github.com/emirpasic/gods/trees/avltree"
	"github.com/emirpasic/gods/utils"
	"verif.local/spec"
)

// prune asks for n envelopes to be removed.
type prune_ struct{ n int }

func (p *prune_) GetQuantityToPrune(int64) int      { return p.n }
func (p *prune_) SetMemoryReporter(g metrics.Gauge) {}

// ages are the times of the oldest envelopes of sources that hold any.
type ages_ struct {
	m map[*storage]int64
}

func (a *ages_) least(t *storage) bool {
	v, ok := a.m[t]
	return ok && spec.ForallKey(func(o *storage) bool {
		w, ok := a.m[o]
		return !ok || v <= w
	}, a.m)
}

func (a *ages_) same(b *ages_) bool { return spec.MapEq(spec.MapOf(a.m), spec.MapOf(b.m)) }

// ContractPrune: as many envelopes are removed as are to be, each time the
// oldest one of all.
func ContractPrune(now map[*storage]int64, to int, count int64, oldest int64, stamps []int64) {
	if spec.Native() {
		pruneStore_(stamps)
		return
	}
	spec.Requires(now != nil && count >= 0 && count < 1<<62 && len(now) <= int(count) && (count == 0 || len(now) > 0))
	c := &counter_{}
	st := &Store{mc: &prune_{to}, count: count, oldestTimestamp: oldest, metrics: Metrics{c, c, c, c, c, c, c}, truncationCompleted: make(chan bool)}
	live, bag := &ages_{now}, &ages_{map[*storage]int64{}}
	spec.Requires(spec.ForallKey(func(t *storage) bool { _, ok := now[t]; return !ok || t != nil }, now))
	left := count
	var turn *storage
	spec.Replace((*Store).BuildExpirationHeap, func(*Store) *ExpirationHeap {
		m := spec.Any[map[*storage]int64]("bag")
		spec.Requires(m != nil && len(m) == len(now) && spec.MapEq(spec.MapOf(m), spec.MapOf(now)))
		bag.m = m
		return &ExpirationHeap{}
	})
	spec.Replace(ExpirationHeap.Len, func(ExpirationHeap) int { return len(bag.m) })
	spec.Replace((*ExpirationHeap).Pop, func(*ExpirationHeap) interface{} {
		t := spec.Any[*storage]("some")
		_, ok := bag.m[t]
		spec.Requires(ok)
		return storageExpiration{timestamp: bag.m[t], tree: t}
	})
	spec.Replace(heap.Pop, func(heap.Interface) interface{} {
		spec.Ensures("what is removed is there", len(bag.m) > 0)
		t := spec.Any[*storage]("least")
		spec.Requires(spec.Holds(func() bool { return bag.least(t) }))
		spec.Ensures("the source whose turn it is has the oldest envelope of all", spec.Holds(func() bool { return live.least(t) }))
		turn = t
		x := storageExpiration{timestamp: bag.m[t], sourceId: t.sourceId, tree: t}
		delete(bag.m, t)
		return x
	})
	spec.Replace(heap.Push, func(_ heap.Interface, x interface{}) {
		e := x.(storageExpiration)
		spec.Ensures("each source is kept by its name", e.sourceId == e.tree.sourceId)
		bag.m[e.tree] = e.timestamp
	})
	spec.Replace((*Store).removeOldestEnvelope, func(_ *Store, t *storage, id string) (int64, bool) {
		spec.Ensures("the oldest envelope of all is removed", t == turn)
		spec.Ensures("it is removed from its source", id == t.sourceId)
		left--
		st.count--
		was := live.m[t]
		if spec.Any[bool]("the last") {
			delete(live.m, t)
			spec.Requires(spec.Holds(func() bool { return (left > 0) == (len(live.m) > 0) }))
			return 0, false
		}
		next := spec.Any[int64]("next")
		spec.Requires(next > was && left > 0)
		live.m[t] = next
		return next, true
	})
	spec.Invariant(func(i int) bool {
		return spec.Holds(func() bool {
			return 0 <= i && left == count-int64(i) && st.count == left && (left > 0) == (len(live.m) > 0) && live.m != nil && bag.m != nil && left >= 0
		})
	})
	spec.Invariant(func() bool {
		return live.same(bag) && len(live.m) == len(bag.m) && spec.ForallKey(func(t *storage) bool { _, ok := bag.m[t]; return !ok || t != nil }, bag.m)
	})
	spec.Invariant(func(i int) bool {
		return spec.Holds(func() bool { return i == 0 || i <= to && int64(i) <= count })
	})
	st.truncate()
	switch {
	case to <= 0:
		spec.Ensures("nothing is removed when nothing is to be", left == count)
	case int64(to) >= count:
		spec.Cover("all")
		spec.Ensures("everything is removed when that much is to be", left == 0)
	default:
		spec.Ensures("as many are removed as are to be", left == count-int64(to))
	}
	if left == 0 && to != 0 {
		spec.Ensures("an empty store has no oldest time", st.oldestTimestamp == MIN_INT64)
	}
	if left > 0 && to > 0 {
		spec.Cover("some")
		t := spec.Any[*storage]("any source")
		v, ok := live.m[t]
		spec.Ensures("the store's oldest time is that of its oldest envelope", !ok || st.oldestTimestamp <= v)
	}
}

// pruneStore does so natively.
func pruneStore_(stamps []int64) {
	c := &counter_{}
	p := &prune_{}
	st := &Store{mc: p, maxPerSource: 1000, maxTimestampFudge: 4000, oldestTimestamp: MIN_INT64, metrics: Metrics{c, c, c, c, c, c, c}, truncationCompleted: make(chan bool)}
	t := avltree.NewWith(utils.Int64Comparator)
	for _, ts := range stamps {
		if _, ok := t.Get(ts); ok {
			continue
		}
		s := []string{"a", "b", "c", "d", "e"}[spec.Rand.Intn(5)]
		t.Put(ts, s)
		st.Put(&loggregator_v2.Envelope{Timestamp: ts}, s)
	}
	for round := 0; round < 3; round++ {
		p.n = spec.Rand.Intn(5)
		st.truncate()
		for i := 0; i < p.n && t.Size() > 0; i++ {
			t.Remove(t.Left().Key)
		}
		spec.Ensures("as many are removed as are to be", st.count == int64(t.Size()))
		left := map[string]int64{}
		for _, k := range keys_(t.Root) {
			v, _ := t.Get(k)
			left[v.(string)]++
		}
		told := st.Meta()
		for s, n := range left {
			spec.Ensures("the oldest envelope of all is removed", told[s].Count == n)
		}
		spec.Ensures("a source is stored as long as it holds something", len(told) == len(left))
		if p.n > 0 && t.Size() > 0 {
			spec.Ensures("the store's oldest time is that of its oldest envelope", st.oldestTimestamp == t.Left().Key.(int64))
		}
		if p.n > 0 && t.Size() == 0 {
			spec.Ensures("an empty store has no oldest time", st.oldestTimestamp == MIN_INT64)
		}
	}
}

func keys_(n *avltree.Node) []int64 {
	if n == nil {
		return nil
	}
	return append(append(keys_(n.Children[0]), n.Key.(int64)), keys_(n.Children[1])...)
}

// ContractBuild: each source is to be considered, with the time of its oldest.
func ContractBuild(held map[string]*storage, s string) {
	if spec.Native() {
		return
	}
	spec.Requires(spec.ForallKey(func(k string) bool {
		v, ok := held[k]
		return !ok || v != nil
	}, held))
	spec.Replace((*sync.Map).Range, func(_ *sync.Map, f func(k, v interface{}) bool) {
		for k, v := range held {
			if !f(k, v) {
				return
			}
		}
	})
	spec.Replace((*avltree.Tree).Left, func(t *avltree.Tree) *avltree.Node {
		n := &avltree.Node{Key: spec.Fn[int64]("oldest", t)}
		return n
	})
	pushed := false
	spec.Replace(heap.Push, func(_ heap.Interface, x interface{}) {
		e := x.(storageExpiration)
		v, ok := held[e.sourceId]
		spec.Ensures("a source is considered with what it holds", ok && e.tree == v && e.timestamp == spec.Fn[int64]("oldest", v.Tree))
		if e.sourceId == s {
			spec.Ensures("a source is considered once", !pushed)
			pushed = true
		}
	})
	spec.Replace(heap.Init, func(heap.Interface) {})
	spec.Invariant(func(done spec.Visited[string]) bool {
		_, had := held[s]
		return pushed == (had && done.Has(s))
	})
	(&Store{}).BuildExpirationHeap()
	_, had := held[s]
	spec.Ensures("every source is considered", pushed == had)
}

// ContractHeap: sources are ordered by the time of their oldest envelope.
func ContractHeap(a, b, c storageExpiration) {
	h := &ExpirationHeap{a, b}
	spec.Ensures("older goes first", h.Less(0, 1) == (a.timestamp < b.timestamp))
	h.Swap(0, 1)
	spec.Ensures("exchanging does so", (*h)[0] == b && (*h)[1] == a)
	h.Push(c)
	spec.Ensures("what is pushed is last", h.Len() == 3 && (*h)[2] == c && (*h)[0] == b && (*h)[1] == a)
	x := h.Pop().(storageExpiration)
	spec.Ensures("what is last is popped", h.Len() == 2 && x == c && (*h)[0] == b && (*h)[1] == a)
}
