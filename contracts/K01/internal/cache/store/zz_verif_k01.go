package store

import (
	"regexp"
	"sort"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/emirpasic/gods/trees/avltree"
	"github.com/emirpasic/gods/utils"
	"verif.local/spec"
)

// scene is a node of a source's tree and what is asked of the tree.
type scene_ struct {
	n, l, r           *avltree.Node
	e, x              *loggregator_v2.Envelope
	start, end, fudge int64
	root              bool
}

// visits is what the reader has seen so far.
type visits_ struct {
	any, enough, seen bool
	last              int64
}

func in_(n *avltree.Node, e *loggregator_v2.Envelope) bool { return spec.Fn[bool]("in", n, e) }
func key_(e *loggregator_v2.Envelope) int64                { return spec.Fn[int64]("key", e) }
func lo_(n *avltree.Node) int64                            { return spec.Fn[int64]("lo", n) }
func hi_(n *avltree.Node) int64                            { return spec.Fn[int64]("hi", n) }

// about states what holds of an envelope of the tree under n: it is stored
// under its timestamp, or a little later.
func (s *scene_) about(n *avltree.Node, e *loggregator_v2.Envelope) {
	spec.Requires(spec.Holds(func() bool {
		return !in_(n, e) || e != nil && lo_(n) <= key_(e) && key_(e) <= hi_(n) &&
			e.Timestamp <= key_(e) && key_(e)-e.Timestamp >= 0 && key_(e)-e.Timestamp <= s.fudge
	}))
}

func (s *scene_) wanted(e *loggregator_v2.Envelope) bool {
	return s.start <= e.Timestamp && e.Timestamp < s.end
}

// past: nothing stored later is wanted.
func (s *scene_) past(k int64, descending bool) bool {
	if descending {
		return k < s.start
	}
	return k >= s.end && (k-s.end >= s.fudge || k-s.end < 0)
}

func before_(a, b int64, descending bool) bool {
	if descending {
		return b < a
	}
	return a < b
}

// traverse has the traversal of one node follow that of its children.
func (s *scene_) traverse(descending bool) {
	n, l, r, x := s.n, s.l, s.r, s.x
	spec.Requires(spec.Holds(func() bool { return n != nil && s.e != nil && x != nil && s.fudge > 0 }))
	n.Value, n.Key, n.Children = s.e, key_(s.e), [2]*avltree.Node{l, r}
	// the tree is a search tree of the keys
	s.about(n, s.e)
	s.about(n, x)
	spec.Requires(spec.Holds(func() bool {
		return in_(n, s.e) && in_(n, x) == (x == s.e || l != nil && in_(l, x) || r != nil && in_(r, x))
	}))
	k := key_(s.e)
	if l != nil {
		s.about(l, x)
		spec.Requires(spec.Holds(func() bool { return lo_(l) <= hi_(l) && hi_(l) < k && lo_(n) == lo_(l) }))
	} else {
		spec.Requires(lo_(n) == k)
	}
	if r != nil {
		s.about(r, x)
		spec.Requires(spec.Holds(func() bool { return lo_(r) <= hi_(r) && k < lo_(r) && hi_(n) == hi_(r) }))
	} else {
		spec.Requires(hi_(n) == k)
	}
	first := func(n *avltree.Node) int64 {
		if descending {
			return hi_(n)
		}
		return lo_(n)
	}
	final := func(n *avltree.Node) int64 {
		if descending {
			return lo_(n)
		}
		return hi_(n)
	}

	w := &visits_{any: spec.Any[bool]("any"), last: spec.Any[int64]("last")}
	spec.Requires(spec.Holds(func() bool { return !w.any || before_(w.last, first(n), descending) }))
	f := func(y *loggregator_v2.Envelope) bool {
		spec.Ensures("nothing is read once the reader has enough", !w.enough)
		spec.Ensures("only what is stored is read", in_(n, y))
		spec.Ensures("only envelopes of the time asked for are read", spec.Holds(func() bool { return s.wanted(y) }))
		spec.Ensures("envelopes are read in the order they are stored, each once", spec.Holds(func() bool { return !w.any || before_(w.last, key_(y), descending) }))
		w.any, w.last, w.seen = true, key_(y), w.seen || y == x
		w.enough = spec.Any[bool]("enough")
		return w.enough
	}
	below := func(_ *Store, c *avltree.Node, start, end int64, _ func(*loggregator_v2.Envelope) bool) bool {
		if c == nil {
			return false
		}
		spec.Ensures("a part of the tree is read", spec.Holds(func() bool { return c == l || c == r }))
		spec.Ensures("the time asked for is kept", spec.Holds(func() bool { return start == s.start && end == s.end }))
		spec.Ensures("nothing is read once the reader has enough", !w.enough)
		spec.Ensures("envelopes are read in the order they are stored, each once", spec.Holds(func() bool { return !w.any || before_(w.last, first(c), descending) }))
		called, seen, done := spec.Any[bool]("called"), spec.Any[bool]("seen"), spec.Any[bool]("done")
		if called {
			y := spec.Any[*loggregator_v2.Envelope]("y")
			s.about(c, y)
			spec.Requires(spec.Holds(func() bool { return y != nil && in_(c, y) && s.wanted(y) }))
			if c == l || c == r {
				spec.Requires(in_(n, y))
			}
			w.any, w.last, w.enough = true, key_(y), spec.Any[bool]("enough")
		}
		spec.Requires(spec.Holds(func() bool { return !seen || called && in_(c, x) && s.wanted(x) }))
		spec.Requires(spec.Holds(func() bool {
			return seen || !in_(c, x) || !s.wanted(x) || w.enough && before_(w.last, key_(x), descending)
		}))
		w.seen = w.seen || seen
		spec.Requires(spec.Holds(func() bool { return done == (w.enough || done && s.past(final(c), descending)) }))
		return done
	}
	st := &Store{maxTimestampFudge: s.fudge}
	var done bool
	if descending {
		spec.Recursive((*Store).treeDescTraverse, below)
		done = st.treeDescTraverse(n, s.start, s.end, f)
	} else {
		spec.Recursive((*Store).treeAscTraverse, below)
		done = st.treeAscTraverse(n, s.start, s.end, f)
	}
	spec.Ensures("reading ends when the reader has enough", spec.Holds(func() bool { return !w.enough || done }))
	spec.Ensures("reading ends early only if nothing stored later is wanted", spec.Holds(func() bool { return !done || w.enough || s.past(final(n), descending) }))
	if spec.Holds(func() bool { return in_(n, x) && s.wanted(x) }) {
		spec.Cover("an envelope asked for")
		spec.Ensures("all envelopes of the time asked for are read, until the reader has enough", spec.Holds(func() bool { return w.seen || w.enough && before_(w.last, key_(x), descending) }))
	}
}

// tree does the same for a whole tree, natively.
func tree_(stamps []int64, start, end int64, enough uint8, descending bool) {
	t := avltree.NewWith(utils.Int64Comparator)
	small := spec.Rand.Intn(2) == 0
	keys := map[*loggregator_v2.Envelope]int64{}
	for _, ts := range stamps {
		if small {
			ts &= 15
		}
		e, k := &loggregator_v2.Envelope{Timestamp: ts}, ts
		for ; ; k++ {
			if _, ok := t.Get(k); !ok {
				break
			}
		}
		t.Put(k, e)
		keys[e] = k
	}
	if small {
		start, end = start&15, end&15
	}
	var got []*loggregator_v2.Envelope
	st := &Store{maxTimestampFudge: 4000}
	f := func(e *loggregator_v2.Envelope) bool {
		got = append(got, e)
		return len(got) > int(enough)
	}
	if descending {
		st.treeDescTraverse(t.Root, start, end, f)
	} else {
		st.treeAscTraverse(t.Root, start, end, f)
	}
	seen := map[*loggregator_v2.Envelope]bool{}
	for i, e := range got {
		seen[e] = true
		spec.Ensures("only envelopes of the time asked for are read", start <= e.Timestamp && e.Timestamp < end)
		spec.Ensures("envelopes are read in the order they are stored, each once", i == 0 || before_(keys[got[i-1]], keys[e], descending))
	}
	spec.Ensures("nothing is read once the reader has enough", len(got) <= int(enough)+1)
	for e := range keys {
		if start <= e.Timestamp && e.Timestamp < end {
			spec.Ensures("all envelopes of the time asked for are read, until the reader has enough", seen[e] || len(got) > int(enough) && before_(keys[got[len(got)-1]], keys[e], descending))
		}
	}
}

// ContractAscending: all envelopes stored of the time asked for are read, the
// ones stored first first, until the reader has enough.
func ContractAscending(s *scene_, stamps []int64, enough uint8) {
	spec.Requires(s != nil)
	if spec.Native() {
		tree_(stamps, s.start, s.end, enough, false)
		return
	}
	s.traverse(false)
}

// ContractDescending is the same for the ones stored last first.
func ContractDescending(s *scene_, stamps []int64, enough uint8) {
	spec.Requires(s != nil)
	if spec.Native() {
		tree_(stamps, s.start, s.end, enough, true)
		return
	}
	s.traverse(true)
}

// ContractEmpty: where nothing is stored, nothing is read.
func ContractEmpty(start, end, fudge int64) {
	st := &Store{maxTimestampFudge: fudge}
	f := func(*loggregator_v2.Envelope) bool {
		spec.Ensures("only what is stored is read", false)
		return false
	}
	spec.Ensures("an empty tree does not end reading", !st.treeAscTraverse(nil, start, end, f) && !st.treeDescTraverse(nil, start, end, f))
}

// history is what is stored of a source, in the order it is stored, and what is
// asked for.
type history_ struct {
	es         []*loggregator_v2.Envelope
	start, end int64
	types      []logcache_v1.EnvelopeType
	limit      int
}

// isOf tells whether an envelope is of a type.
func isOf_(e *loggregator_v2.Envelope, t logcache_v1.EnvelopeType) bool {
	switch t {
	case logcache_v1.EnvelopeType_LOG:
		return e.GetLog() != nil
	case logcache_v1.EnvelopeType_COUNTER:
		return e.GetCounter() != nil
	case logcache_v1.EnvelopeType_GAUGE:
		return e.GetGauge() != nil
	case logcache_v1.EnvelopeType_TIMER:
		return e.GetTimer() != nil
	case logcache_v1.EnvelopeType_EVENT:
		return e.GetEvent() != nil
	}
	return true
}

// message_ gives the envelope a message of one of the kinds.
func message_(e *loggregator_v2.Envelope, kind uint8, m *messages_) {
	switch kind % 6 {
	case 0:
		e.Message = nil
	case 1:
		e.Message = &loggregator_v2.Envelope_Log{Log: m.l}
	case 2:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: m.c}
	case 3:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: m.g}
	case 4:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: m.t}
	case 5:
		e.Message = &loggregator_v2.Envelope_Event{Event: m.e}
	}
}

type messages_ struct {
	l *loggregator_v2.Log
	c *loggregator_v2.Counter
	g *loggregator_v2.Gauge
	t *loggregator_v2.Timer
	e *loggregator_v2.Event
}

// ContractTypes: an envelope is wanted when it is of a type asked for, or no
// type is asked for.
func ContractTypes(e *loggregator_v2.Envelope, kind uint8, m *messages_, types []logcache_v1.EnvelopeType) {
	spec.Requires(e != nil && m != nil)
	message_(e, kind, m)
	if spec.Native() {
		for i := range types {
			types[i] = logcache_v1.EnvelopeType(uint32(types[i]) % 6)
		}
	}
	spec.Requires(spec.Forall(0, len(types), func(i int) bool { return types[i] >= 0 && types[i] <= 5 }))
	spec.Invariant(func(i int) bool {
		return spec.Forall(0, i+1, func(a int) bool { return !isOf_(e, types[a]) })
	})
	st := &Store{}
	ok := st.validEnvelopeType(e, types)
	spec.Ensures("envelopes of the types asked for are wanted", ok == (types == nil || spec.Exists(0, len(types), func(a int) bool { return isOf_(e, types[a]) })))
}

// ContractNames: counters, timers and gauges are wanted when their name
// matches; of a gauge, what is named otherwise is left out.
func ContractNames(e *loggregator_v2.Envelope, kind uint8, m *messages_, name string) {
	spec.Requires(e != nil && m != nil && m.g != nil)
	message_(e, kind, m)
	filter := new(regexp.Regexp)
	if spec.Native() {
		filter = regexp.MustCompile("^[a-m]")
	}
	matches := func(s string) bool {
		if spec.Native() {
			return filter.MatchString(s)
		}
		return spec.Fn[bool]("matches", s)
	}
	spec.Replace((*regexp.Regexp).MatchString, func(r *regexp.Regexp, s string) bool {
		spec.Ensures("the filter asked for is used", r == filter)
		return spec.Fn[bool]("matches", s)
	})
	ms := m.g.Metrics
	spec.Invariant(func(left map[string]*loggregator_v2.GaugeValue, done spec.Visited[string]) bool {
		v, ok := left[name]
		w, had := ms[name]
		return ok == (had && done.Has(name) && spec.Fn[bool]("matches", name)) && (!ok || v == w)
	})
	spec.Invariant(func(left map[string]*loggregator_v2.GaugeValue, done spec.Visited[string]) bool {
		_, had := ms[name]
		return len(left) > 0 || !had || !done.Has(name) || !spec.Fn[bool]("matches", name)
	})
	ts, id, instance, tags := e.Timestamp, e.SourceId, e.InstanceId, e.Tags
	st := &Store{}
	spec.Ensures("all envelopes are wanted without a filter", st.filterByName(e, nil) == e)
	got := st.filterByName(e, filter)
	switch kind % 6 {
	case 2:
		spec.Ensures("a counter is wanted when its name matches", (got != nil) == matches(e.GetCounter().GetName()) && (got == nil || got == e))
	case 4:
		spec.Ensures("a timer is wanted when its name matches", (got != nil) == matches(e.GetTimer().GetName()) && (got == nil || got == e))
	case 3:
		w, had := ms[name]
		if had && matches(name) {
			spec.Cover("a gauge")
			spec.Ensures("a gauge is wanted when a name of it matches", got != nil)
		}
		if got != nil {
			spec.Ensures("the gauge is of the same time and source", got.Timestamp == ts && got.SourceId == id && got.InstanceId == instance && spec.Same(got.Tags, tags))
			v, ok := got.GetGauge().GetMetrics()[name]
			spec.Ensures("of a gauge, what matches is left", ok == (had && matches(name)) && (!ok || v == w))
			spec.Ensures("a gauge that is wanted has a value left", len(got.GetGauge().GetMetrics()) > 0)
		}
		spec.Ensures("what is stored is not changed", spec.Same(m.g.Metrics, ms))
	default:
		spec.Ensures("what has no name is not wanted when names are asked for", got == nil)
	}
}

// place is where reading is.
type place_ int

// read has the reader read what is stored and of the time asked for, in the
// order stored, until it has enough.
func (h *history_) read(start, end int64, f func(*loggregator_v2.Envelope) bool) bool {
	for i := place_(0); int(i) < len(h.es); i++ {
		e := h.es[i]
		if start <= e.Timestamp && e.Timestamp < end && f(e) {
			return true
		}
	}
	return false
}

func (h *history_) wanted(i int) bool {
	return h.start <= h.es[i].Timestamp && h.es[i].Timestamp < h.end && spec.Fn[bool]("wanted", h.es[i])
}

// stored reads what is stored as the traversals were shown to.
func (h *history_) stored() {
	spec.Replace((*Store).treeAscTraverse, func(_ *Store, _ *avltree.Node, start, end int64, f func(*loggregator_v2.Envelope) bool) bool {
		return h.read(start, end, f)
	})
	spec.Replace((*Store).treeDescTraverse, func(_ *Store, _ *avltree.Node, start, end int64, f func(*loggregator_v2.Envelope) bool) bool {
		return h.read(start, end, f)
	})
	spec.Replace((*Store).validEnvelopeType, func(_ *Store, e *loggregator_v2.Envelope, types []logcache_v1.EnvelopeType) bool {
		spec.Ensures("the types asked for are kept", spec.Same(types, h.types))
		return spec.Fn[bool]("wanted", e)
	})
}

// ContractCollect: what is collected are the first envelopes that are wanted.
func ContractCollect(h *history_, k, j int, descending bool) {
	spec.Requires(h != nil)
	if spec.Native() {
		return
	}
	spec.Requires(0 <= k && k < j && j < len(h.es) && h.limit > 0)
	spec.Requires(spec.Forall(0, len(h.es), func(i int) bool { return h.es[i] != nil }))
	spec.Requires(spec.Forall(0, len(h.es), func(i int) bool { return i == j || h.es[i] != h.es[j] }))
	h.stored()
	spec.Invariant(func(res []*loggregator_v2.Envelope, i place_) bool {
		return 0 <= i && len(res) <= int(i) && len(res) < h.limit && spec.Forall(0, len(res), func(a int) bool {
			return spec.Exists(0, int(i), func(b int) bool { return h.wanted(b) && h.es[b] == res[a] })
		})
	})
	spec.Invariant(func(res []*loggregator_v2.Envelope, i place_) bool {
		return k >= int(i) || !h.wanted(k) || spec.Exists(0, len(res), func(a int) bool { return res[a] == h.es[k] })
	})
	spec.Invariant(func(res []*loggregator_v2.Envelope, i place_) bool {
		return int(i) > j || spec.Forall(0, len(res), func(a int) bool { return res[a] != h.es[j] })
	})
	got := (&Store{}).collect(&storage{Tree: &avltree.Tree{}}, h.start, h.end, h.types, nil, h.limit, descending)
	spec.Ensures("no more than the limit is collected", len(got) <= h.limit)
	spec.Ensures("only what is wanted is collected", spec.Forall(0, len(got), func(a int) bool {
		return spec.Exists(0, len(h.es), func(b int) bool { return h.wanted(b) && h.es[b] == got[a] })
	}))
	if spec.Holds(func() bool { return h.wanted(k) }) {
		spec.Ensures("all that is wanted is collected, up to the limit", len(got) == h.limit || spec.Exists(0, len(got), func(a int) bool { return got[a] == h.es[k] }))
		spec.Ensures("what is stored first is collected first", spec.Forall(0, len(got), func(a int) bool { return got[a] != h.es[j] }) || spec.Exists(0, len(got), func(a int) bool { return got[a] == h.es[k] }))
	}
}

// reading is what was collected so far.
type reading_ struct {
	calls      int
	first      []*loggregator_v2.Envelope
	start, end int64 // of what was collected last
	x          *loggregator_v2.Envelope
}

// is: the envelope is one that may be collected.
func (r *reading_) is(e *loggregator_v2.Envelope) bool {
	return e != nil && r.start <= e.Timestamp && e.Timestamp < r.end && spec.Fn[bool]("stored and of a type asked for", e)
}

func (r *reading_) all(es []*loggregator_v2.Envelope) bool {
	return spec.Forall(0, len(es), func(a int) bool { return r.is(es[a]) })
}

// sorted has slices sorted: the result is in order and a permutation, so that
// it has x when it was there, and what holds of all elements still does.
func (r *reading_) sorted() {
	spec.Replace(sort.SliceStable, func(list interface{}, less func(i, j int) bool) {
		s := list.([]*loggregator_v2.Envelope)
		to := spec.AnyNew[*loggregator_v2.Envelope]("sorted")
		spec.Requires(len(to) == len(s))
		spec.Requires(spec.Holds(func() bool {
			return has_(to, r.x) == has_(s, r.x) && (!r.all(s) || r.all(to))
		}))
		copy(s, to)
		spec.Requires(spec.Forall(0, len(s), func(j int) bool {
			return spec.Forall(0, j, func(i int) bool { return !less(j, i) })
		}))
	})
}

func has_(es []*loggregator_v2.Envelope, e *loggregator_v2.Envelope) bool {
	return spec.Exists(0, len(es), func(a int) bool { return es[a] == e })
}

// ContractGet: what is read is all of the time and types asked for, or all up
// to (from) a time when that is more than the limit; it is in the order of time.
func ContractGet(h *history_, source string, x *loggregator_v2.Envelope, a, b int, descending bool) {
	spec.Requires(h != nil)
	if spec.Native() {
		h.native(source, descending)
		return
	}
	r := &reading_{x: x}
	st := &Store{metrics: Metrics{incEgress: &counter_{}}}
	tree := &storage{Tree: &avltree.Tree{}}
	st.storageIndex.Store(source, tree)
	asked := &reading_{start: h.start, end: h.end}
	spec.Requires(x != nil && h.limit > 0 && h.limit < 1<<31)
	spec.Replace((*Store).collect, func(_ *Store, t *storage, start, end int64, types []logcache_v1.EnvelopeType, filter *regexp.Regexp, limit int, order bool) []*loggregator_v2.Envelope {
		r.calls++
		spec.Ensures("the source asked for is read, of its types, in the order asked for", spec.Holds(func() bool {
			return t == tree && spec.Same(types, h.types) && filter == nil && order == descending
		}))
		spec.Ensures("a part of the time asked for is read", spec.Holds(func() bool { return start >= h.start && end <= h.end }))
		r.start, r.end = start, end
		got := spec.AnyNew[*loggregator_v2.Envelope]("collected")
		// as shown above
		spec.Requires(spec.Holds(func() bool {
			return len(got) <= limit && len(got) < 1<<31-1 && r.all(got) && (!r.is(x) || len(got) == limit || has_(got, x))
		}))
		if r.calls == 1 {
			r.first = got
		}
		return got
	})
	r.sorted()
	spec.Invariant(func(oldest, newest int64, i int) bool {
		return spec.Forall(0, i+1, func(a int) bool { return oldest <= r.first[a].Timestamp && r.first[a].Timestamp <= newest })
	})
	spec.Invariant(func(t int64) bool {
		return spec.Exists(0, len(r.first), func(a int) bool { return r.first[a].Timestamp == t })
	})
	got := st.Get(source, time.Unix(0, h.start), time.Unix(0, h.end), h.types, nil, h.limit, descending)
	spec.Ensures("only what is of the time and types asked for is read", spec.Holds(func() bool { return asked.all(got) }))
	if spec.Holds(func() bool { return 0 <= a && a < b && b < len(got) }) {
		spec.Ensures("what is read is in the order of time", spec.Holds(func() bool {
			return !descending && got[a].Timestamp <= got[b].Timestamp || descending && got[a].Timestamp >= got[b].Timestamp
		}))
	}
	if spec.Holds(func() bool { return asked.is(x) }) {
		spec.Ensures("something asked for is left out only when as many as the limit are read", spec.Holds(func() bool {
			return has_(got, x) || len(r.first) == h.limit && !has_(r.first, x)
		}))
		if spec.Holds(func() bool { return 0 <= a && a < len(got) }) {
			spec.Ensures("nothing asked for is left out up to what is read", spec.Holds(func() bool {
				return !descending && got[a].Timestamp < x.Timestamp || descending && x.Timestamp < got[a].Timestamp || has_(got, x)
			}))
		}
	}
	if spec.Holds(func() bool { return 0 <= a && a < len(got) && len(got) > h.limit }) {
		spec.Cover("many of one time")
		spec.Ensures("no more than the limit is read but to keep what is of one time together", spec.Holds(func() bool {
			return len(r.first) == h.limit && spec.Exists(0, len(r.first), func(b int) bool {
				return !descending && got[a].Timestamp <= r.first[b].Timestamp || descending && got[a].Timestamp >= r.first[b].Timestamp
			})
		}))
	}
}

// native puts the envelopes and reads them.
func (h *history_) native(source string, descending bool) {
	c := &counter_{}
	st := &Store{maxPerSource: 1000, maxTimestampFudge: 4000, oldestTimestamp: MIN_INT64, metrics: Metrics{c, c, c, c, c, c, c}}
	small := spec.Rand.Intn(2) == 0
	limit := 1 + spec.Rand.Intn(6)
	if small {
		h.start &= 15
		h.end = h.start + int64(spec.Rand.Intn(20))
	}
	for i := range h.types {
		h.types[i] = logcache_v1.EnvelopeType(uint32(h.types[i]) % 6)
	}
	wanted := map[*loggregator_v2.Envelope]bool{}
	distinct, n := map[int64]bool{}, 0
	for i := 0; i < spec.Rand.Intn(24); i++ {
		e := &loggregator_v2.Envelope{Timestamp: spec.Rand.Int63()}
		if small {
			e.Timestamp &= 31
		}
		message_(e, uint8(spec.Rand.Intn(6)), &messages_{&loggregator_v2.Log{}, &loggregator_v2.Counter{}, &loggregator_v2.Gauge{}, &loggregator_v2.Timer{}, &loggregator_v2.Event{}})
		st.Put(e, source)
		is := h.types == nil
		for _, t := range h.types {
			is = is || isOf_(e, t)
		}
		distinct[e.Timestamp] = true
		n++
		if is && h.start <= e.Timestamp && e.Timestamp < h.end {
			wanted[e] = true
		}
	}
	got := st.Get(source, time.Unix(0, h.start), time.Unix(0, h.end), h.types, nil, limit, descending)
	seen := map[*loggregator_v2.Envelope]bool{}
	for i, e := range got {
		spec.Ensures("only what is of the time and types asked for is read", wanted[e] && !seen[e])
		spec.Ensures("what is read is in the order of time", i == 0 || e.Timestamp == got[i-1].Timestamp || before_(got[i-1].Timestamp, e.Timestamp, descending))
		seen[e] = true
	}
	for e := range wanted {
		spec.Ensures("something asked for is left out only when as many as the limit are read", seen[e] || len(got) >= limit)
		spec.Ensures("nothing asked for is left out up to what is read", seen[e] || before_(got[len(got)-1].Timestamp, e.Timestamp, descending))
	}
	spec.Ensures("no more than the limit is read but to keep what is of one time together", len(got) <= limit || len(distinct) < n)
}
