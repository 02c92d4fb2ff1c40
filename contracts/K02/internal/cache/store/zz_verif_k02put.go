package store

import (
	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/emirpasic/gods/trees/avltree"
	"github.com/emirpasic/gods/utils"
	"sync"
	"time"
	"verif.local/spec"
)

// ordered is what a tree holds.
type ordered_ struct {
	m    map[int64]*loggregator_v2.Envelope
	tree *avltree.Tree
	put  int64 // where something was put
}

func (o *ordered_) at(k int64) (*loggregator_v2.Envelope, bool) {
	if spec.Native() {
		v, ok := o.tree.Get(k)
		if !ok {
			return nil, false
		}
		return v.(*loggregator_v2.Envelope), true
	}
	v, ok := o.m[k]
	return v, ok
}

func (o *ordered_) size() int {
	if spec.Native() {
		return o.tree.Size()
	}
	return len(o.m)
}

// least: k is the first key.
func least_(m map[int64]*loggregator_v2.Envelope, k int64) bool {
	_, ok := m[k]
	return ok && spec.ForallKey(func(o int64) bool {
		_, ok := m[o]
		return !ok || k <= o
	}, m)
}

func (o *ordered_) least(k int64) bool {
	if spec.Native() {
		l := o.tree.Left()
		return l != nil && l.Key.(int64) == k
	}
	return least_(o.m, k)
}

// trees has the tree of the source behave as a map with ordered keys.
func (o *ordered_) trees() {
	o.tree = &avltree.Tree{}
	if spec.Native() {
		o.tree = avltree.NewWith(utils.Int64Comparator)
		for k, e := range o.m {
			o.tree.Put(k, e)
		}
	}
	spec.Replace(avltree.NewWith, func(c utils.Comparator) *avltree.Tree {
		o.m = map[int64]*loggregator_v2.Envelope{}
		return o.tree
	})
	spec.Replace((*avltree.Tree).Size, func(*avltree.Tree) int { return len(o.m) })
	spec.Replace((*avltree.Tree).Get, func(_ *avltree.Tree, k interface{}) (interface{}, bool) {
		v, ok := o.m[k.(int64)]
		return v, ok
	})
	spec.Replace((*avltree.Tree).Put, func(_ *avltree.Tree, k, v interface{}) {
		o.put = k.(int64)
		o.m[o.put] = v.(*loggregator_v2.Envelope)
	})
	spec.Replace((*avltree.Tree).Remove, func(_ *avltree.Tree, k interface{}) { delete(o.m, k.(int64)) })
	spec.Replace((*avltree.Tree).Left, func(*avltree.Tree) *avltree.Node {
		if len(o.m) == 0 {
			return nil
		}
		k := spec.Any[int64]("least")
		spec.Requires(spec.Holds(func() bool { return least_(o.m, k) }))
		return &avltree.Node{Key: k, Value: o.m[k]}
	})
}

// total counts what is added.
type total_ struct{ n int }

func (t *total_) Add(d float64) {
	if d == 1 {
		t.n++
	}
}
func (t *total_) Set(float64) {}

var _ metrics.Counter = &total_{}

// kept is a store that holds what is in o.
type kept_ struct {
	st      *Store
	tree    *storage
	in, out *total_
}

func (o *ordered_) store(max int, fudge, count, oldest int64) *kept_ {
	o.trees()
	in, out, c := &total_{}, &total_{}, &counter_{}
	return &kept_{&Store{
		maxPerSource: max, maxTimestampFudge: fudge, count: count, oldestTimestamp: oldest,
		metrics: Metrics{incExpired: out, setCachePeriod: c, incIngress: in, incEgress: c, setStoreSize: c, setTruncationDuration: c, setMemoryUtilization: c},
	}, nil, in, out}
}

func copyOf_(m map[int64]*loggregator_v2.Envelope) spec.Map[int64, *loggregator_v2.Envelope] {
	return spec.MapOf(m)
}

// ContractPut: what is put is stored. When the source is full the oldest is
// removed for it, and else nothing is.
func ContractPut(held map[int64]*loggregator_v2.Envelope, e *loggregator_v2.Envelope, source string, k int64, max int, fudge, count, oldest int64, info *logcache_v1.MetaInfo) {
	spec.Requires(e != nil && info != nil && held != nil)
	if spec.Native() {
		fudge = 1 + fudge&15
		max = 1 + len(held) + spec.Rand.Intn(2)*spec.Rand.Intn(3)
		if max > 1 && spec.Rand.Intn(2) == 0 {
			max = len(held)
		}
		small := map[int64]*loggregator_v2.Envelope{}
		for k, e := range held {
			small[k&31] = e
		}
		if spec.Rand.Intn(2) == 0 {
			held = small
			e.Timestamp &= 31
			if max > len(held) {
				max = len(held) + 1
			}
		}
		for h := range held {
			if spec.Rand.Intn(3) == 0 {
				k = h
			}
		}
	}
	ts := e.Timestamp
	free := func(k int64) bool { _, ok := held[k]; return !ok }
	spec.Requires(spec.Holds(func() bool {
		return len(held) <= max && max > 0 && fudge > 0 && fudge < 1<<20 && ts < 1<<62 && ts >= 0 && count < 1<<62 && info.Expired < 1<<62 &&
			spec.Exists(0, int(fudge), func(f int) bool { return free(ts + int64(f)) })
	}))
	o := &ordered_{m: held}
	s := o.store(max, fudge, count, oldest)
	s.tree = &storage{sourceId: source, meta: *info, Tree: o.tree}
	s.st.storageIndex.Store(source, s.tree)
	before, size, full := copyOf_(held), len(held), len(held) == max
	first := spec.Holds(func() bool { return least_(held, k) })
	expired, newest := info.Expired, info.NewestTimestamp
	had := before.Has(k)
	spec.Invariant(func(f int64) bool {
		return 0 <= f && f <= fudge && spec.Forall(0, int(f), func(g int) bool {
			_, ok := o.m[ts+int64(g)]
			return ok
		})
	})
	s.st.Put(e, source)
	v, ok := o.at(k)
	if full {
		spec.Cover("a full source")
		spec.Ensures("a source holds no more than its maximum", o.size() == size)
		spec.Ensures("what expires is counted", s.tree.meta.Expired == expired+1 && s.out.n == 1)
		spec.Ensures("what is stored is counted", s.st.count == count)
	} else {
		spec.Ensures("a source holds what was put", o.size() == size+1)
		spec.Ensures("what does not expire is not counted so", s.tree.meta.Expired == expired && s.out.n == 0)
		spec.Ensures("what is stored is counted", s.st.count == count+1)
	}
	if had && !(full && first) {
		spec.Cover("another envelope")
		spec.Ensures("nothing but the oldest of a full source is removed", ok && v == before.Get(k))
	}
	if ok && !had {
		spec.Ensures("only what was put is added", v == e)
		spec.Ensures("an envelope is stored at its time, or shortly after", k >= ts && k-ts < fudge)
	}
	if full && first && ok {
		spec.Ensures("what expires is removed", v == e)
	}
	if spec.Native() {
		for f := int64(0); f < fudge; f++ {
			if v, _ := o.at(ts + f); v == e {
				o.put = ts + f
			}
		}
	}
	v, ok = o.at(o.put)
	spec.Ensures("what was put is stored", ok && v == e && ts <= o.put && o.put-ts < fudge)
	spec.Ensures("the newest time is told", s.tree.meta.NewestTimestamp == newest && ts <= newest || s.tree.meta.NewestTimestamp == ts && ts > newest)
	spec.Ensures("the oldest time is told", o.least(s.tree.meta.OldestTimestamp))
	spec.Ensures("what is put is counted", s.in.n == 1)
	spec.Ensures("the store's oldest time is no later than a source's", s.st.oldestTimestamp <= s.tree.meta.OldestTimestamp && (s.st.oldestTimestamp == oldest || s.st.oldestTimestamp == s.tree.meta.OldestTimestamp))
}

// ContractMeta: each source is told of, as it is.
func ContractMeta(held map[string]*storage, s string) {
	c := &counter_{}
	st := &Store{metrics: Metrics{c, c, c, c, c, c, c}}
	spec.Requires(spec.ForallKey(func(k string) bool {
		v, ok := held[k]
		return !ok || v != nil
	}, held))
	if spec.Native() {
		for k, v := range held {
			v = &storage{meta: v.meta, Tree: avltree.NewWith(utils.Int64Comparator)}
			held[k] = v
			for i := 0; i < spec.Rand.Intn(5); i++ {
				v.Put(spec.Rand.Int63(), &loggregator_v2.Envelope{})
			}
			st.storageIndex.Store(k, v)
			if spec.Rand.Intn(3) == 0 {
				s = k
			}
		}
	}
	spec.Replace((*sync.Map).Range, func(_ *sync.Map, f func(k, v interface{}) bool) {
		for k, v := range held {
			if !f(k, v) {
				return
			}
		}
	})
	spec.Replace((*sync.Map).Load, func(_ *sync.Map, k interface{}) (interface{}, bool) {
		v, ok := held[k.(string)]
		return v, ok
	})
	spec.Replace((*avltree.Tree).Size, func(t *avltree.Tree) int { return spec.Fn[int]("size", t) })
	spec.Invariant(func(told map[string]logcache_v1.MetaInfo, done spec.Visited[string]) bool {
		m, ok := told[s]
		v, had := held[s]
		return ok == (had && done.Has(s)) && (!ok || alike_(m, v.meta))
	})
	spec.Invariant(func(told map[string]logcache_v1.MetaInfo) bool {
		return spec.ForallKey(func(k string) bool {
			_, ok := told[k]
			_, had := held[k]
			return !ok || had
		}, held)
	})
	spec.Invariant(func(told map[string]logcache_v1.MetaInfo, done spec.Visited[string]) bool {
		m, ok := told[s]
		v, had := held[s]
		return ok == had && (!ok || alike_(m, v.meta) && (!done.Has(s) || m.Count == int64(spec.Fn[int]("size", v.Tree))))
	})
	told := st.Meta()
	m, ok := told[s]
	v, had := held[s]
	spec.Ensures("a source is told of when it is stored", ok == had)
	if ok {
		spec.Cover("a source")
		spec.Ensures("times and what expired are told", alike_(m, v.meta))
		size := 0
		if spec.Native() {
			size = v.Size()
		} else {
			size = spec.Fn[int]("size", v.Tree)
		}
		spec.Ensures("how many are stored is told", m.Count == int64(size))
	}
}

func alike_(m, w logcache_v1.MetaInfo) bool {
	return m.Expired == w.Expired && m.OldestTimestamp == w.OldestTimestamp && m.NewestTimestamp == w.NewestTimestamp
}

// ContractFirst: a new store holds nothing, and then what was put first.
func ContractFirst(e *loggregator_v2.Envelope, source, other string, max int) {
	spec.Requires(e != nil && max > 0 && e.Timestamp >= 0 && e.Timestamp < 1<<62 && source != other)
	if spec.Native() {
		return // a new store goes on forever
	}
	spec.GoSkip()
	spec.Replace(metrics.WithMetricTags, func(map[string]string) metrics.MetricOption { return nil })
	o := &ordered_{}
	o.trees()
	st := NewStore(max, &consultant_{}, &registry_{})
	st.Put(e, source)
	v, ok := o.at(e.Timestamp)
	spec.Ensures("what was put is stored", ok && v == e && o.size() == 1)
	told := st.Meta()
	m, ok := told[source]
	_, no := told[other]
	spec.Ensures("the source is told of, and nothing else", ok && !no && len(told) == 1)
	spec.Ensures("it holds one envelope, and none expired", m.Count == 1 && m.Expired == 0)
	spec.Ensures("it is as old as the envelope", m.OldestTimestamp == e.Timestamp && m.NewestTimestamp == e.Timestamp)
	spec.Ensures("other sources hold nothing", st.Get(other, time.Unix(0, 0), time.Unix(1<<30, 0), nil, nil, 10, false) == nil)
}

type consultant_ struct{}

func (*consultant_) GetQuantityToPrune(int64) int      { return 0 }
func (*consultant_) SetMemoryReporter(g metrics.Gauge) {}

type registry_ struct{}

func (*registry_) NewCounter(string, ...metrics.MetricOption) metrics.Counter { return &counter_{} }
func (*registry_) NewGauge(string, ...metrics.MetricOption) metrics.Gauge     { return &counter_{} }

// ContractRemove: of a source the oldest is removed, and an empty source is
// stored no longer.
func ContractRemove(held map[int64]*loggregator_v2.Envelope, source, other string, k, count int64, info *logcache_v1.MetaInfo) {
	spec.Requires(held != nil && info != nil && info.Expired < 1<<62 && count > -1<<62)
	if spec.Native() {
		for h := range held {
			if spec.Rand.Intn(3) == 0 {
				k = h
			}
		}
	}
	o := &ordered_{m: held}
	s := o.store(100, 10, count, 0)
	s.tree = &storage{sourceId: source, meta: *info, Tree: o.tree}
	s.st.storageIndex.Store(source, s.tree)
	s.st.storageIndex.Store(other, s.tree)
	before, size := copyOf_(held), len(held)
	first := spec.Holds(func() bool { return least_(held, k) })
	expired := info.Expired
	next, more := s.st.removeOldestEnvelope(s.tree, source)
	v, ok := o.at(k)
	_, kept := s.st.storageIndex.Load(source)
	_, keptOther := s.st.storageIndex.Load(other)
	if size == 0 {
		spec.Ensures("of nothing nothing is removed", !more && s.out.n == 0 && s.st.count == count && o.size() == 0)
		return
	}
	spec.Ensures("one is removed, and counted", o.size() == size-1 && s.out.n == 1 && s.st.count == count-1)
	spec.Ensures("the oldest is removed and nothing else", ok == (before.Has(k) && !first) && (!ok || v == before.Get(k)))
	spec.Ensures("a source is stored as long as it holds something", more == (size > 1) && kept == more || source == other)
	spec.Ensures("other sources stay", source == other || keptOther)
	if more {
		spec.Cover("more")
		spec.Ensures("the oldest that is left is told", o.least(next) && s.tree.meta.OldestTimestamp == next && s.tree.meta.Expired == expired+1)
	}
}
