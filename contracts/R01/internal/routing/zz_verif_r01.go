package routing

import (
	"errors"
	"regexp"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// store is what the reader reads from.
type store_ struct {
	asked      int
	source     string
	start, end time.Time
	types      []logcache_v1.EnvelopeType
	filter     *regexp.Regexp
	limit      int
	descending bool
	envs       []*loggregator_v2.Envelope
	meta       map[string]logcache_v1.MetaInfo
}

func (s *store_) Get(source string, start, end time.Time, types []logcache_v1.EnvelopeType, filter *regexp.Regexp, limit int, descending bool) []*loggregator_v2.Envelope {
	s.asked++
	s.source, s.start, s.end, s.types, s.filter, s.limit, s.descending = source, start, end, types, filter, limit, descending
	return s.envs
}

func (s *store_) Meta() map[string]logcache_v1.MetaInfo { return s.meta }

// compiles: the text is a regular expression.
func compiles_(text string) bool {
	if spec.Native() {
		_, err := regexp.Compile(text)
		return err == nil
	}
	return spec.Fn[bool]("is a regular expression", text)
}

func isFilter_(r *regexp.Regexp, text string) bool {
	if spec.Native() {
		return r != nil && r.String() == text
	}
	return r != nil && r == spec.Fn[*regexp.Regexp]("filter", text)
}

func compiling_() {
	spec.Replace(regexp.Compile, func(text string) (*regexp.Regexp, error) {
		if !spec.Fn[bool]("is a regular expression", text) {
			return nil, errors.New("no regular expression")
		}
		r := spec.Fn[*regexp.Regexp]("filter", text)
		spec.Requires(r != nil)
		return r, nil
	})
}

func request_(q *logcache_v1.ReadRequest) {
	if spec.Native() {
		if spec.Rand.Intn(2) == 0 {
			q.Limit %= 1500
		}
		if spec.Rand.Intn(3) == 0 {
			q.EndTime = 0
		}
		if spec.Rand.Intn(4) == 0 {
			q.NameFilter = "("
		}
	}
	compiling_()
}

// ContractRead: proper requests are answered by the store, as they are asked.
func ContractRead(q *logcache_v1.ReadRequest, st *store_, ctx ghost.Ctx, k int) {
	spec.Requires(q != nil && st != nil && k >= 0)
	q.EnvelopeTypes = nil
	request_(q)
	st.asked = 0
	source, start, end, limit, name, descending := q.SourceId, q.StartTime, q.EndTime, q.Limit, q.NameFilter, q.Descending
	envs := st.envs
	before := time.Now().UnixNano()
	resp, err := NewLocalStoreReader(st).Read(ctx, q)
	after := time.Now().UnixNano()
	good := (end == 0 || start <= end) && limit >= 0 && limit <= 1000 && (name == "" || compiles_(name))
	spec.Ensures("requests that make no sense, and only they, are refused", (err == nil) == good)
	if !good {
		spec.Cover("refused")
		spec.Ensures("a refused request reads nothing", st.asked == 0 && resp == nil)
		return
	}
	spec.Ensures("the store is read once", st.asked == 1)
	spec.Ensures("the source asked for is read", st.source == source)
	spec.Ensures("from the start asked for", st.start.UnixNano() == start)
	if end != 0 {
		spec.Ensures("to the end asked for", st.end.UnixNano() == end)
	} else {
		spec.Ensures("to the present when no end is asked for", before <= st.end.UnixNano() && st.end.UnixNano() <= after)
	}
	if limit != 0 {
		spec.Ensures("as many envelopes as asked for", st.limit == int(limit))
	} else {
		spec.Ensures("a hundred envelopes when no number is asked for", st.limit == 100)
	}
	spec.Ensures("in the order asked for", st.descending == descending)
	if name != "" {
		spec.Ensures("names are filtered as asked for", isFilter_(st.filter, name))
	} else {
		spec.Ensures("all names when no filter is asked for", st.filter == nil)
	}
	got := resp.Envelopes.Batch
	spec.Ensures("all envelopes read are answered", len(got) == len(envs))
	if k < len(envs) {
		spec.Ensures("they are answered in the store's order", got[k] == envs[k])
	}
}

// ContractTypes: the types asked for are read.
func ContractTypes(q *logcache_v1.ReadRequest, st *store_, ctx ghost.Ctx, k int) {
	spec.Requires(q != nil && st != nil && k >= 0)
	q.StartTime, q.EndTime, q.Limit, q.NameFilter = 5, 10, 10, ""
	st.asked = 0
	wanted := q.EnvelopeTypes
	spec.Invariant(func(types []logcache_v1.EnvelopeType, i int) bool {
		return spec.Forall(0, len(types), func(a int) bool {
			return types[a] != logcache_v1.EnvelopeType_ANY && spec.Exists(0, i+1, func(b int) bool { return wanted[b] == types[a] })
		})
	})
	spec.Invariant(func(types []logcache_v1.EnvelopeType, i int) bool {
		return !(k <= i && k < len(wanted)) || wanted[k] == logcache_v1.EnvelopeType_ANY || spec.Exists(0, len(types), func(a int) bool { return types[a] == wanted[k] })
	})
	_, err := NewLocalStoreReader(st).Read(ctx, q)
	spec.Ensures("a proper request is answered", err == nil && st.asked > 0)
	spec.Ensures("only types asked for are read, and every type is no type of its own", spec.Forall(0, len(st.types), func(a int) bool {
		return st.types[a] != logcache_v1.EnvelopeType_ANY && spec.Exists(0, len(wanted), func(b int) bool { return wanted[b] == st.types[a] })
	}))
	if k < len(wanted) && wanted[k] != logcache_v1.EnvelopeType_ANY {
		spec.Cover("a type asked for")
		spec.Ensures("each type asked for is read", spec.Exists(0, len(st.types), func(a int) bool { return st.types[a] == wanted[k] }))
	}
}

// ContractMeta: what the store tells of each source is answered, of the source
// it tells it of.
func ContractMeta(st *store_, ctx ghost.Ctx, q *logcache_v1.MetaRequest, s, t string) {
	spec.Requires(st != nil && q != nil)
	meta := st.meta
	info, held := meta[s]
	_, heldt := meta[t]
	spec.Invariant(func(shown map[string]*logcache_v1.MetaInfo, done spec.Visited[string]) bool {
		v, ok := shown[s]
		return ok == (held && done.Has(s)) && (!ok || equal_(v, info))
	})
	spec.Invariant(func(shown map[string]*logcache_v1.MetaInfo, done spec.Visited[string]) bool {
		v, ok := shown[t]
		return ok == (heldt && done.Has(t)) && (!ok || v != nil)
	})
	spec.Invariant(func(shown map[string]*logcache_v1.MetaInfo) bool {
		v, ok := shown[t]
		w, okw := shown[s]
		return s == t || !ok || !okw || v != w
	})
	resp, err := NewLocalStoreReader(st).Meta(ctx, q)
	spec.Ensures("the store always answers", err == nil)
	v, ok := resp.Meta[s]
	spec.Ensures("sources are told of when the store has them", ok == held)
	if ok {
		spec.Cover("a source")
		spec.Ensures("what is told of a source is what the store has", equal_(v, info))
		w, okw := resp.Meta[t]
		spec.Ensures("what is told of one source is not shared with another", !okw || s == t || w != v)
	}
}

func equal_(v *logcache_v1.MetaInfo, w logcache_v1.MetaInfo) bool {
	return v != nil && v.Count == w.Count && v.Expired == w.Expired && v.OldestTimestamp == w.OldestTimestamp && v.NewestTimestamp == w.NewestTimestamp
}
