package client

import (
	"context"
	"errors"
	"net/url"
	"strconv"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

func sameEnvs_(a, b envs_) bool {
	return len(a) == len(b) && spec.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// windowContract observes the walker and the visitor of a window that starts between lo and hi.
func windowContract_(lo, hi func() int64, interval, width time.Duration, opts ...WindowOption) {
	started, walked, done := false, false, false
	var next int64 // where the next window has to start
	var last envs_
	// where the window is about to start
	spec.Invariant(func(t time.Time) bool {
		return started && t.UnixNano() == next || !started && lo() <= t.UnixNano() && t.UnixNano() <= hi()
	})
	ctx := ghost.Ctx{Mark: callerMark_}
	walker := func(c context.Context, start, end time.Time) []*loggregator_v2.Envelope {
		spec.Requires(next < 1<<61)
		spec.Ensures("no walk after the visitor stopped", !done)
		spec.Ensures("every walk is visited before the next one", !walked)
		if !started {
			next = start.UnixNano()
			spec.Ensures("the first window starts where it was asked to", lo() <= next && next <= hi())
		}
		spec.Ensures("windows advance by the interval, without gap or repetition", start.UnixNano() == next)
		started = true
		spec.Ensures("every window has the configured width", end.UnixNano() == start.UnixNano()+int64(width))
		spec.Ensures("walks inherit the caller's context", ghost.MarkOf(c) == callerMark_)
		d, ok := c.Deadline()
		spec.Ensures("a walk gets a deadline", ok)
		spec.Ensures("a walk may not take longer than the interval", !d.After(time.Now().Add(interval)))
		spec.Ensures("a walk starts with a live context", c.Err() == nil || spec.Native() || !time.Now().Before(d))
		walked = true
		last = spec.Any[envs_]("walked")
		return last
	}
	visitor := func(es []*loggregator_v2.Envelope) bool {
		spec.Ensures("a visit follows a walk", walked && !done)
		spec.Ensures("the visitor gets what was walked", sameEnvs_(es, last))
		walked = false
		next += int64(interval)
		more := spec.Any[bool]("visitor result")
		done = !more
		return more
	}
	Window(ctx, visitor, walker, opts...)
	spec.Ensures("the window ends only when the visitor says so", done)
}

func smallDurations_(interval, width time.Duration) (time.Duration, time.Duration) {
	if spec.Native() {
		return interval&0x3ffff + 1000, width & 0xffffffffff
	}
	spec.Requires(interval > 0 && interval < 1<<50 && width >= 0 && width < 1<<50)
	return interval, width
}

func ContractWindow(start int64, interval, width time.Duration) {
	interval, width = smallDurations_(interval, width)
	spec.Requires(start > -1<<60 && start < 1<<60)
	at := func() int64 { return start }
	windowContract_(at, at, interval, width, WithWindowStartTime(time.Unix(0, start)), WithWindowWidth(width), WithWindowInterval(interval))
}

// Without a start time the first window is the one that ends now.
func ContractWindowDefaultStart(interval, width time.Duration) {
	interval, width = smallDurations_(interval, width)
	t0 := time.Now().UnixNano()
	windowContract_(func() int64 { return t0 - int64(width) }, func() int64 { return time.Now().UnixNano() - int64(width) }, interval, width,
		WithWindowInterval(interval), WithWindowWidth(width))
}

// The default width is an hour, the default interval a minute.
func ContractWindowDefaults(start int64, interval time.Duration) {
	spec.Requires(start > -1<<60 && start < 1<<60)
	at := func() int64 { return start }
	interval, _ = smallDurations_(interval, 0)
	windowContract_(at, at, interval, time.Hour, WithWindowStartTime(time.Unix(0, start)), WithWindowInterval(interval))
}

func ContractWindowDefaultInterval(start int64) {
	spec.Requires(start > -1<<60 && start < 1<<60)
	if spec.Native() {
		return // takes minutes
	}
	at := func() int64 { return start }
	windowContract_(at, at, time.Minute, time.Hour, WithWindowStartTime(time.Unix(0, start)))
}

// BuildWalker returns everything a walk over the interval delivers, in order.
func ContractBuildWalker(id string, start, end int64, k int) {
	spec.Requires(k >= 0)
	spec.Requires(start > -1<<60 && start < 1<<60 && end > -1<<60 && end < 1<<60)
	var all spec.Seq[*loggregator_v2.Envelope]
	var down error
	ctx := ghost.Ctx{Mark: callerMark_, E: &down}
	if spec.Native() {
		buildWalkerNative_(id, start, end)
		return
	}
	theReader := func(context.Context, string, time.Time, ...ReadOption) (envs_, error) { return nil, nil }
	walks := 0
	spec.Invariant(func(r envs_) bool {
		return len(r) == all.Len() && (k >= len(r) || r[k] == all.At(k))
	})
	// one envelope after the other
	before := 0
	spec.Invariant(func(r envs_, i int) bool {
		return len(r) == before+i+1 && (k >= len(r) || r[k] == all.At(k))
	})
	spec.Invariant(func(r, es envs_) bool {
		return spec.Separate(r, es) && (k < before || k-before >= len(es) || es[k-before] == all.At(k))
	})
	spec.Replace(Walk, func(c context.Context, sid string, v Visitor, r Reader, opts ...WalkOption) {
		walks++
		spec.Ensures("the walk is for the asked source", sid == id)
		spec.Ensures("the walk inherits the caller's context", ghost.MarkOf(c) == callerMark_)
		// what a walk with these options asks for
		stop := errors.New("stop")
		var pe error = stop
		asked := 0
		Walk(ghost.Ctx{E: &pe}, sid, func(envs_) bool { return true }, func(_ context.Context, _ string, from time.Time, ro ...ReadOption) (envs_, error) {
			asked++
			q := url.Values{}
			for _, o := range ro {
				o(nil, q)
			}
			spec.Ensures("the walk starts at the start of the interval", from.UnixNano() == start)
			spec.Ensures("the walk ends at the end of the interval", only_(q, "end_time", strconv.FormatInt(end, 10)))
			spec.Ensures("the walk is not filtered", !spec.Exists(0, 1, func(int) bool { return len(q) != 1 }))
			return nil, stop
		}, opts...)
		for spec.Any[bool]("another batch") {
			es := spec.AnyNew[*loggregator_v2.Envelope]("batch")
			before = all.Len()
			all = all.Concat(spec.SeqOf(es))
			spec.Ensures("the walk is never cut short", v(es))
		}
		down = spec.Any[error]("end of the context")
	})
	got := BuildWalker(id, theReader)(ctx, time.Unix(0, start), time.Unix(0, end))
	spec.Ensures("one walk is made", walks == 1)
	spec.Ensures("nothing delivered is lost or repeated", len(got) == all.Len())
	spec.Ensures("everything delivered keeps its place", k >= len(got) || got[k] == all.At(k))
}

// On the real code: a store with a page size, read through a real walk.
func buildWalkerNative_(id string, start, end int64) {
	start, end = start&0xff, end&0x1ff
	var stored envs_
	t := int64(0)
	for i := 0; i < 40; i++ {
		t += int64(spec.Any[uint8]("gap")) % 9
		stored = append(stored, &loggregator_v2.Envelope{Timestamp: t, SourceId: id})
	}
	var want, read envs_
	for _, e := range stored {
		if e.Timestamp >= start && e.Timestamp < end {
			want = append(want, e)
		}
	}
	var down error
	live := int(spec.Any[uint8]("reads before the context ends"))
	r := func(c context.Context, sid string, from time.Time, ro ...ReadOption) (envs_, error) {
		var out envs_
		if live--; live < 0 {
			down = errors.New("ended")
			return nil, down
		}
		for i, e := range stored {
			if e.Timestamp < from.UnixNano() {
				continue
			}
			if len(out) >= 5 && e.Timestamp != stored[i-1].Timestamp {
				break
			}
			out = append(out, e)
			if e.Timestamp < end {
				read = append(read, e)
			}
		}
		return out, nil
	}
	got := BuildWalker(id, r)(ghost.Ctx{Mark: callerMark_, E: &down}, time.Unix(0, start), time.Unix(0, end))
	spec.Ensures("nothing delivered is lost, repeated or reordered", sameEnvs_(got, want) || down != nil && sameEnvs_(got, read))
}
