package client

import (
	"context"
	"time"

	"verif.local/spec"
)

// walkGhost records what an observer of reader, visitor and backoff sees.
type walkGhost_ struct {
	next    int64 // where the next read has to start
	batch   envs_ // the last batch the reader returned
	cut     int64 // envelopes up to here were old enough when it was returned
	empty   bool  // the read before produced nothing to deliver
	owed    bool  // the last batch certainly has deliverable envelopes
	done    bool  // no further read is allowed
	may     bool  // returning now is justified
	failed  bool  // the last read failed and this has not been reported yet
	visited bool
	reset   bool
}

type ghostBackoff_ struct{ g *walkGhost_ }

func (b ghostBackoff_) OnErr(err error) bool {
	spec.Ensures("backoff hears of an error only after a failed read", b.g.failed)
	b.g.failed = false
	again := spec.Any[bool]("retry after error")
	if !again {
		b.g.done, b.g.may = true, true
	}
	return again
}

func (b ghostBackoff_) OnEmpty() bool {
	spec.Ensures("a batch is called empty only if nothing in it is deliverable", !b.g.owed)
	again := spec.Any[bool]("retry after empty")
	b.g.empty = true
	if !again {
		b.g.done, b.g.may = true, true
	}
	return again
}

func (b ghostBackoff_) Reset() { b.g.reset = true }

func walkContract_(id string, start, end int64, hasEnd bool, delay time.Duration) {
	spec.Requires(delay >= 0 && delay < 1<<50)
	spec.Requires(start > -1<<60 && start < 1<<60 && end > -1<<60 && end < 1<<60)
	g := &walkGhost_{next: start}
	var ctxErr error
	ctx := verifCtx_{&ctxErr}

	// cutting the last batch at n is justified
	cutHere := func(n int) bool {
		return n >= 0 && n <= len(g.batch) && (n == len(g.batch) || (hasEnd && g.batch[n].Timestamp >= end) ||
			(!(hasEnd && g.empty) && g.batch[n].Timestamp > g.cut))
	}
	spec.Invariant(func(es envs_) bool { return cutHere(len(es)) })
	spec.Invariant(func(n int) bool { return cutHere(n) })
	spec.Invariant(func(es, before envs_) bool { return len(es) <= len(before) })

	reader := func(c context.Context, sid string, from time.Time, opts ...ReadOption) (envs_, error) {
		spec.Ensures("no read after the walk has to end", !g.done)
		spec.Ensures("every deliverable batch is delivered before the next read", !g.owed)
		spec.Ensures("a failed read is reported to the backoff", !g.failed)
		spec.Ensures("reads ask for the walked source", sid == id)
		spec.Ensures("a read starts right after the last delivered envelope", from.UnixNano() == g.next)
		err := spec.Any[error]("read error")
		es := spec.Any[envs_]("batch")
		ctxErr = spec.Any[error]("context error")
		spec.Requires(spec.Forall(0, len(es), func(i int) bool { return es[i] != nil && es[i].Timestamp < 1<<60 }))
		spec.Requires(spec.Forall(0, len(es), func(i int) bool {
			return spec.Forall(0, i, func(j int) bool { return es[j].Timestamp <= es[i].Timestamp })
		}))
		g.batch, g.cut, g.reset = es, time.Now().UnixNano()-int64(delay), false
		if err != nil {
			g.failed = true
			if ctxErr != nil {
				g.done, g.may, g.failed = true, true, false
			}
			return es, err
		}
		g.owed = len(es) > 0 && es[0].Timestamp <= g.cut && (!hasEnd || es[0].Timestamp < end)
		return es, nil
	}
	visitor := func(es envs_) bool {
		spec.Ensures("nothing is delivered twice or after the end", !g.done)
		spec.Ensures("the backoff is reset by a successful read", g.reset)
		spec.Ensures("delivered batches are not empty", len(es) > 0)
		n := len(es)
		spec.Ensures("what is delivered is a prefix of what was read", n <= len(g.batch) && spec.Forall(0, n, func(i int) bool { return es[i] == g.batch[i] }))
		now := time.Now().UnixNano() - int64(delay)
		late := hasEnd && g.empty
		spec.Ensures("nothing at or after the end time is delivered", !hasEnd || spec.Forall(0, n, func(i int) bool { return es[i].Timestamp < end }))
		spec.Ensures("nothing newer than the delay allows is delivered", late || es[n-1].Timestamp <= now)
		spec.Ensures("nothing deliverable is withheld", cutHere(n))
		g.owed, g.empty = false, false
		g.next = es[n-1].Timestamp + 1
		more := spec.Any[bool]("visitor result")
		if !more || (hasEnd && g.next >= end) {
			g.done, g.may = true, true
		}
		return more
	}
	opts := []WalkOption{WithWalkStartTime(time.Unix(0, start)), WithWalkDelay(delay), WithWalkBackoff(ghostBackoff_{g})}
	if hasEnd {
		opts = append(opts, WithWalkEndTime(time.Unix(0, end)))
	}
	Walk(ctx, id, visitor, reader, opts...)
	spec.Ensures("the walk ends only for a reason", g.may)
	spec.Ensures("the walk never drops its last batch", !g.owed)
}

func ContractWalkWithEnd(id string, start, end int64, delay time.Duration) {
	walkContract_(id, start, end, true, delay)
}

func ContractWalkOpenEnded(id string, start int64, delay time.Duration) {
	walkContract_(id, start, 0, false, delay)
}
