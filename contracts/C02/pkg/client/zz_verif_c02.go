package client

import (
	"time"

	"verif.local/spec"
)

// backoffHistory drives a retrying backoff through an arbitrary history of
// failed, empty and successful reads.
func backoffHistory_(b Backoff, interval time.Duration, max int, onlyErr bool) {
	fails := 0
	for spec.Any[bool]("another read") {
		t := time.Now()
		switch spec.Any[int]("outcome of the read") {
		case 0:
			fails++
			again := b.OnErr(spec.Any[error]("read error"))
			spec.Ensures("a failed read is retried while the failures in a row stay below the maximum", again == (fails < max))
			spec.Ensures("a retry waits for the interval", !again || !time.Now().Before(t.Add(interval)))
		case 1:
			if onlyErr {
				spec.Ensures("an empty batch ends a walk that only retries errors", !b.OnEmpty())
				continue
			}
			fails++
			again := b.OnEmpty()
			spec.Ensures("an empty read is retried while the failures in a row stay below the maximum", again == (fails < max))
			spec.Ensures("a retry waits for the interval", !again || !time.Now().Before(t.Add(interval)))
		default:
			b.Reset()
			fails = 0
		}
	}
}

func smallInterval_(d time.Duration) time.Duration {
	if spec.Native() {
		return d & 0xfffff
	}
	return d
}

func ContractRetryBackoff(interval time.Duration, max int) {
	interval = smallInterval_(interval)
	spec.Requires(interval >= 0 && interval < 1<<50 && max < 1<<40)
	backoffHistory_(NewRetryBackoff(interval, max), interval, max, false)
}

func ContractRetryBackoffOnErr(interval time.Duration, max int) {
	interval = smallInterval_(interval)
	spec.Requires(interval >= 0 && interval < 1<<50 && max < 1<<40)
	backoffHistory_(NewRetryBackoffOnErr(interval, max), interval, max, true)
}

func ContractAlwaysRetryBackoff(interval time.Duration) {
	interval = smallInterval_(interval)
	spec.Requires(interval >= 0 && interval < 1<<50)
	b := NewAlwaysRetryBackoff(interval)
	for spec.Any[bool]("another read") {
		t := time.Now()
		again := false
		if spec.Any[bool]("failed") {
			again = b.OnErr(spec.Any[error]("read error"))
		} else {
			again = b.OnEmpty()
		}
		spec.Ensures("an always-retrying backoff never gives up", again)
		spec.Ensures("a retry waits for the interval", !time.Now().Before(t.Add(interval)))
		b.Reset()
	}
}

func ContractAlwaysDoneBackoff() {
	b := AlwaysDoneBackoff{}
	for spec.Any[bool]("another read") {
		if spec.Any[bool]("failed") {
			spec.Ensures("an always-done backoff gives up on an error", !b.OnErr(spec.Any[error]("read error")))
		} else {
			spec.Ensures("an always-done backoff gives up on an empty batch", !b.OnEmpty())
		}
		b.Reset()
	}
}

// Without a backoff option a walk makes no second attempt.
func ContractDefaultBackoff(id string) {
	reads := 0
	var ctxErr error
	Walk(verifCtx_{&ctxErr}, id, func(es envs_) bool { return true }, failingReader_(&reads, 1))
	spec.Ensures("a walk without a backoff gives up on the first failure", reads == 1)
}
