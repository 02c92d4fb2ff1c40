// Package sigar is a stand-in for github.com/cloudfoundry/gosigar.
package sigar

type Mem struct{ Total, Used, Free, ActualFree, ActualUsed uint64 }

func (m *Mem) Get() error { m.Total, m.Free, m.ActualFree = 1<<34, 1<<33, 1<<33; return nil }
