// Package xxhash is a stand-in (FNV-1a) for github.com/cespare/xxhash.
package xxhash

func Sum64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
func Sum64String(s string) uint64 { return Sum64([]byte(s)) }
