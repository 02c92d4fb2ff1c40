package spec

import (
	"bytes"
	"encoding/json"
)

// JSON is a parsed JSON document (what a conforming reader sees of the bytes).
type JSON struct {
	v  interface{}
	ok bool
}

// ParseJSON reads a document; trailing white space is ignored.
func ParseJSON(b []byte) JSON {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return JSON{}
	}
	if d.More() {
		return JSON{}
	}
	return JSON{v, true}
}

// JSONOf is the document encoding/json produces for v.
func JSONOf(v interface{}) JSON {
	b, err := json.Marshal(v)
	if err != nil {
		return JSON{}
	}
	return ParseJSON(b)
}

// Field is a member of an object (the absent document if there is none).
func (j JSON) Field(name string) JSON {
	m, ok := j.v.(map[string]interface{})
	if !ok {
		return JSON{}
	}
	v, ok := m[name]
	return JSON{v, ok}
}

// At is an element of an array.
func (j JSON) At(i int) JSON {
	a, ok := j.v.([]interface{})
	if !ok || i < 0 || i >= len(a) {
		return JSON{}
	}
	return JSON{a[i], true}
}

// Len is the length of an array (-1 for anything else).
func (j JSON) Len() int {
	a, ok := j.v.([]interface{})
	if !ok {
		return -1
	}
	return len(a)
}

// Str is the value of a string ("" for anything else).
func (j JSON) Str() string {
	s, _ := j.v.(string)
	return s
}

// Num is the literal of a number ("" for anything else).
func (j JSON) Num() string {
	n, _ := j.v.(json.Number)
	return string(n)
}

// StrMap is an object whose members are all strings.
func (j JSON) StrMap() Map[string, string] {
	r := map[string]string{}
	m, ok := j.v.(map[string]interface{})
	if !ok {
		return Map[string, string]{map[string]string{"\x00not an object": ""}}
	}
	for k, v := range m {
		s, ok := v.(string)
		if !ok {
			return Map[string, string]{map[string]string{"\x00not a string": ""}}
		}
		r[k] = s
	}
	return Map[string, string]{r}
}

// Garbage: the bytes do not begin with a JSON value.
func Garbage(b []byte) bool {
	var v interface{}
	return json.NewDecoder(bytes.NewReader(b)).Decode(&v) != nil
}

// Apart: the array shown by the document is stored elsewhere than s, a slice
// or a document showing one (for invariants).
func Apart[T any](j JSON, s T) bool { return true }

// Recent: the array shown by the document was made since the loop began (for invariants).
func Recent(j JSON) bool { return true }
