// Package avltree is a stand-in for github.com/emirpasic/gods/trees/avltree
// (same exported surface as far as log-cache uses it; a real AVL tree).
package avltree

import "github.com/emirpasic/gods/utils"

type Tree struct {
	Root       *Node
	Comparator utils.Comparator
	size       int
}
type Node struct {
	Key      interface{}
	Value    interface{}
	Parent   *Node
	Children [2]*Node
	b        int8
}

func NewWith(c utils.Comparator) *Tree { return &Tree{Comparator: c} }
func (t *Tree) Size() int              { return t.size }
func (t *Tree) Empty() bool            { return t.size == 0 }
func (t *Tree) find(k interface{}) *Node {
	n := t.Root
	for n != nil {
		c := t.Comparator(k, n.Key)
		if c == 0 {
			return n
		}
		if c < 0 {
			n = n.Children[0]
		} else {
			n = n.Children[1]
		}
	}
	return nil
}
func (t *Tree) Get(k interface{}) (interface{}, bool) {
	if n := t.find(k); n != nil {
		return n.Value, true
	}
	return nil, false
}
func (t *Tree) Left() *Node {
	n := t.Root
	for n != nil && n.Children[0] != nil {
		n = n.Children[0]
	}
	return n
}
func (t *Tree) Right() *Node {
	n := t.Root
	for n != nil && n.Children[1] != nil {
		n = n.Children[1]
	}
	return n
}
func (t *Tree) Floor(k interface{}) (*Node, bool) {
	var f *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(k, n.Key)
		if c == 0 {
			return n, true
		}
		if c < 0 {
			n = n.Children[0]
		} else {
			f, n = n, n.Children[1]
		}
	}
	return f, f != nil
}

func h(n *Node) int8 {
	if n == nil {
		return 0
	}
	return n.b
}
func fix(n *Node) {
	a, b := h(n.Children[0]), h(n.Children[1])
	if a < b {
		a = b
	}
	n.b = a + 1
	for _, c := range n.Children {
		if c != nil {
			c.Parent = n
		}
	}
}
func rot(n *Node, d int) *Node { // child d comes up
	c := n.Children[d]
	n.Children[d] = c.Children[1-d]
	c.Children[1-d] = n
	fix(n)
	fix(c)
	return c
}
func bal(n *Node) *Node {
	fix(n)
	for d := 0; d < 2; d++ {
		if h(n.Children[d])-h(n.Children[1-d]) > 1 {
			c := n.Children[d]
			if h(c.Children[1-d]) > h(c.Children[d]) {
				n.Children[d] = rot(c, 1-d)
			}
			return rot(n, d)
		}
	}
	return n
}
func (t *Tree) put(n *Node, k, v interface{}) *Node {
	if n == nil {
		t.size++
		return &Node{Key: k, Value: v, b: 1}
	}
	c := t.Comparator(k, n.Key)
	switch {
	case c == 0:
		n.Key, n.Value = k, v
		return n
	case c < 0:
		n.Children[0] = t.put(n.Children[0], k, v)
	default:
		n.Children[1] = t.put(n.Children[1], k, v)
	}
	return bal(n)
}
func (t *Tree) Put(k, v interface{}) {
	t.Root = t.put(t.Root, k, v)
	t.Root.Parent = nil
}
func (t *Tree) rmMin(n *Node) (*Node, *Node) {
	if n.Children[0] == nil {
		return n.Children[1], n
	}
	l, m := t.rmMin(n.Children[0])
	n.Children[0] = l
	return bal(n), m
}
func (t *Tree) rm(n *Node, k interface{}) *Node {
	if n == nil {
		return nil
	}
	c := t.Comparator(k, n.Key)
	switch {
	case c < 0:
		n.Children[0] = t.rm(n.Children[0], k)
	case c > 0:
		n.Children[1] = t.rm(n.Children[1], k)
	default:
		t.size--
		if n.Children[0] == nil {
			return n.Children[1]
		}
		if n.Children[1] == nil {
			return n.Children[0]
		}
		r, m := t.rmMin(n.Children[1])
		m.Children[1] = r
		m.Children[0] = n.Children[0]
		return bal(m)
	}
	return bal(n)
}
func (t *Tree) Remove(k interface{}) {
	t.Root = t.rm(t.Root, k)
	if t.Root != nil {
		t.Root.Parent = nil
	}
}
func (t *Tree) Keys() []interface{} {
	var ks []interface{}
	var w func(*Node)
	w = func(n *Node) {
		if n != nil {
			w(n.Children[0])
			ks = append(ks, n.Key)
			w(n.Children[1])
		}
	}
	w(t.Root)
	return ks
}
