// Package avltree stands in for github.com/emirpasic/gods/trees/avltree v1.12
// (not in this sandbox's module cache): the same exported API and the same
// balancing algorithm, so that trees take the same shapes.
package avltree

import (
	"fmt"

	"github.com/emirpasic/gods/utils"
)

// Tree holds elements of the AVL tree.
type Tree struct {
	Root       *Node
	Comparator utils.Comparator
	size       int
}

// Node is a single element within the tree.
type Node struct {
	Key      interface{}
	Value    interface{}
	Parent   *Node
	Children [2]*Node
	b        int8
}

// NewWith instantiates an AVL tree with the custom comparator.
func NewWith(comparator utils.Comparator) *Tree { return &Tree{Comparator: comparator} }

// NewWithIntComparator instantiates an AVL tree with int keys.
func NewWithIntComparator() *Tree { return &Tree{Comparator: utils.IntComparator} }

// Put inserts or replaces.
func (t *Tree) Put(key interface{}, value interface{}) { t.put(key, value, nil, &t.Root) }

// Get searches the node by key.
func (t *Tree) Get(key interface{}) (value interface{}, found bool) {
	n := t.Root
	for n != nil {
		cmp := t.Comparator(key, n.Key)
		switch {
		case cmp == 0:
			return n.Value, true
		case cmp < 0:
			n = n.Children[0]
		case cmp > 0:
			n = n.Children[1]
		}
	}
	return nil, false
}

// Remove removes the node by key.
func (t *Tree) Remove(key interface{}) { t.remove(key, &t.Root) }

// Empty returns true if the tree has no nodes.
func (t *Tree) Empty() bool { return t.size == 0 }

// Size returns the number of elements.
func (t *Tree) Size() int { return t.size }

// Keys returns all keys in order.
func (t *Tree) Keys() []interface{} {
	keys := make([]interface{}, 0, t.size)
	for n := t.Left(); n != nil; n = n.Next() {
		keys = append(keys, n.Key)
	}
	return keys
}

// Values returns all values in key order.
func (t *Tree) Values() []interface{} {
	values := make([]interface{}, 0, t.size)
	for n := t.Left(); n != nil; n = n.Next() {
		values = append(values, n.Value)
	}
	return values
}

// Left returns the minimum element or nil.
func (t *Tree) Left() *Node { return t.bottom(0) }

// Right returns the maximum element or nil.
func (t *Tree) Right() *Node { return t.bottom(1) }

// Floor finds the largest node that is smaller than or equal to key.
func (t *Tree) Floor(key interface{}) (floor *Node, found bool) {
	found = false
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n, true
		case c < 0:
			n = n.Children[0]
		case c > 0:
			floor, found = n, true
			n = n.Children[1]
		}
	}
	if found {
		return
	}
	return nil, false
}

// Ceiling finds the smallest node that is larger than or equal to key.
func (t *Tree) Ceiling(key interface{}) (floor *Node, found bool) {
	found = false
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n, true
		case c < 0:
			floor, found = n, true
			n = n.Children[0]
		case c > 0:
			n = n.Children[1]
		}
	}
	if found {
		return
	}
	return nil, false
}

// Clear removes all nodes.
func (t *Tree) Clear() {
	t.Root = nil
	t.size = 0
}

func (n *Node) String() string { return fmt.Sprintf("%v", n.Key) }

func (t *Tree) put(key interface{}, value interface{}, p *Node, qp **Node) bool {
	q := *qp
	if q == nil {
		t.size++
		*qp = &Node{Key: key, Value: value, Parent: p}
		return true
	}
	c := t.Comparator(key, q.Key)
	if c == 0 {
		q.Key = key
		q.Value = value
		return false
	}
	if c < 0 {
		c = -1
	} else {
		c = 1
	}
	a := (c + 1) / 2
	fix := t.put(key, value, q, &q.Children[a])
	if fix {
		return putFix(int8(c), qp)
	}
	return false
}

func (t *Tree) remove(key interface{}, qp **Node) bool {
	q := *qp
	if q == nil {
		return false
	}
	c := t.Comparator(key, q.Key)
	if c == 0 {
		t.size--
		if q.Children[1] == nil {
			if q.Children[0] != nil {
				q.Children[0].Parent = q.Parent
			}
			*qp = q.Children[0]
			return true
		}
		fix := removeMin(&q.Children[1], &q.Key, &q.Value)
		if fix {
			return removeFix(-1, qp)
		}
		return false
	}
	if c < 0 {
		c = -1
	} else {
		c = 1
	}
	a := (c + 1) / 2
	fix := t.remove(key, &q.Children[a])
	if fix {
		return removeFix(int8(-c), qp)
	}
	return false
}

func removeMin(qp **Node, minKey *interface{}, minVal *interface{}) bool {
	q := *qp
	if q.Children[0] == nil {
		*minKey = q.Key
		*minVal = q.Value
		if q.Children[1] != nil {
			q.Children[1].Parent = q.Parent
		}
		*qp = q.Children[1]
		return true
	}
	fix := removeMin(&q.Children[0], minKey, minVal)
	if fix {
		return removeFix(1, qp)
	}
	return false
}

func putFix(c int8, t **Node) bool {
	s := *t
	if s.b == 0 {
		s.b = c
		return true
	}
	if s.b == -c {
		s.b = 0
		return false
	}
	if s.Children[(c+1)/2].b == c {
		s = singlerot(c, s)
	} else {
		s = doublerot(c, s)
	}
	*t = s
	return false
}

func removeFix(c int8, t **Node) bool {
	s := *t
	if s.b == 0 {
		s.b = c
		return false
	}
	if s.b == -c {
		s.b = 0
		return true
	}
	a := (c + 1) / 2
	if s.Children[a].b == 0 {
		s = rotate(c, s)
		s.b = -c
		*t = s
		return false
	}
	if s.Children[a].b == c {
		s = singlerot(c, s)
	} else {
		s = doublerot(c, s)
	}
	*t = s
	return true
}

func singlerot(c int8, s *Node) *Node {
	s.b = 0
	s = rotate(c, s)
	s.b = 0
	return s
}

func doublerot(c int8, s *Node) *Node {
	a := (c + 1) / 2
	r := s.Children[a]
	s.Children[a] = rotate(-c, s.Children[a])
	p := rotate(c, s)
	switch {
	default:
		s.b = 0
		r.b = 0
	case p.b == c:
		s.b = -c
		r.b = 0
	case p.b == -c:
		s.b = 0
		r.b = c
	}
	p.b = 0
	return p
}

func rotate(c int8, s *Node) *Node {
	a := (c + 1) / 2
	r := s.Children[a]
	s.Children[a] = r.Children[a^1]
	if s.Children[a] != nil {
		s.Children[a].Parent = s
	}
	r.Children[a^1] = s
	r.Parent = s.Parent
	s.Parent = r
	return r
}

func (t *Tree) bottom(d int) *Node {
	n := t.Root
	if n == nil {
		return nil
	}
	for c := n.Children[d]; c != nil; c = n.Children[d] {
		n = c
	}
	return n
}

// Prev returns the previous element in an inorder walk.
func (n *Node) Prev() *Node { return n.walk1(0) }

// Next returns the next element in an inorder walk.
func (n *Node) Next() *Node { return n.walk1(1) }

func (n *Node) walk1(a int) *Node {
	if n == nil {
		return nil
	}
	if n.Children[a] != nil {
		n = n.Children[a]
		for n.Children[a^1] != nil {
			n = n.Children[a^1]
		}
		return n
	}
	p := n.Parent
	for p != nil && p.Children[a] == n {
		n = p
		p = p.Parent
	}
	return p
}
