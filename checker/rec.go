package main

import "go/types"

// recursion: a function that prints into a buffer (or returns text) and calls itself.
// The inner call stands for an unknown text that depends on the arguments; the
// implementation and the reference share the symbol. By induction on the depth of the
// recursion it is the text of the reference, whatever the names of the functions are.
func (en *Engine) recursion(c *call) *Node {
	if en.recDepth == 0 {
		failf("recursion %s", c.name)
	}
	var buf *Node
	byClass := map[string][]*Node{}
	for i, t := range c.argT {
		switch {
		case bufferPtr(t):
			if buf != nil {
				failf("recursion %s with two buffers", c.name)
			}
			buf = c.args[i]
		case types.Identical(t.Underlying(), byteSlice):
			byClass["data"] = append(byClass["data"], c.args[i])
		default:
			b, ok := t.Underlying().(*types.Basic)
			if !ok {
				failf("recursion %s: argument of type %s", c.name, t)
			}
			k := types.Typ[b.Kind()].Name()
			byClass[k] = append(byClass[k], c.args[i])
		}
	}
	// named after the types of the arguments, in their order within a type
	var args []*Node
	name := "rec"
	for _, k := range []string{"uint8", "int", "data", "bool"} {
		for _, a := range byClass[k] {
			args = append(args, a)
			name += ":" + k
		}
		delete(byClass, k)
	}
	if len(byClass) > 0 {
		failf("recursion %s: arguments are not modelled", c.name)
	}
	text := c.fr.app(name, types.Typ[types.String], c.st, args...)
	n := c.resT.Len()
	ret := make([]*Node, 0, n)
	for i := 0; i < n; i++ {
		t := c.resT.At(i).Type()
		switch {
		case implementsErrorT(t):
			ret = append(ret, nNil) // well-formed documents have none
		case buf == nil && types.Identical(t.Underlying(), byteSlice):
			ret = append(ret, c.fr.freshSlice(strSeq(text), byteSlice, c.st))
		case buf == nil && isStringT(t):
			ret = append(ret, text)
		default:
			failf("recursion %s: result of type %s", c.name, t)
		}
	}
	if buf != nil {
		c.bufAppend(buf, func(*State) *Node { return strSeq(text) }, nil)
	}
	switch n {
	case 0:
		return nil
	case 1:
		return ret[0]
	}
	return tuple(ret...)
}

func bufferPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && bufferType(p.Elem())
}
