// Package d02: method lookup, listing, schema lookup and dispatch agree.
package d02

import (
	"strconv"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	"verif/harness/hd"
	"verif/harness/v"
)

var _ = v.Reg("d02.CheckTree", CheckTree)
var _ = v.Reg("d02.CheckHistory", CheckHistory)
var _ = v.Reg("d02.CheckLooks", CheckLooks)

// node mirrors an actor.
type node struct {
	name    string
	actor   *jlibhttp.Actor
	methods map[string]jlibschema.Schema
	missing bool
	kids    []*node
}

var ran string

func (n *node) on(m string, withSchema int) {
	var s jlibschema.Schema
	set := []jlibhttp.HandlerSetter{}
	if withSchema > 0 {
		any := &jlibschema.AnySchema{}
		any.SetName(n.name + m)
		s = any
		set = append(set, jlibhttp.WithSchema(s))
	}
	err := n.actor.OnRequest(m, func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		ran += "<" + n.name + ">"
		return n.name, nil
	}, set...)
	v.Assert((err == nil) != n.own(m), "a method is registered once")
	if err == nil {
		n.methods[m] = s
	}
}

func (n *node) own(m string) bool { _, ok := n.methods[m]; return ok }

// owner is the node whose handler must run.
func (n *node) owner(m string) *node {
	if n.own(m) {
		return n
	}
	for _, k := range n.kids {
		if o := k.owner(m); o != nil {
			return o
		}
	}
	return nil
}

func (n *node) all(out map[string]bool) {
	for m := range n.methods {
		out[m] = true
	}
	for _, k := range n.kids {
		k.all(out)
	}
}

func mk(name string) *node {
	n := &node{name: name, actor: jlibhttp.NewActor(), methods: map[string]jlibschema.Schema{}}
	return n
}

func (n *node) add(k *node) {
	n.actor.AddChild(k.actor)
	n.kids = append(n.kids, k)
}

func (n *node) miss() {
	err := n.actor.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) {
		ran += "<missing " + n.name + ">"
		return nil, nil
	})
	v.Assert((err == nil) != n.missing, "one missing handler at most")
	n.missing = true
}

// agree is the property.
func agree(n *node, m string) {
	o := n.owner(m)
	ran = ""
	v.Assert(n.actor.Has(m) == (o != nil), "a method is reported present exactly when a handler of the tree has it")
	res, err := hd.Feed(n.actor, jlib.NewRequestMessage(1, m, []interface{}{}))
	v.Assert(err == nil && res != nil, "the request is answered")
	asked := ran
	ran = ""
	_, err = hd.Feed(n.actor, jlib.NewNotifyMessage(m, []interface{}{}))
	v.Assert(err == nil, "a notify of a handler that does not fail is no error")
	v.Assert(ran == asked, "a notify runs the same handlers as a request")
	s, ok := n.actor.GetSchema(m)
	switch {
	case o != nil:
		v.Reach("present")
		v.Assert(asked == "<"+o.name+">", "the handler that runs is the own one or that of the first child that has the method")
		want := o.methods[m]
		v.Assert(ok == (want != nil), "a schema is reported exactly when the handler that runs has one")
		if ok && want != nil {
			v.Reach("schema")
			v.Assert(s == want, "the schema reported is that of the handler that runs")
		}
	case n.missing:
		v.Reach("missing")
		v.Assert(asked == "<missing "+n.name+">", "an unregistered method reaches the root's missing handler")
		v.Assert(!ok, "an unregistered method has no schema")
	default:
		v.Reach("notfound")
		v.Assert(asked == "", "no handler runs for an unregistered method")
		v.Assert(!ok, "an unregistered method has no schema")
		if res != nil {
			v.Assert(res.IsError() && res.MustError().Code == -32601, "an unregistered method gives a method not found error")
		}
	}
}

func list(n *node) {
	want := map[string]bool{}
	n.all(want)
	got := map[string]bool{}
	for _, m := range n.actor.MethodList() {
		got[m] = true
		v.Assert(want[m], "every listed method is present")
	}
	for m := range want {
		v.Assert(got[m], "every present method is listed")
	}
}

// every tree of a root with up to 2 children, the first with an optional child of its own, each with any subset of methods a and b with and without schemas (grandchild: a) and optional missing handlers; any method name of at most 2 bytes
//v:reach=present,schema,missing,notfound
func CheckTree() {
	root := mk("root")
	put := func(n *node, ms ...string) *node {
		for _, m := range ms {
			if c := v.Choose(n.name+"."+m, 3); c > 0 {
				n.on(m, c-1)
			}
		}
		return n
	}
	put(root, "a", "b")
	if v.Choose("root.missing", 2) == 1 {
		root.miss()
	}
	for i, k := 0, v.Choose("kids", 3); i < k; i++ {
		c := put(mk("kid"+strconv.Itoa(i)), "a")
		if v.Choose("kid.missing", 2) == 1 {
			c.miss()
		}
		if i == 0 && v.Choose("grand", 2) == 1 {
			c.add(put(mk("grand"), "a", "b"))
		}
		root.add(c)
	}
	m := v.ASCII("m", 2)
	v.Assume(m != "")
	agree(root, m)
	list(root)
}

// look asks without feeding.
func look(n *node) {
	list(n)
	for _, m := range []string{"a", "b"} {
		o := n.owner(m)
		v.Assert(n.actor.Has(m) == (o != nil), "a method is reported present exactly when a handler of the tree has it")
		s, ok := n.actor.GetSchema(m)
		v.Assert(ok == (o != nil && o.methods[m] != nil), "a schema is reported exactly when the handler that runs has one")
		if ok && o != nil {
			v.Assert(s == o.methods[m], "the schema reported is that of the handler that runs")
		}
	}
}

// every history of 4 (5 thorough) registrations, removals, child attachments and missing handler registrations over a root and a child, lookups after each step of method a and b
//v:reach=present,missing,notfound
func CheckHistory() {
	root, kid := mk("root"), mk("kid")
	attached := 0
	for i, n := 0, v.N(4, 5); i < n; i++ {
		t := root
		if v.Choose("who", 2) == 1 {
			t = kid
		}
		switch v.Choose("op", 6) {
		case 0:
			t.on("a", 1)
		case 1:
			t.on("b", 0)
		case 2:
			t.actor.Off("a")
			delete(t.methods, "a")
		case 4:
			t.actor.Off("b")
			delete(t.methods, "b")
		case 3:
			t.miss()
		default:
			if attached < 1 {
				root.add(kid)
				attached++
			}
		}
		look(root)
	}
	agree(root, "a")
	agree(root, "b")
	list(root)
}

// a root with or without a child that has method b: every history of 4 (5 thorough) registrations and removals of methods a and b, with lookups after any of the steps and at the end, schema validation on or off
//v:reach=present,notfound
func CheckLooks() {
	root := mk("root")
	root.actor.ValidateSchema = v.Choose("unvalidated", 2) == 0
	t := root
	if v.Choose("kid", 2) == 1 {
		kid := mk("kid")
		kid.actor.ValidateSchema = root.actor.ValidateSchema
		kid.on("b", 1)
		root.add(kid)
		if v.Choose("who", 2) == 1 {
			t = kid
		}
	}
	for i, n := 0, v.N(4, 5); i < n; i++ {
		m := v.Pick("m", "a", "b")
		if v.Choose("op", 2) == 0 {
			t.on(m, 1)
		} else {
			t.actor.Off(m)
			delete(t.methods, m)
		}
		if i < n-1 && v.Choose("look", 2) == 1 {
			look(root)
		}
	}
	look(root)
	agree(root, "a")
	agree(root, "b")
}
