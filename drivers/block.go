// Driver: build a block from entities, serialise it and decode it again.
package main

import (
	"bytes"

	"github.com/squizzling/osmindex/internal/t"
)

type tag struct{ K, V []byte }

type node struct {
	ID       int64
	Lat, Lon int64
	Tags     []tag
}

type way struct {
	ID   int64
	Tags []tag
	Refs []int64
}

type rel struct {
	ID    int64
	Tags  []tag
	Roles [][]byte
	Mem   []int64
	Types []int
}

type content struct {
	Nodes []node
	Ways  []way
	Rels  []rel
}

type result struct {
	Bytes   []byte
	Same    bool // a second build gave the same bytes
	Decoded content
	Strings [][]byte
}

func tags(ts []tag) map[string]string {
	m := make(map[string]string)
	for _, x := range ts {
		m[string(x.K)] = string(x.V)
	}
	return m
}

func untags(m map[string]string) []tag {
	var o []tag
	for k, v := range m {
		o = append(o, tag{[]byte(k), []byte(v)})
	}
	return o
}

func build(c *content) []byte {
	var ns t.Nodes
	var ws t.Ways
	var rs t.Relations
	for _, n := range c.Nodes {
		ns = append(ns, &t.HLNode{Id: t.NodeId(n.ID), Lat: n.Lat, Lon: n.Lon, Tags: tags(n.Tags)})
	}
	for _, w := range c.Ways {
		h := &t.HLWay{Id: t.WayId(w.ID), Tags: tags(w.Tags)}
		for _, r := range w.Refs {
			h.Nodes = append(h.Nodes, t.NodeId(r))
		}
		ws = append(ws, h)
	}
	for _, r := range c.Rels {
		h := &t.HLRelation{Id: t.RelId(r.ID), Tags: tags(r.Tags), Members: r.Mem, MemberType: r.Types}
		for _, x := range r.Roles {
			h.Roles = append(h.Roles, string(x))
		}
		rs = append(rs, h)
	}
	return t.MakePrimitiveBlock(ns, ws, rs).Write(nil)
}

func main() {
	serve(func(line []byte) interface{} {
		var c content
		parse(line, &c)
		var r result
		r.Bytes = build(&c)
		r.Same = bytes.Equal(r.Bytes, build(&c))
		var pblk t.PrimitiveBlock
		pbr := &t.PBReader{}
		pbr.ReadPrimitiveBlock(r.Bytes, &pblk)
		for _, n := range pblk.ToNodes() {
			r.Decoded.Nodes = append(r.Decoded.Nodes, node{ID: int64(n.Id), Lat: n.Lat, Lon: n.Lon, Tags: untags(n.Tags)})
		}
		for _, w := range pblk.ToWays() {
			x := way{ID: int64(w.Id), Tags: untags(w.Tags)}
			for _, n := range w.Nodes {
				x.Refs = append(x.Refs, int64(n))
			}
			r.Decoded.Ways = append(r.Decoded.Ways, x)
		}
		for _, w := range pblk.ToRelations() {
			x := rel{ID: int64(w.Id), Tags: untags(w.Tags), Mem: w.Members, Types: w.MemberType}
			for _, s := range w.Roles {
				x.Roles = append(x.Roles, []byte(s))
			}
			r.Decoded.Rels = append(r.Decoded.Rels, x)
		}
		if pblk.StringTable != nil {
			for _, s := range pblk.StringTable.S {
				r.Strings = append(r.Strings, []byte(s))
			}
		}
		return r
	})
}
