package sparse

import (
	"fmt"
	"pol/verifh"
	"testing"
)

// identifiers are lists of components
func listPath(depth int) func(string) []uint16 {
	return func(id string) []uint16 {
		p := make([]uint16, depth)
		s := id
		for i := range p {
			n, c := 0, 0
			for c < len(s) && s[c] != '/' {
				n = n*10 + int(s[c]-'0')
				c++
			}
			p[i] = uint16(n)
			if c < len(s) {
				s = s[c+1:]
			}
		}
		return p
	}
}

func prefix(path []uint16) string {
	s := ""
	for _, c := range path {
		s += fmt.Sprintf("%d/", c)
	}
	return s
}

// the tree against a map from paths to data, the calls of UpdateInnerVertex against what the map says
func walk(h *verifh.T, fo, depth, steps int, pool []int) {
	model := map[string]interface{}{} // prefix -> data
	keys := map[string]string{}
	used := map[string]string{}
	type call struct {
		key   string
		data  interface{}
		desc  []interface{}
		leaf  bool
		index int
	}
	var calls []call
	serial := 0
	tr := &Tree{FanOut: fo, ID2Path: listPath(depth)}
	tr.UpdateInnerVertex = func(key string, node interface{}, desc []interface{}, leaf bool, index int) interface{} {
		calls = append(calls, call{key, node, append([]interface{}{}, desc...), leaf, index})
		serial++
		return fmt.Sprint("n", serial)
	}
	comp := func() int {
		if len(pool) > 0 && h.Rng.Intn(3) > 0 {
			return pool[h.Rng.Intn(len(pool))]
		}
		return h.Rng.Intn(fo)
	}
	var ids []string
	for i := 0; i < steps/2+2; i++ {
		id := ""
		for d := 0; d < depth; d++ {
			if d > 0 {
				id += "/"
			}
			id += fmt.Sprint(comp())
		}
		ids = append(ids, id)
		// and one that differs in one component only
		if p := listPath(depth)(id); i%2 == 0 {
			p[h.Rng.Intn(depth)] = uint16(comp())
			s := prefix(p)
			ids = append(ids, s[:len(s)-1])
		}
	}
	look := func() {
		calls = nil
		defer func() { h.Ok(len(calls) == 0, "looking up changes the tree") }()
		for _, id := range ids {
			path := listPath(depth)(id)
			want, has := model[prefix(path)]
			got, vs, ok := tr.Get(id)
			h.Ok(ok == has, "Get(%s), fan-out %d: present %v, want %v", id, fo, ok, has)
			if !ok || !has {
				continue
			}
			h.Ok(got == want, "Get(%s), fan-out %d gives %v, want %v", id, fo, got, want)
			h.Ok(len(vs) == depth, "%d vertices along the path of %s", len(vs), id)
			for l := 0; l < len(vs) && l < depth; l++ {
				d := vs[l].(*Vertex).Data
				h.Ok(d == model[prefix(path[:l])], "vertex %d along the path of %s holds %v, want %v", l, id, d, model[prefix(path[:l])])
			}
		}
	}
	look()
	for s := 0; s < steps; s++ {
		id := ids[h.Rng.Intn(len(ids))]
		path := listPath(depth)(id)
		x := int64(h.Rng.Intn(3))
		calls = nil
		tr.Put(id, x)
		model[prefix(path)] = x
		h.Ok(len(calls) == depth, "%d nodes updated for %s, want %d", len(calls), id, depth)
		for i, c := range calls {
			l := depth - 1 - i
			if l < 0 {
				break
			}
			pre := prefix(path[:l])
			h.Ok(c.leaf == (i == 0), "node %q told that its children are leaves: %v", pre, c.leaf)
			h.Ok(c.index == int(path[l]), "node %q told that child %d changed, want %d", pre, c.index, path[l])
			h.Ok(c.data == model[pre], "node %q has data %v, want %v", pre, c.data, model[pre])
			h.Ok(len(c.desc) == fo, "node %q has %d children, want %d", pre, len(c.desc), fo)
			if l == 0 {
				h.Ok(c.key == "", "the root's key is %q", c.key)
			}
			if k, ok := keys[pre]; ok {
				h.Ok(k == c.key, "node %q has key %q, was %q", pre, c.key, k)
			} else {
				o, taken := used[c.key]
				h.Ok(!taken, "nodes %q and %q share the key %q", pre, o, c.key)
				keys[pre], used[c.key] = c.key, pre
			}
			for j := range c.desc {
				want, has := model[pre+fmt.Sprintf("%d/", j)]
				if (c.desc[j] != nil) != has || has && c.desc[j] != want {
					h.Ok(false, "child %d of node %q is %v, want %v", j, pre, c.desc[j], want)
				}
			}
			h.Ok(true, "")
			model[pre] = fmt.Sprint("n", serial-depth+1+i)
		}
		if s%3 == 0 {
			look()
		}
	}
	look()
}

func walks(h *verifh.T) {
	pool := []int{0, 1, 2, 10, 11, 12, 21, 22, 110, 111, 256, 257, 266, 512}
	for it := 0; it < verifh.Pick(60, 600); it++ {
		fo := []int{3, 7, 15, 31, 63, 1023, 127}[it%7]
		p := []int{}
		for _, c := range pool {
			if c < fo {
				p = append(p, c)
			}
		}
		walk(h, fo, 1+it%5, 4+it%11, p)
	}
	walk(h, 16383, 2, 12, []int{0, 255, 256, 9999, 16382})
	walk(h, 65535, 2, 6, []int{0, 1, 32767, 32768, 65534})
}

func TestVerif_C05_tree(t *testing.T) { walks(verifh.New(t)) }
func TestVerif_C06_tree(t *testing.T) { walks(verifh.New(t)) }
