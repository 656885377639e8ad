package ref

import (
	"fmt"
	"sort"
)

// A Source is one input of a pipeline: its kind and the documents currently in it.
type Source struct {
	Kind string
	Docs []map[string]any
}

// Pipeline evaluates a pipeline (a list of single-operator maps) from scratch. Because the template
// of a gathered group is not specified (any member may serve), the result is a set of alternatives;
// each alternative is a bag of result documents.
func Pipeline(ops []any, sources []Source) ([][]map[string]any, error) {
	var bag []map[string]any
	i := 0
	if len(ops) > 0 {
		if op, arg, ok := IsOp(ops[0]); ok && op == "@join" {
			b, err := join(arg, sources)
			if err != nil {
				return nil, err
			}
			bag, i = b, 1
		}
	}
	if i == 0 {
		if len(sources) != 1 {
			return nil, bad("several sources without a join")
		}
		for _, d := range sources[0].Docs {
			bag = append(bag, CopyMap(d))
		}
	}
	alts := [][]map[string]any{bag}
	for ; i < len(ops); i++ {
		op, arg, ok := IsOp(ops[i])
		if !ok {
			return nil, bad("not an operator")
		}
		var next [][]map[string]any
		for _, a := range alts {
			rs, err := stage(op, arg, a)
			if err != nil {
				return nil, err
			}
			next = append(next, rs...)
		}
		alts = next
	}
	return alts, nil
}

func join(cond any, sources []Source) ([]map[string]any, error) {
	var out []map[string]any
	cur := map[string]any{}
	var rec func(i int) error
	rec = func(i int) error {
		if i == len(sources) {
			v, err := Eval(cond, Ctx{Object: cur})
			if err != nil {
				return err
			}
			b, err := asBool(v)
			if err != nil {
				return err
			}
			if b {
				out = append(out, CopyMap(cur))
			}
			return nil
		}
		for _, d := range sources[i].Docs {
			cur[sources[i].Kind] = d
			if err := rec(i + 1); err != nil {
				return err
			}
		}
		return nil
	}
	return out, rec(0)
}

func stage(op string, arg any, in []map[string]any) ([][]map[string]any, error) {
	var out []map[string]any
	switch op {
	case "@select":
		for _, d := range in {
			v, err := Eval(arg, Ctx{Object: d})
			if err != nil {
				return nil, err
			}
			b, err := asBool(v)
			if err != nil {
				return nil, err
			}
			if b {
				out = append(out, d)
			}
		}
	case "@project":
		for _, d := range in {
			r, err := Project(arg, d)
			if err != nil {
				return nil, err
			}
			out = append(out, r)
		}
	case "@unwind", "@demux":
		path, ok := arg.(string)
		if !ok {
			return nil, bad("unwind path")
		}
		for _, d := range in {
			name, err := Get(d, "$.metadata.name")
			if err != nil {
				return nil, err
			}
			v, err := Get(d, path)
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			l, ok := v.([]any)
			if !ok {
				return nil, bad("not a list")
			}
			for i, e := range l {
				c := CopyMap(d)
				if err := Set(c, path, Copy(e)); err != nil {
					return nil, err
				}
				if err := Set(c, "$.metadata.name", fmt.Sprintf("%v-%d", name, i)); err != nil {
					return nil, err
				}
				out = append(out, c)
			}
		}
	case "@gather", "@mux":
		return gather(arg, in)
	default:
		return nil, bad("unknown stage %s", op)
	}
	return [][]map[string]any{out}, nil
}

// Project evaluates a projection: a map makes a new object, a list is a sequence of modifications.
func Project(arg any, d map[string]any) (map[string]any, error) {
	l, ok := arg.([]any)
	if !ok {
		v, err := Eval(arg, Ctx{Object: d})
		if err != nil {
			return nil, err
		}
		m, ok := v.(map[string]any)
		if !ok {
			return nil, bad("not an object")
		}
		return CopyMap(m), nil
	}
	var res any
	for _, e := range l {
		v, err := Eval(e, Ctx{Object: d})
		if err != nil {
			return nil, err
		}
		m, ok := v.(map[string]any)
		if !ok {
			return nil, bad("not an object")
		}
		res, err = Merge(res, Copy(m))
		if err != nil {
			return nil, err
		}
	}
	m, ok := res.(map[string]any)
	if !ok {
		return nil, bad("not an object")
	}
	return m, nil
}

// Merge merges b over a: maps are merged, lists are appended, anything else is overwritten.
func Merge(a, b any) (any, error) {
	if a == nil {
		return b, nil
	}
	switch y := b.(type) {
	case nil:
		return nil, bad("cannot merge null")
	case map[string]any:
		x, ok := a.(map[string]any)
		if !ok {
			return y, nil
		}
		r := CopyMap(x)
		for k, v := range y {
			if o, ok := r[k]; ok {
				n, err := Merge(o, v)
				if err != nil {
					return nil, err
				}
				r[k] = n
			} else {
				r[k] = v
			}
		}
		return r, nil
	case []any:
		if x, ok := a.([]any); ok {
			return append(append([]any{}, x...), y...), nil
		}
	}
	return b, nil
}

func gather(arg any, in []map[string]any) ([][]map[string]any, error) {
	as, ok := arg.([]any)
	if !ok || len(as) != 2 {
		return nil, bad("gather arguments")
	}
	path, ok := as[1].(string)
	if !ok {
		return nil, bad("gather path")
	}
	type group struct {
		key  string
		docs []map[string]any
		vals []any
	}
	groups := map[string]*group{}
	for _, d := range in {
		k, err := Eval(as[0], Ctx{Object: d})
		if err != nil {
			return nil, err
		}
		v, err := Eval(as[1], Ctx{Object: d})
		if err != nil {
			return nil, err
		}
		if k == nil || v == nil {
			continue
		}
		ck := Canon(k)
		g := groups[ck]
		if g == nil {
			g = &group{key: ck}
			groups[ck] = g
		}
		g.docs = append(g.docs, d)
		g.vals = append(g.vals, v)
	}
	ks := make([]string, 0, len(groups))
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	alts := [][]map[string]any{nil}
	for _, k := range ks {
		g := groups[k]
		var outs []map[string]any
		seen := map[string]bool{}
		for _, t := range g.docs {
			c := CopyMap(t)
			vals := make([]any, len(g.vals))
			for i := range vals {
				vals[i] = Copy(g.vals[i])
			}
			if err := Set(c, path, vals); err != nil {
				return nil, err
			}
			if s := Canon(SortLists(c)); !seen[s] {
				seen[s] = true
				outs = append(outs, c)
			}
		}
		var next [][]map[string]any
		for _, a := range alts {
			for _, o := range outs {
				next = append(next, append(append([]map[string]any{}, a...), o))
			}
		}
		alts = next
	}
	return alts, nil
}

// SortLists returns a copy of v with all lists sorted (the order of gathered lists is unspecified).
func SortLists(v any) any {
	switch x := v.(type) {
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = SortLists(x[i])
		}
		sort.SliceStable(r, func(i, j int) bool { return Canon(r[i]) < Canon(r[j]) })
		return r
	case map[string]any:
		r := make(map[string]any, len(x))
		for k := range x {
			r[k] = SortLists(x[k])
		}
		return r
	}
	return v
}
