package main

import (
	"fmt"
	"strings"

	"github.com/l7mp/dcontroller/pkg/object"

	"verif/ref"
)

func c(js ...string) []map[string]any {
	var out []map[string]any
	for _, j := range js {
		out = append(out, ref.Parse(j).(map[string]any))
	}
	return out
}

// scenarios returns the pipelines and alphabets explored.
func scenarios() []*scenario {
	a := func(cs []map[string]any) []slot {
		return []slot{
			{kind: "A", ns: "n1", name: "x", contents: cs},
			{kind: "A", ns: "n2", name: "x", contents: cs},
			{kind: "A", ns: "n1", name: "y", contents: cs},
		}
	}
	simple := c(`{"spec":{"v":1,"g":"p"}}`, `{"spec":{"v":2,"g":"q"}}`)
	lists := c(`{"spec":{"l":[1,2],"g":"p"}}`, `{"spec":{"l":[2],"g":"q"}}`, `{"spec":{"l":[],"g":"p"}}`)
	var out []*scenario
	add := func(s *scenario) {
		if s.depth[0] == 0 {
			s.depth = [2]int{4, 5}
		}
		out = append(out, s)
	}
	one := []string{"A"}

	// linear pipelines
	add(&scenario{name: "identity-types", ops: `[]`, kinds: one, types: true, uid: true,
		slots: a(c(`{"spec":{"v":1}}`, `{"spec":{"v":2}}`))[:2], depth: [2]int{3, 4}})
	add(&scenario{name: "select", ops: `[{"@select":{"@eq":["$.spec.g","p"]}}]`, kinds: one, slots: a(simple)})
	add(&scenario{name: "select-types", ops: `[{"@select":{"@eq":["$.spec.g","p"]}}]`, kinds: one, types: true, slots: a(simple)[:1], depth: [2]int{4, 6}})
	add(&scenario{name: "project", kinds: one, slots: a(simple),
		ops: `[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"v":{"@add":["$.spec.v",1]},"const":true}}]`})
	add(&scenario{name: "project-rename", kinds: one, slots: a(c(`{"spec":{"v":1,"t":"a"}}`, `{"spec":{"v":1,"t":"b"}}`, `{"spec":{"v":2,"t":"b"}}`))[:2],
		ops: `[{"@project":[{"metadata":{"name":{"@concat":["$.metadata.name","-",  "$.spec.t"]},"namespace":"$.metadata.namespace"}},{"$.spec.v":"$.spec.v"}]}]`})
	add(&scenario{name: "project-nons", kinds: one, slots: []slot{
		{kind: "A", name: "x", contents: simple}, {kind: "A", name: "y", contents: simple}},
		ops: `[{"@project":[{"metadata":{"name":"$.metadata.name"}},{"spec":"$.spec"},{"$.spec.extra.deep":"s"}]}]`})
	add(&scenario{name: "select-project-select-project", kinds: one, slots: a(c(`{"spec":{"v":1}}`, `{"spec":{"v":2}}`, `{"spec":{"v":5}}`))[:2],
		ops: `[{"@select":{"@gt":["$.spec.v",1]}},{"@project":{"metadata":"$.metadata","w":{"@mul":["$.spec.v",2]}}},{"@select":{"@lt":["$.w",10]}},{"@project":{"metadata":"$.metadata","z":{"@sub":["$.w",1]}}},{"@project":[{"metadata":"$.metadata"},{"$.metadata.labels.l":"on"},{"z":"$.z"}]}]`})
	add(&scenario{name: "project-select", kinds: one, slots: a(c(`{"spec":{"v":1,"drop":"d"}}`, `{"spec":{"v":1,"drop":"e"}}`, `{"spec":{"v":2,"drop":"d"}}`))[:2],
		ops: `[{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"v":"$.spec.v"}},{"@select":{"@eq":["$.v",1]}}]`})
	add(&scenario{name: "select-exists-labels", kinds: one,
		slots: a(c(`{"metadata":{"labels":{"app":"nginx"}},"spec":{}}`, `{"metadata":{"labels":{"app":"other"}}}`, `{"spec":{"s":null}}`))[:2],
		ops:   `[{"@select":{"@selector":[{"matchLabels":{"app":"nginx"}},{"@definedOr":["$.metadata.labels",{"none":"none"}]}]}},{"@project":[{"metadata":"$.metadata"},{"has":{"@exists":"$.spec"}}]}]`})

	// unwind
	add(&scenario{name: "unwind", kinds: one, slots: a(lists)[:2], ops: `[{"@unwind":"$.spec.l"}]`})
	add(&scenario{name: "unwind-dup", kinds: one, slots: a(c(`{"spec":{"l":[7,7,8]}}`, `{"spec":{"l":[8,7]}}`, `{"spec":{}}`, `{"spec":{"l":[]}}`))[:2],
		ops: `[{"@unwind":"$.spec.l"},{"@project":{"metadata":{"name":"$.metadata.name","namespace":"$.metadata.namespace"},"v":"$.spec.l"}}]`})
	add(&scenario{name: "unwind-select", kinds: one, slots: a(c(`{"spec":{"l":[{"p":80},{"p":443}]}}`, `{"spec":{"l":[{"p":443}]}}`, `{"spec":{"l":[{"p":80},{"p":81},{"p":443}]}}`))[:2],
		ops: `[{"@demux":"$.spec.l"},{"@select":{"@gte":["$.spec.l.p",81]}}]`})
	add(&scenario{name: "unwind-unwind", kinds: one, slots: a(c(`{"spec":{"l":[{"m":[1,2]},{"m":[3]}]}}`, `{"spec":{"l":[{"m":[2]}]}}`))[:2],
		ops: `[{"@unwind":"$.spec.l"},{"@unwind":"$.spec.l.m"}]`})
	// gather
	gp := `{"@project":{"metadata":{"name":{"@concat":["g-","$.spec.g"]},"namespace":"d"},"vs":"$.spec.v"}}`
	add(&scenario{name: "gather", kinds: one, slots: a(simple), ops: `[{"@gather":["$.spec.g","$.spec.v"]},` + gp + `]`})
	add(&scenario{name: "gather-3", kinds: one, slots: a(c(`{"spec":{"v":1,"g":"p"}}`, `{"spec":{"v":1,"g":"q"}}`, `{"spec":{"v":2,"g":"p"}}`)), ops: `[{"@mux":["$.spec.g","$.spec.v"]},` + gp + `]`, depth: [2]int{3, 4}})
	add(&scenario{name: "gather-missing", kinds: one, slots: a(c(`{"spec":{"v":1,"g":"p"}}`, `{"spec":{"g":"p"}}`, `{"spec":{"v":1}}`))[:2], ops: `[{"@gather":["$.spec.g","$.spec.v"]},` + gp + `]`})
	add(&scenario{name: "gather-template", kinds: one, slots: a(simple), ops: `[{"@gather":["$.spec.g","$.spec.v"]}]`})
	add(&scenario{name: "gather-ns", kinds: one, slots: append(a(simple), slot{kind: "A", ns: "n2", name: "z", contents: simple[:1]}),
		ops: `[{"@gather":["$.metadata.namespace","$.metadata.name"]},{"@project":{"metadata":{"name":{"@concat":["$.metadata.namespace","-summary"]},"namespace":"$.metadata.namespace"},"names":"$.metadata.name"}}]`})
	add(&scenario{name: "gather-objectkey", kinds: one, slots: a(c(`{"spec":{"v":1,"g":{"a":1,"b":2}}}`, `{"spec":{"v":2,"g":{"a":1,"b":3}}}`, `{"spec":{"v":2,"g":{"b":2,"a":1}}}`))[:2],
		ops: `[{"@gather":["$.spec.g","$.spec.v"]},{"@project":{"metadata":{"name":{"@concat":["g",{"@string":"$.spec.g.b"}]},"namespace":"d"},"vs":"$.spec.v"}}]`})
	add(&scenario{name: "gather-select-count", kinds: one, slots: a(simple),
		ops: `[{"@gather":["$.spec.g","$.spec.v"]},{"@select":{"@gte":[{"@len":"$.spec.v"},2]}},` + `{"@project":{"metadata":{"name":{"@concat":["g-","$.spec.g"]},"namespace":"d"},"n":{"@len":"$.spec.v"},"s":{"@sum":"$.spec.v"}}}]`})
	add(&scenario{name: "select-gather", kinds: one, slots: a(c(`{"spec":{"v":1,"g":"p","on":true}}`, `{"spec":{"v":1,"g":"p","on":false}}`, `{"spec":{"v":2,"g":"p","on":true}}`))[:2],
		ops: `[{"@select":{"@eq":["$.spec.on",true]}},{"@gather":["$.spec.g","$.spec.v"]},` + gp + `]`})
	add(&scenario{name: "unwind-gather", kinds: one, slots: a(c(`{"spec":{"g":"p","v":[1,2]}}`, `{"spec":{"g":"p","v":[2,2]}}`, `{"spec":{"g":"q","v":[3]}}`))[:2],
		ops: `[{"@unwind":"$.spec.v"},{"@select":{"@not":{"@eq":["$.spec.v",1]}}},{"@gather":["$.spec.g","$.spec.v"]},` + gp + `]`})
	add(&scenario{name: "gather-gather", kinds: one, slots: a(c(`{"spec":{"v":1,"g":"p","h":"r"}}`, `{"spec":{"v":2,"g":"q","h":"r"}}`)),
		ops:   `[{"@gather":["$.spec.g","$.spec.v"]},{"@project":{"metadata":{"name":"$.spec.g"},"spec":{"h":"$.spec.h","n":{"@sum":"$.spec.v"}}}},{"@gather":["$.spec.h","$.spec.n"]},{"@project":{"metadata":{"name":"$.spec.h","namespace":"d"},"ns":"$.spec.n"}}]`,
		depth: [2]int{4, 5}})
	add(&scenario{name: "gather-unwind", kinds: one, slots: a(c(`{"spec":{"v":1,"g":"p"}}`, `{"spec":{"v":2,"g":"q"}}`, `{"spec":{"v":2,"g":"p"}}`))[:2],
		ops: `[{"@gather":["$.spec.g","$.spec.v"]},{"@project":{"metadata":{"name":"$.spec.g","namespace":"d"},"n":{"@len":"$.spec.v"},"two":{"@range":[0,{"@len":"$.spec.v"}]}}},{"@unwind":"$.two"}]`})

	// joins
	ab := []string{"A", "B"}
	jslots := func(ac, bc []map[string]any) []slot {
		return []slot{
			{kind: "A", ns: "n1", name: "x", contents: ac},
			{kind: "A", ns: "n1", name: "y", contents: ac},
			{kind: "B", ns: "n1", name: "x", contents: bc},
			{kind: "B", ns: "n2", name: "x", contents: bc},
		}
	}
	jn := `{"metadata":{"name":{"@concat":["$.A.metadata.name","-","$.B.metadata.namespace","-","$.B.metadata.name"]},"namespace":"$.A.metadata.namespace"},"a":"$.A.spec","b":"$.B.spec"}`
	ac := c(`{"spec":{"k":1,"a":"u"}}`, `{"spec":{"k":2,"a":"u"}}`)
	bc := c(`{"spec":{"k":1,"b":"w"}}`, `{"spec":{"k":2,"b":"w"}}`)
	add(&scenario{name: "join", kinds: ab, slots: jslots(ac, bc), depth: [2]int{4, 5},
		ops: `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@project":` + jn + `}]`})
	add(&scenario{name: "join-all", kinds: ab, slots: jslots(ac[:1], c(`{"spec":{"b":1}}`, `{"spec":{"b":2}}`)), depth: [2]int{4, 5},
		ops: `[{"@join":true},{"@project":` + jn + `}]`})
	add(&scenario{name: "join-order", kinds: []string{"B", "A"}, slots: jslots(ac, bc)[1:], depth: [2]int{4, 5},
		ops: `[{"@join":{"@and":[{"@eq":["$.A.spec.k","$.B.spec.k"]},{"@eq":["$.A.metadata.namespace","$.B.metadata.namespace"]}]}},{"@project":` + jn + `},{"@select":{"@exists":"$.a"}}]`})
	add(&scenario{name: "join-native", kinds: ab, groups: map[string]string{"A": "v1", "B": "apps/v1"}, uid: true, slots: jslots(ac, bc)[:3], depth: [2]int{4, 5},
		ops: `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@project":` + jn + `}]`})
	add(&scenario{name: "join-gather", kinds: ab, slots: jslots(ac, bc), depth: [2]int{4, 5},
		ops: `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@gather":["$.A.metadata.name","$.B.metadata.namespace"]},{"@project":{"metadata":{"name":"$.A.metadata.name","namespace":"d"},"bs":"$.B.metadata.namespace"}}]`})
	add(&scenario{name: "join-unwind-gather", kinds: ab, slots: []slot{
		{kind: "A", ns: "n1", name: "x", contents: c(`{"spec":{"l":[1,2]}}`, `{"spec":{"l":[2,3]}}`)},
		{kind: "B", ns: "n1", name: "x", contents: c(`{"spec":{"m":2}}`, `{"spec":{"m":3}}`)},
		{kind: "B", ns: "n1", name: "y", contents: c(`{"spec":{"m":2}}`, `{"spec":{"m":9}}`)}}, depth: [2]int{4, 5},
		ops: `[{"@join":{"@in":["$.B.spec.m","$.A.spec.l"]}},{"@project":{"metadata":{"name":"$.B.metadata.name","namespace":"$.B.metadata.namespace"},"a":"$.A.metadata.name","l":"$.A.spec.l","m":"$.B.spec.m"}},{"@unwind":"$.l"},{"@gather":["$.l","$.m"]},{"@project":{"metadata":{"name":{"@concat":["e",{"@string":"$.l"}]},"namespace":"d"},"ms":"$.m"}}]`})
	abc := []string{"A", "B", "C"}
	add(&scenario{name: "join-3", kinds: abc, slots: []slot{
		{kind: "A", ns: "n1", name: "x", contents: ac},
		{kind: "B", ns: "n1", name: "x", contents: bc},
		{kind: "C", ns: "n1", name: "x", contents: c(`{"spec":{"c":1}}`, `{"spec":{"c":2}}`)},
		{kind: "C", ns: "n1", name: "y", contents: c(`{"spec":{"c":1}}`)}}, depth: [2]int{5, 6},
		ops: `[{"@join":{"@and":[{"@eq":["$.A.spec.k","$.B.spec.k"]},{"@gte":["$.B.spec.k","$.C.spec.c"]}]}},{"@project":{"metadata":{"name":{"@concat":["$.A.metadata.name","$.B.metadata.name","$.C.metadata.name"]},"namespace":"n"},"c":"$.C.spec.c","k":"$.A.spec.k"}}]`})
	add(&scenario{name: "join-1", kinds: one, slots: a(simple)[:2], ops: `[{"@join":{"@eq":["$.A.spec.g","p"]}},{"@project":{"metadata":"$.A.metadata","v":"$.A.spec.v"}}]`})
	// several sources that a projection makes equal, before a gather or an unwind
	add(&scenario{name: "project-gather", kinds: one, slots: a(c(`{"spec":{"v":1,"t":"a"}}`, `{"spec":{"v":1,"t":"b"}}`, `{"spec":{"v":2,"t":"a"}}`))[:2], depth: [2]int{4, 5},
		ops: `[{"@project":{"metadata":{"name":"all","namespace":"d"},"v":"$.spec.v"}},{"@gather":["$.metadata.name","$.v"]}]`})
	five := c(`{"spec":{"v":1}}`)
	var many []slot
	for _, n := range []string{"p", "q", "r", "s", "t"} {
		many = append(many, slot{kind: "A", ns: "n1", name: n, contents: five})
	}
	add(&scenario{name: "project-gather-many", kinds: one, slots: many, narrow: true, depth: [2]int{5, 6},
		ops: `[{"@project":{"metadata":{"name":"all","namespace":"d"},"v":"$.spec.v"}},{"@gather":["$.metadata.name","$.v"]}]`})
	add(&scenario{name: "join-project-gather", kinds: ab, slots: jslots(ac[:1], bc[:1]), depth: [2]int{4, 5},
		ops: `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@project":{"metadata":{"name":"$.A.metadata.name","namespace":"d"},"b":"$.B.spec.b"}},{"@gather":["$.metadata.name","$.b"]}]`})
	// few events, deeper
	k1 := c(`{"spec":{"k":1}}`)
	nm := `{"@project":{"metadata":{"name":{"@concat":["$.A.metadata.name","$.B.metadata.name","$.C.metadata.name"]},"namespace":"n"}}}`
	add(&scenario{name: "join-3-narrow", kinds: abc, narrow: true, depth: [2]int{6, 8}, slots: []slot{
		{kind: "A", ns: "n1", name: "x", contents: k1}, {kind: "B", ns: "n1", name: "x", contents: k1}, {kind: "C", ns: "n1", name: "x", contents: k1}},
		ops: `[{"@join":true},` + nm + `]`})
	add(&scenario{name: "join-2-narrow", kinds: ab, narrow: true, depth: [2]int{6, 8}, slots: []slot{
		{kind: "A", ns: "n1", name: "x", contents: ac}, {kind: "B", ns: "n1", name: "x", contents: k1}},
		ops: `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@project":` + jn + `}]`})
	add(&scenario{name: "gather-narrow", kinds: one, narrow: true, depth: [2]int{6, 8}, slots: a(simple)[:2], ops: `[{"@gather":["$.spec.g","$.spec.v"]},` + gp + `]`})
	add(&scenario{name: "join-gather-narrow", kinds: ab, narrow: true, depth: [2]int{6, 7}, slots: []slot{
		{kind: "A", ns: "n1", name: "x", contents: k1}, {kind: "B", ns: "n1", name: "x", contents: bc}, {kind: "B", ns: "n1", name: "y", contents: k1}},
		ops: `[{"@join":{"@eq":["$.A.spec.k","$.B.spec.k"]}},{"@gather":["$.A.metadata.name","$.B.metadata.name"]},{"@project":{"metadata":{"name":"$.A.metadata.name","namespace":"d"},"bs":"$.B.metadata.name"}}]`})
	for _, s := range crowds() {
		add(s)
	}
	return out
}

// crowds are scenarios that start with many objects, or after many events.
func crowds() []*scenario {
	one, ab := []string{"A"}, []string{"A", "B"}
	// slots makes n objects of a kind, of which those at the given positions change.
	slots := func(kind string, n int, content func(i int) []map[string]any, active ...int) []slot {
		var out []slot
		for i := range n {
			out = append(out, slot{kind: kind, ns: fmt.Sprintf("n%d", i%3), name: fmt.Sprintf("o%d", i), contents: content(i), still: true})
		}
		for _, i := range active {
			out[i].still = false
		}
		return out
	}
	// full adds all objects but the last one.
	full := func(sl []slot) (out []event) {
		for i := range len(sl) - 1 {
			out = append(out, event{slot: i, to: 0, typ: object.Added})
		}
		return out
	}
	json := func(format string, args ...any) []map[string]any { return c(fmt.Sprintf(format, args...)) }
	vals := func(i int) []map[string]any {
		return append(json(`{"spec":{"v":%d,"g":"g%d"}}`, i, i%2), json(`{"spec":{"v":%d,"g":"g%d"}}`, i+100, i%2)...)
	}
	keys := func(i int) []map[string]any {
		return append(json(`{"spec":{"v":%d,"g":"g%d"}}`, i, i%12), json(`{"spec":{"v":%d,"g":"g%d"}}`, i, (i+7)%15)...)
	}
	list := func(from, to int) string {
		var l []string
		for i := from; i < to; i++ {
			l = append(l, fmt.Sprint(i))
		}
		return strings.Join(l, ",")
	}
	toG := `{"@project":{"metadata":{"name":"$.spec.g","namespace":"d"},"v":"$.spec.v"}},{"@gather":["$.metadata.name","$.v"]}`
	var out []*scenario
	add := func(name string, kinds []string, depth int, prefix []event, sl []slot, ops string) {
		out = append(out, &scenario{name: name, kinds: kinds, depth: [2]int{depth, depth + 1}, prefix: prefix, slots: sl, ops: ops})
	}
	sl := slots("A", 26, vals, 3, 12, 25)
	add("crowd-select", one, 2, full(sl), sl, `[{"@select":{"@gte":["$.spec.v",5]}}]`)
	add("crowd-gather", one, 2, full(sl), sl, `[`+toG+`]`)
	sl = slots("A", 26, keys, 3, 12, 25)
	add("crowd-groups", one, 2, full(sl), sl, `[`+toG+`]`)
	sl = slots("A", 3, func(i int) []map[string]any {
		return c(fmt.Sprintf(`{"spec":{"l":[%s]}}`, list(0, 24)), fmt.Sprintf(`{"spec":{"l":[%s]}}`, list(0, 25)), fmt.Sprintf(`{"spec":{"l":[%s,3,%s]}}`, list(9, 13), list(0, 9)))
	}, 0, 2)
	add("crowd-unwind", one, 2, full(sl), sl, `[{"@unwind":"$.spec.l"}]`)
	add("crowd-unwind-gather", one, 2, full(sl), sl, `[{"@unwind":"$.spec.l"},{"@project":{"metadata":{"name":{"@concat":["e",{"@string":"$.spec.l"}]},"namespace":"d"},"l":"$.spec.l"}},{"@gather":["$.metadata.name","$.l"]}]`)
	jn := `{"@project":{"metadata":{"name":{"@concat":["$.A.metadata.name","-","$.B.metadata.name"]},"namespace":"$.A.metadata.namespace"},"a":"$.A.spec.v","b":"$.B.spec.v"}}`
	sl = append(slots("A", 12, keys, 3, 11), slots("B", 14, keys, 2, 13)...)
	add("crowd-join", ab, 2, full(sl), sl, `[{"@join":{"@eq":["$.A.spec.g","$.B.spec.g"]}},`+jn+`]`)
	sl = append(slots("A", 5, vals, 3), slots("B", 8, vals, 2, 7)...)
	add("crowd-join-all", ab, 2, full(sl), sl, `[{"@join":true},`+jn+`]`)
	add("crowd-join-gather", ab, 2, full(sl), sl, `[{"@join":{"@eq":["$.A.spec.g","$.B.spec.g"]}},{"@project":{"metadata":{"name":"$.A.metadata.name","namespace":"d"},"v":"$.B.spec.v"}},{"@gather":["$.metadata.name","$.v"]}]`)
	// after many changes of few objects
	var long []event
	for i := range int8(40) {
		long = append(long, event{slot: int(i % 2), to: i / 2 % 2, typ: again[i%4]})
		if i%7 == 6 {
			long = append(long, event{slot: int(i % 2), to: -1, typ: object.Deleted})
		}
	}
	sl = slots("A", 3, vals, 0, 1, 2)
	add("long-gather", one, 2, long, sl, `[`+toG+`]`)
	sl = append(slots("A", 1, keys, 0), slots("B", 2, keys, 0, 1)...)
	add("long-join", ab, 2, long, sl, `[{"@join":true},`+jn+`]`)
	// long names and values that differ only at the end, or only in the middle
	far := strings.Repeat("n", 120)
	names := func(kind string, content func(i int) []map[string]any) []slot {
		var out []slot
		for i, n := range []string{far + "x", far + "y", far[1:] + "x", "x" + far, "y" + far} {
			out = append(out, slot{kind: kind, ns: far + fmt.Sprint(i/4), name: n, contents: content(i), still: i > 1})
		}
		return out
	}
	text := func(i int) []map[string]any {
		a := c(fmt.Sprintf(`{"spec":{"v":%d,"g":"%sp","l":["%s1","%s2"]}}`, i, far, far, far))
		if i < 2 {
			a = append(a, c(fmt.Sprintf(`{"spec":{"v":%d,"g":"%sq","l":["%s1","%s2","%s3"]}}`, i, far, far, far, far))...)
		}
		return a
	}
	sl = names("A", text)
	put := []event{{slot: 4, typ: object.Added}, {slot: 3, typ: object.Added}, {slot: 2, typ: object.Added}}
	add("far-select", one, 3, put, sl, `[{"@select":{"@eq":["$.spec.g","`+far+`p"]}}]`)
	add("far-name", one, 3, put, sl, `[{"@project":{"metadata":{"name":{"@concat":["$.metadata.name","$.spec.g"]},"namespace":"$.metadata.namespace"},"v":"$.spec.v"}}]`)
	add("far-unwind", one, 3, put, sl, `[{"@unwind":"$.spec.l"}]`)
	add("far-gather", one, 3, put, sl, `[`+toG+`]`)
	sl = append(names("A", text)[:2], names("B", text)[:2]...)
	sl[1].still, sl[2].still = true, true
	add("far-join", ab, 3, []event{{slot: 1, typ: object.Added}, {slot: 2, typ: object.Added}}, sl, `[{"@join":{"@eq":["$.A.spec.g","$.B.spec.g"]}},`+jn+`]`)
	return out
}
