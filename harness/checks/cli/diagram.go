package main

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/visualize"

	"verif/core"
)

// resource is a kind that a controller reads or writes.
type resource struct {
	own         bool // a view of the operator: no group is given
	group, vers string
	kind        string
}

func (r resource) label() string {
	var s []string
	for _, x := range []string{r.group, r.vers, r.kind} {
		if x != "" {
			s = append(s, x)
		}
	}
	return strings.Join(s, "/")
}

func (r resource) spec(typ string) m {
	o := m{"kind": r.kind}
	if !r.own {
		o["apiGroup"] = r.group
	}
	if r.vers != "" {
		o["version"] = r.vers
	}
	if typ != "" {
		o["type"] = typ
	}
	return o
}

var resources = []resource{
	{own: true, kind: "A"},
	{own: true, kind: "BView"},
	{kind: "Service"},
	{kind: "A", vers: "v1"},
	{group: "apps", vers: "v1", kind: "Deployment"},
	{group: "op2.view.dcontroller.io", kind: "A"},
	{group: "test.io", kind: "PodView"},
	{kind: "A"},
}

type link struct {
	res resource
	typ string
}

type ctl struct {
	name     string
	srcs     []link
	dst      link
	pipeline []string
}

func (c ctl) String() string {
	var s []string
	for _, x := range c.srcs {
		s = append(s, fmt.Sprintf("%s%s/%s", map[bool]string{true: "view:"}[x.res.own], x.res.label(), x.typ))
	}
	return fmt.Sprintf("%s: %s -> %s%s/%s", c.name, strings.Join(s, ","), map[bool]string{true: "view:"}[c.dst.res.own], c.dst.res.label(), c.dst.typ)
}

func (c ctl) spec() m {
	srcs := []any{}
	for _, s := range c.srcs {
		srcs = append(srcs, s.res.spec(s.typ))
	}
	var ops []any
	for _, p := range c.pipeline {
		ops = append(ops, m{p: operation[p]})
	}
	return m{"name": c.name, "sources": srcs, "target": c.dst.res.spec(c.dst.typ), "pipeline": ops}
}

var operation = map[string]any{"@select": true, "@project": m{"metadata": "$.metadata"}, "@unwind": "$.spec.l", "@gather": []any{"$.spec.a", "$.spec.b"}, "@join": true}

// picture is what a diagram shows: its nodes by label, and its arrows between nodes.
type picture struct {
	nodes []string
	edges []string
	n     int
}

func (p picture) String() string {
	sort.Strings(p.nodes)
	sort.Strings(p.edges)
	return fmt.Sprintf("nodes:\n  %s\narrows:\n  %s", strings.Join(p.nodes, "\n  "), strings.Join(p.edges, "\n  "))
}

// drawing builds a picture of nodes and arrows. To make it independent of the nodes' names, a node is
// described by its label and by its arrows.
type drawing struct {
	label map[string]string
	arrow [][3]string
}

func (d drawing) picture() picture {
	var p picture
	around := map[string][]string{}
	for _, a := range d.arrow {
		around[a[0]] = append(around[a[0]], fmt.Sprintf("-%s-> %q", a[2], d.label[a[1]]))
		around[a[1]] = append(around[a[1]], fmt.Sprintf("<-%s- %q", a[2], d.label[a[0]]))
		p.edges = append(p.edges, fmt.Sprintf("%q -%s-> %q", d.label[a[0]], a[2], d.label[a[1]]))
	}
	for id, l := range d.label {
		sort.Strings(around[id])
		p.nodes = append(p.nodes, fmt.Sprintf("%q %s", l, strings.Join(around[id], " ")))
	}
	p.n = len(d.label)
	return p
}

// wanted is what the diagram of an operator should show.
func wanted(cs []ctl) picture {
	d := drawing{label: map[string]string{}}
	id := func(r resource) string {
		k := fmt.Sprintf("resource %v", r)
		d.label[k] = r.label()
		return k
	}
	for _, c := range cs {
		k := "controller " + c.name
		d.label[k] = c.name
		if len(c.pipeline) > 0 {
			d.label[k] += ": " + strings.Join(c.pipeline, " -> ")
		}
		for _, s := range c.srcs {
			t := s.typ
			if t == "" {
				t = "Watcher"
			}
			d.arrow = append(d.arrow, [3]string{id(s.res), k, t})
		}
		t := c.dst.typ
		if t == "" {
			t = "Updater"
		}
		d.arrow = append(d.arrow, [3]string{k, id(c.dst.res), t})
	}
	return d.picture()
}

var (
	dotNode  = regexp.MustCompile(`^\s*(\w+)\[(.*)\];$`)
	dotEdge  = regexp.MustCompile(`^\s*(\w+)->(\w+)\[(.*)\];$`)
	dotLabel = regexp.MustCompile(`(?:^|,)label=("(?:[^"\\]|\\.)*")`)
	merNode  = regexp.MustCompile(`^\s*(\w+)\("(.*)"\);?$`)
	merEdge  = regexp.MustCompile(`^\s*(\w+)-->\|"(.*)"\|(\w+);?$`)
	merStyle = regexp.MustCompile(`^\s*style \w+ [\w,]+;?$`)
	dotAttrs = regexp.MustCompile(`^\s*(\w+=("(?:[^"\\]|\\.)*");)*\s*$`)
)

// readDot and readMermaid read a diagram.
func readDot(s string) (picture, error) {
	d := drawing{label: map[string]string{}}
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) < 2 || !strings.HasPrefix(ls[0], "digraph") || ls[len(ls)-1] != "}" {
		return picture{}, fmt.Errorf("no diagram")
	}
	label := func(s string) string {
		x := dotLabel.FindStringSubmatch(s)
		if x == nil {
			return ""
		}
		u, err := strconv.Unquote(x[1])
		if err != nil {
			return x[1]
		}
		return u
	}
	for _, l := range ls[1 : len(ls)-1] {
		if x := dotEdge.FindStringSubmatch(l); x != nil {
			d.arrow = append(d.arrow, [3]string{x[1], x[2], label(x[3])})
		} else if x := dotNode.FindStringSubmatch(l); x != nil {
			d.label[x[1]] = label(x[2])
		} else if !dotAttrs.MatchString(l) {
			return picture{}, fmt.Errorf("cannot read %q", l)
		}
	}
	return d.picture(), nil
}

func readMermaid(s string) (picture, error) {
	d := drawing{label: map[string]string{}}
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) < 3 || ls[0] != "```mermaid" || ls[len(ls)-1] != "```" || !strings.HasPrefix(ls[1], "flowchart") {
		return picture{}, fmt.Errorf("no diagram")
	}
	for _, l := range ls[2 : len(ls)-1] {
		if x := merEdge.FindStringSubmatch(l); x != nil {
			d.arrow = append(d.arrow, [3]string{x[1], x[3], html.UnescapeString(x[2])})
		} else if x := merNode.FindStringSubmatch(l); x != nil {
			d.label[x[1]] = html.UnescapeString(x[2])
		} else if strings.TrimSpace(l) != "" && !merStyle.MatchString(l) {
			return picture{}, fmt.Errorf("cannot read %q", l)
		}
	}
	return d.picture(), nil
}

func compare(form, s string, read func(string) (picture, error), want picture) error {
	p, err := read(s)
	if err != nil {
		return core.V("the %s diagram is malformed: %v:\n%s", form, err, s)
	}
	if p.String() != want.String() {
		return core.V("the %s diagram shows %v\nbut should show %v", form, p, want)
	}
	return nil
}

// drawn checks the diagrams of one operator, made directly.
func drawn(t *core.T, cs []ctl) error {
	var ctls []any
	for _, c := range cs {
		ctls = append(ctls, c.spec())
	}
	b, err := json.Marshal(m{"metadata": m{"name": "op1"}, "spec": m{"controllers": ctls}})
	if err != nil {
		core.Abort("%v", err)
	}
	var op opv1a1.Operator
	if err := json.Unmarshal(b, &op); err != nil {
		return core.V("the operator is not accepted: %v", err)
	}
	want := wanted(cs)
	t.Out("%s", want)
	t.Step(want.String())
	g := visualize.BuildGraph(&op)
	if err := compare("dot", (&visualize.DotGenerator{}).Generate(g), readDot, want); err != nil {
		return err
	}
	return compare("mermaid", (&visualize.MermaidGenerator{}).Generate(g), readMermaid, want)
}

// drawnByTool checks the diagrams that the program makes of a file.
func drawnByTool(t *core.T, cs []ctl, full, yaml, toFile bool, format string) error {
	d := place()
	defer os.RemoveAll(d)
	var ctls []any
	for _, c := range cs {
		ctls = append(ctls, c.spec())
	}
	o := m{"controllers": ctls}
	if full {
		o = m{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": m{"name": "op1"}, "spec": o}
	}
	b, _ := json.MarshalIndent(o, "", " ") // also YAML
	file := "dir/op1.yaml"
	if !yaml {
		file = "op1.yml"
	}
	_ = os.Mkdir(filepath.Join(d, "dir"), 0o755)
	write(filepath.Join(d, file), string(b))
	args := []string{"visualize", file}
	if format != "" {
		args = append(args, "--format="+format)
	}
	if toFile {
		args = append(args, "--output=out")
	}
	r := dctl(d, nil, args...)
	t.Out("%d", r.code)
	if !slices.Contains([]string{"", "mermaid", "dot", "graphviz", "DOT"}, format) {
		t.Step("unknown")
		if _, err := os.Stat(filepath.Join(d, "out")); r.code == 0 || r.out != "" || err == nil {
			return core.V("the format %q is not refused", format)
		}
		return nil
	}
	if r.code != 0 {
		return core.V("no diagram: %s", short(r.err))
	}
	if toFile {
		if r.out != "" {
			return core.V("written to a file, but also shown")
		}
		r.out = string(must(os.ReadFile(filepath.Join(d, "out"))))
	}
	want := wanted(cs)
	t.Step("tool " + want.String())
	if format == "" || format == "mermaid" {
		return compare("mermaid", r.out, readMermaid, want)
	}
	if !strings.Contains(r.out, `label="op1"`) {
		return core.V("the diagram has not the operator's name: %s", short(r.out))
	}
	return compare("dot", r.out, readDot, want)
}

var checkP27 = &core.Check{
	Property: "P27", Level: "model_checking",
	Rule: "a case is one operator, with the diagrams made of it in both formats read back and compared with its controllers; outcomes differ when what should be shown differs",
	Run: func(r *core.Run) {
		srcTypes := []string{"", "Watcher", "Periodic", "OneShot"}
		dstTypes := []string{"", "Updater", "Patcher"}
		pipes := [][]string{{"@project"}, {"@select", "@project"}, {"@join", "@unwind", "@gather", "@select", "@project"}, {}}
		exec := func(space string, cs []ctl) {
			var s []string
			for _, c := range cs {
				s = append(s, c.String())
			}
			id := strings.Join(s, "; ")
			r.Exec(space+"/"+id, map[string]any{"controllers": s}, func(t *core.T) error {
				if err := drawn(t, cs); err != nil {
					return core.V("operator of %s: %v", id, err)
				}
				return nil
			})
		}
		// One controller, with all types.
		var one [][]ctl
		for _, name := range []string{"c1", "a-b.c", `c "x" <y> & 'z'`, "c: d -> e"} {
			for i, a := range resources {
				for _, ta := range srcTypes {
					for j, b := range resources {
						if j == i {
							continue
						}
						for _, dst := range resources {
							for _, td := range dstTypes {
								one = append(one, []ctl{{name, []link{{a, ta}, {b, srcTypes[len(one)%4]}}, link{dst, td}, pipes[len(one)%len(pipes)]}})
							}
						}
					}
				}
			}
			for _, a := range resources {
				for _, ta := range srcTypes {
					for _, p := range pipes {
						one = append(one, []ctl{{name, []link{{a, ta}}, link{resources[0], ""}, p}}, []ctl{{name, nil, link{a, ""}, p}},
							[]ctl{{name, []link{{a, "Watcher"}, {a, "Periodic"}, {a, "OneShot"}}, link{a, "Patcher"}, p}})
					}
				}
			}
		}
		r.Space("one controller", "operators", len(one))
		r.Parallel(len(one), func(i int) { exec("one", one[i]) })
		// Two with up to two sources each.
		var srcs [][]resource
		for i, a := range resources {
			srcs = append(srcs, []resource{a})
			for _, b := range resources[i+1:] {
				srcs = append(srcs, []resource{a, b})
			}
		}
		mk := func(name string, ss []resource, dst resource, k int) ctl {
			c := ctl{name: name, dst: link{dst, dstTypes[k%3]}, pipeline: pipes[k%3]}
			for i, s := range ss {
				c.srcs = append(c.srcs, link{s, srcTypes[(k+i)%4]})
			}
			return c
		}
		n := len(srcs) * len(resources)
		r.Space("two controllers", "operators", n*n)
		r.Parallel(n, func(i int) {
			for j := 0; j < n; j++ {
				exec("two", []ctl{mk("c1", srcs[i/len(resources)], resources[i%len(resources)], i), mk("c2", srcs[j/len(resources)], resources[j%len(resources)], j+1)})
			}
		})
		// Three and four with one source each.
		rs := resources
		if !r.Thorough() {
			rs = resources[:6]
		}
		k := len(rs) * len(rs)
		r.Space("three controllers", "operators", k*k*k)
		r.Parallel(k*k, func(ij int) {
			for l := 0; l < k; l++ {
				var cs []ctl
				for x, y := range []int{ij / k, ij % k, l} {
					cs = append(cs, mk(fmt.Sprintf("c%d", x+1), []resource{rs[y/len(rs)]}, rs[y%len(rs)], x+y))
				}
				exec("three", cs)
			}
		})
		// Many, of everything.
		var large [][]ctl
		for _, n := range []int{5, 11, 12, 26, 40} {
			var cs, chain, wide []ctl
			var ops []string
			for i := range n {
				ops = append(ops, []string{"@select", "@project", "@gather", "@unwind"}[i*i%4])
				a, b := resource{own: true, kind: fmt.Sprintf("K%d", i)}, resource{own: true, kind: fmt.Sprintf("K%d", i+1)}
				chain = append(chain, ctl{fmt.Sprintf("c%d", i), []link{{a, srcTypes[i%4]}}, link{b, dstTypes[i%3]}, pipes[i%3]})
				cs = append(cs, ctl{fmt.Sprintf("c%d", n-i), []link{{resources[i%len(resources)], srcTypes[i%4]}, {a, ""}}, link{resources[(i+1)%len(resources)], dstTypes[i%3]}, ops})
			}
			var ls []link
			for i := range n {
				ls = append(ls, link{resource{group: "g.io", vers: "v1", kind: fmt.Sprintf("K%d", i)}, srcTypes[i%4]})
			}
			wide = []ctl{{"c1", ls, link{resources[0], ""}, ops}, {"c2", ls[n/2:], link{resources[1], "Patcher"}, ops[:n/2]}}
			large = append(large, cs, chain, wide)
		}
		r.Space("many controllers", "operators", len(large))
		for _, cs := range large {
			exec("large", cs)
		}
		// With the program.
		type run struct {
			cs                 []ctl
			full, yaml, toFile bool
			format             string
		}
		var runs []run
		for i := 0; i < n; i += n / 12 {
			cs := []ctl{mk("c1", srcs[i/len(resources)], resources[i%len(resources)], i), mk("c2", srcs[(i/3)/len(resources)], resources[(i/2)%len(resources)], i)}
			for b := 0; b < 8; b++ {
				for _, f := range []string{"", "mermaid", "dot", "graphviz", "DOT", "svg"} {
					runs = append(runs, run{cs, b&1 != 0, b&2 != 0, b&4 != 0, f})
				}
			}
		}
		r.Space("made by the program", "runs", len(runs))
		r.Parallel(len(runs), func(i int) {
			x := runs[i]
			id := fmt.Sprintf("tool/%v full=%v yaml=%v file=%v format=%s", x.cs, x.full, x.yaml, x.toFile, x.format)
			r.Exec(id, map[string]any{"case": id}, func(t *core.T) error {
				if err := drawnByTool(t, x.cs, x.full, x.yaml, x.toFile, x.format); err != nil {
					return core.V("%s: %v", id, err)
				}
				return nil
			})
		})
	},
}
