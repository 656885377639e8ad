// Package ref is an independent reference implementation of the documented semantics of the
// expression language and of the pipeline operators. It shares no code with the implementation and
// is written to be boring: every pipeline is recomputed from scratch from the full input.
package ref

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Parse decodes JSON, with integers as int64.
func Parse(s string) any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(fmt.Sprintf("ref.Parse %q: %v", s, err))
	}
	return fix(v)
}

func fix(v any) any {
	switch x := v.(type) {
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return i
		}
		f, _ := x.Float64()
		return f
	case []any:
		for i := range x {
			x[i] = fix(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = fix(x[k])
		}
	}
	return v
}

// Copy deep-copies a JSON value.
func Copy(v any) any {
	switch x := v.(type) {
	case []any:
		r := make([]any, len(x))
		for i := range x {
			r[i] = Copy(x[i])
		}
		return r
	case map[string]any:
		r := make(map[string]any, len(x))
		for k := range x {
			r[k] = Copy(x[k])
		}
		return r
	}
	return v
}

// CopyMap deep-copies a document.
func CopyMap(m map[string]any) map[string]any { return Copy(m).(map[string]any) }

// Canon is the canonical text of a value; floats and ints are told apart.
func Canon(v any) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			canon(b, x[k])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, x[i])
		}
		b.WriteByte(']')
	case string:
		b.WriteString(strconv.Quote(x))
	case float64:
		b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
		if x == math.Trunc(x) && !math.IsInf(x, 0) {
			b.WriteString("f")
		}
	default:
		fmt.Fprintf(b, "%v", x)
		switch v.(type) {
		case bool, int64:
		default:
			fmt.Fprintf(b, "<%T>", v)
		}
	}
}

var errEval = errors.New("evaluation error")

func bad(f string, a ...any) error { return fmt.Errorf("%w: %s", errEval, fmt.Sprintf(f, a...)) }

// Ctx is an evaluation context; HasLocal says that $$ is bound.
type Ctx struct {
	Object   any
	Local    any
	HasLocal bool
}

// IsOp says whether e is an operator application, and of which operator.
func IsOp(e any) (string, any, bool) {
	m, ok := e.(map[string]any)
	if !ok || len(m) != 1 {
		return "", nil, false
	}
	for k, v := range m {
		if strings.HasPrefix(k, "@") {
			return k, v, true
		}
	}
	return "", nil, false
}

// Eval evaluates an expression given as decoded JSON.
func Eval(e any, c Ctx) (any, error) {
	switch x := e.(type) {
	case nil:
		return nil, nil
	case bool, int64, float64:
		return x, nil
	case string:
		return evalString(x, c)
	case []any:
		ret := []any{}
		for _, el := range x {
			v, err := Eval(el, c)
			if err != nil {
				return nil, err
			}
			ret = append(ret, v)
		}
		return flatten(ret), nil
	case map[string]any:
		if op, arg, ok := IsOp(x); ok {
			return evalOp(op, arg, c)
		}
		ret := map[string]any{}
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v, err := Eval(x[k], c)
			if err != nil {
				return nil, err
			}
			if err := SetKey(ret, k, v, c); err != nil {
				return nil, err
			}
		}
		return ret, nil
	}
	return nil, bad("unknown expression %T", e)
}

// A literal list whose first item is itself a list stands for that item (lists are one-dimensional).
func flatten(l []any) []any {
	if len(l) > 0 {
		if f, ok := l[0].([]any); ok {
			return f
		}
	}
	return l
}

func evalString(s string, c Ctx) (any, error) {
	if s == "" || s[0] != '$' {
		return s, nil
	}
	if strings.HasPrefix(s, "$$") && c.HasLocal {
		return Get(c.Local, s[1:])
	}
	return Get(c.Object, s)
}

// SetKey sets a key of a map under construction.
func SetKey(m map[string]any, key string, v any, c Ctx) error {
	if key == "" {
		return bad("empty key")
	}
	if s, ok := v.(string); ok && strings.HasPrefix(s, "$") {
		x, err := evalString(s, c)
		if err != nil {
			return err
		}
		v = x
	}
	if key == "$." {
		src, ok := v.(map[string]any)
		if !ok {
			return bad("cannot set root")
		}
		for k := range src {
			m[k] = Copy(src[k])
		}
		return nil
	}
	if key[0] != '$' {
		m[key] = Copy(v)
		return nil
	}
	return Set(m, key, Copy(v))
}

func args(a any) []any {
	if l, ok := a.([]any); ok {
		return l
	}
	return []any{a}
}

func asBool(v any) (bool, error) {
	if b, ok := v.(bool); ok {
		return b, nil
	}
	return false, bad("not a bool")
}

func asInt(v any) (int64, error) {
	switch x := v.(type) {
	case int64:
		return x, nil
	case string:
		if i, err := strconv.ParseInt(x, 10, 64); err == nil {
			return i, nil
		}
	}
	return 0, bad("not an int")
}

func asFloat(v any) (float64, error) {
	switch x := v.(type) {
	case int64:
		return float64(x), nil
	case float64:
		return x, nil
	case string:
		if f, err := strconv.ParseFloat(x, 64); err == nil {
			return f, nil
		}
	}
	return 0, bad("not a float")
}

func asString(v any) (string, error) {
	switch x := v.(type) {
	case string:
		return x, nil
	case int64:
		return strconv.FormatInt(x, 10), nil
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64), nil
	}
	return "", bad("not a string")
}

// nums converts a list to numbers: all ints if possible, else all floats.
func nums(v any) ([]int64, []float64, bool, error) {
	l, ok := v.([]any)
	if !ok {
		return nil, nil, false, bad("not a list")
	}
	is, allInt := []int64{}, true
	for _, e := range l {
		i, err := asInt(e)
		if err != nil {
			allInt = false
			break
		}
		is = append(is, i)
	}
	if allInt {
		return is, nil, true, nil
	}
	fs := []float64{}
	for _, e := range l {
		f, err := asFloat(e)
		if err != nil {
			return nil, nil, false, err
		}
		fs = append(fs, f)
	}
	return nil, fs, false, nil
}

func evalBoolArg(e any, c Ctx) (bool, error) {
	v, err := Eval(e, c)
	if err != nil {
		return false, err
	}
	return asBool(v)
}

func evalOp(op string, arg any, c Ctx) (any, error) {
	switch op {
	case "@noop":
		return nil, nil
	case "@and", "@or":
		for _, a := range args(arg) {
			b, err := evalBoolArg(a, c)
			if err != nil {
				return nil, err
			}
			if b == (op == "@or") {
				return b, nil
			}
		}
		return op == "@and", nil
	case "@cond":
		as := args(arg)
		if len(as) != 2 && len(as) != 3 {
			return nil, bad("arity")
		}
		b, err := evalBoolArg(as[0], c)
		if err != nil {
			return nil, err
		}
		if b {
			return Eval(as[1], c)
		}
		if len(as) == 3 {
			return Eval(as[2], c)
		}
		return nil, nil
	case "@definedOr":
		as := args(arg)
		if len(as) != 2 {
			return nil, bad("arity")
		}
		v, err := Eval(as[0], c)
		if err != nil || v != nil {
			return v, err
		}
		return Eval(as[1], c)
	case "@switch":
		ps := args(arg)
		if len(ps) == 0 {
			return nil, bad("arity")
		}
		for _, p := range ps {
			l, ok := p.([]any)
			if !ok || len(l) != 2 {
				return nil, bad("pair")
			}
			b, err := evalBoolArg(l[0], c)
			if err != nil {
				return nil, err
			}
			if b {
				return Eval(l[1], c)
			}
		}
		return nil, nil
	case "@filter", "@any", "@none", "@all", "@map":
		as := args(arg)
		if len(as) != 2 {
			return nil, bad("arity")
		}
		lv, err := Eval(as[1], c)
		if err != nil {
			return nil, err
		}
		l, ok := lv.([]any)
		if !ok {
			return nil, bad("not a list")
		}
		out := []any{}
		for _, it := range l {
			v, err := Eval(as[0], Ctx{Object: c.Object, Local: it, HasLocal: true})
			if err != nil {
				return nil, err
			}
			if op == "@map" {
				out = append(out, v)
				continue
			}
			b, err := asBool(v)
			if err != nil {
				return nil, err
			}
			switch {
			case op == "@filter" && b:
				out = append(out, it)
			case op == "@any" && b:
				return true, nil
			case op == "@none" && b:
				return false, nil
			case op == "@all" && !b:
				return false, nil
			}
		}
		switch op {
		case "@any":
			return false, nil
		case "@none", "@all":
			return true, nil
		}
		return out, nil
	}

	v, err := Eval(arg, c)
	if err != nil {
		return nil, err
	}
	switch op {
	case "@bool":
		return wrap(asBool(v))
	case "@int":
		return wrap(asInt(v))
	case "@float":
		return wrap(asFloat(v))
	case "@string":
		s, err := asString(v)
		if err != nil {
			return nil, err
		}
		return evalString(s, c)
	case "@list":
		l, ok := v.([]any)
		if !ok {
			return nil, bad("not a list")
		}
		return flatten(l), nil
	case "@dict":
		m, ok := v.(map[string]any)
		if !ok {
			return nil, bad("not a map")
		}
		return m, nil
	case "@isnil":
		return v == nil, nil
	case "@exists", "@has":
		return v != nil, nil
	case "@not":
		b, err := asBool(v)
		if err != nil {
			return nil, err
		}
		return !b, nil
	case "@eq":
		l, err := list(v, 2)
		if err != nil {
			return nil, err
		}
		return l[0] != nil && l[1] != nil && reflect.DeepEqual(l[0], l[1]), nil
	case "@lt", "@lte", "@gt", "@gte":
		is, fs, isInt, err := nums(v)
		if err != nil {
			return nil, err
		}
		if len(is)+len(fs) != 2 {
			return nil, bad("arity")
		}
		if isInt {
			return cmp(op, is[0] < is[1], is[0] == is[1]), nil
		}
		return cmp(op, fs[0] < fs[1], fs[0] == fs[1]), nil
	case "@selector":
		l, err := list(v, 2)
		if err != nil {
			return nil, err
		}
		if l[0] == nil || l[1] == nil {
			return false, nil
		}
		sel, ok1 := l[0].(map[string]any)
		lab, ok2 := l[1].(map[string]any)
		if !ok1 || !ok2 {
			return nil, bad("not an object")
		}
		return wrap(Selector(sel, lab))
	case "@abs", "@ceil", "@floor":
		f, err := asFloat(v)
		if err != nil {
			return nil, err
		}
		switch op {
		case "@abs":
			return math.Abs(f), nil
		case "@ceil":
			return math.Ceil(f), nil
		}
		return math.Floor(f), nil
	case "@add", "@sub", "@mul":
		is, fs, isInt, err := nums(v)
		if err != nil {
			return nil, err
		}
		if len(is)+len(fs) != 2 {
			return nil, bad("arity")
		}
		if isInt {
			switch op {
			case "@add":
				return is[0] + is[1], nil
			case "@sub":
				return is[0] - is[1], nil
			}
			return is[0] * is[1], nil
		}
		switch op {
		case "@add":
			return fs[0] + fs[1], nil
		case "@sub":
			return fs[0] - fs[1], nil
		}
		return fs[0] * fs[1], nil
	case "@div":
		l, err := list(v, 2)
		if err != nil {
			return nil, err
		}
		a, err := asFloat(l[0])
		if err != nil {
			return nil, err
		}
		b, err := asFloat(l[1])
		if err != nil {
			return nil, err
		}
		return a / b, nil
	case "@sum", "@min", "@max":
		is, fs, isInt, err := nums(v)
		if err != nil {
			return nil, err
		}
		if isInt {
			if len(is) == 0 {
				if op == "@sum" {
					return int64(0), nil
				}
				return nil, nil
			}
			r := is[0]
			for _, x := range is[1:] {
				switch {
				case op == "@sum":
					r += x
				case op == "@min" && x < r, op == "@max" && x > r:
					r = x
				}
			}
			return r, nil
		}
		r := fs[0]
		for _, x := range fs[1:] {
			switch {
			case op == "@sum":
				r += x
			case op == "@min" && x < r, op == "@max" && x > r:
				r = x
			}
		}
		return r, nil
	case "@len":
		l, ok := v.([]any)
		if !ok {
			return nil, bad("not a list")
		}
		return int64(len(l)), nil
	case "@in":
		l, err := list(v, 2)
		if err != nil {
			return nil, err
		}
		in, ok := l[1].([]any)
		if !ok {
			return nil, bad("not a list")
		}
		for _, x := range in {
			if reflect.DeepEqual(x, l[0]) {
				return true, nil
			}
		}
		return false, nil
	case "@concat":
		l, ok := v.([]any)
		if !ok {
			return nil, bad("not a list")
		}
		r := ""
		for _, x := range l {
			s, err := asString(x)
			if err != nil {
				return nil, err
			}
			r += s
		}
		return r, nil
	case "@range":
		l, err := list(v, 2)
		if err != nil {
			return nil, err
		}
		a, err := asInt(l[0])
		if err != nil {
			return nil, err
		}
		b, err := asInt(l[1])
		if err != nil {
			return nil, err
		}
		r := []any{}
		for i := a; i < b; i++ {
			r = append(r, i)
		}
		return r, nil
	}
	return nil, bad("unknown op %s", op)
}

func cmp(op string, lt, eq bool) bool {
	switch op {
	case "@lt":
		return lt
	case "@lte":
		return lt || eq
	case "@gt":
		return !lt && !eq
	}
	return !lt
}

func wrap[X any](v X, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return v, nil
}

func list(v any, n int) ([]any, error) {
	l, ok := v.([]any)
	if !ok || len(l) != n {
		return nil, bad("expected a list of %d", n)
	}
	return l, nil
}

var (
	labelKey = regexp.MustCompile(`^([a-z0-9]([-a-z0-9.]*[a-z0-9])?/)?[A-Za-z0-9]([-A-Za-z0-9_.]{0,61}[A-Za-z0-9])?$`)
	labelVal = regexp.MustCompile(`^([A-Za-z0-9]([-A-Za-z0-9_.]{0,61}[A-Za-z0-9])?)?$`)
)

// Selector matches a Kubernetes label selector, or a plain label map, against labels.
func Selector(sel, labels map[string]any) (bool, error) {
	ml, ok1 := sel["matchLabels"].(map[string]any)
	me, ok2 := sel["matchExpressions"].([]any)
	if !ok1 && !ok2 {
		ml = sel
	}
	get := func(k string) (string, bool) {
		v, ok := labels[k]
		return fmt.Sprint(v), ok
	}
	res := true
	for k, v := range ml {
		if !labelKey.MatchString(k) || !labelVal.MatchString(fmt.Sprint(v)) {
			return false, bad("invalid label")
		}
		if g, ok := get(k); !ok || g != fmt.Sprint(v) {
			res = false
		}
	}
	for _, e := range me {
		m, ok := e.(map[string]any)
		if !ok {
			continue
		}
		key, _ := m["key"].(string)
		vals, _ := m["values"].([]any)
		g, has := get(key)
		in := false
		if !labelKey.MatchString(key) {
			return false, bad("invalid label")
		}
		for _, v := range vals {
			if !labelVal.MatchString(fmt.Sprint(v)) {
				return false, bad("invalid label")
			}
			if fmt.Sprint(v) == g {
				in = true
			}
		}
		switch m["operator"] {
		case "In":
			if len(vals) == 0 {
				return false, bad("values")
			}
			res = res && has && in
		case "NotIn":
			if len(vals) == 0 {
				return false, bad("values")
			}
			res = res && (!has || !in)
		case "Exists":
			if len(vals) != 0 {
				return false, bad("values")
			}
			res = res && has
		case "DoesNotExist":
			if len(vals) != 0 {
				return false, bad("values")
			}
			res = res && !has
		default:
			return false, bad("operator")
		}
	}
	return res, nil
}
