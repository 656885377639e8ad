package ref

import (
	"strconv"
	"strings"
)

type step struct {
	key  string
	idx  int
	kind byte // 'k' key, 'i' index, '*' wildcard, '?' filter on key == val
	val  string
}

// ParsePath parses the subset of JSONPath used by the checks: $ .name ['name'] ["name"] [n] [*]
// [?(@.name=='val')].
func ParsePath(p string) ([]step, error) {
	if p == "$." || p == "$" {
		return nil, nil
	}
	if p == "" || p[0] != '$' {
		return nil, bad("path %q", p)
	}
	var out []step
	s := p[1:]
	for s != "" {
		switch {
		case strings.HasPrefix(s, "[?(@."):
			e := strings.Index(s, ")]")
			if e < 0 {
				return nil, bad("path %q", p)
			}
			in := s[5:e]
			kv := strings.SplitN(in, "==", 2)
			if len(kv) != 2 {
				return nil, bad("path %q", p)
			}
			out = append(out, step{kind: '?', key: strings.TrimSpace(kv[0]), val: strings.Trim(strings.TrimSpace(kv[1]), `'"`)})
			s = s[e+2:]
		case s[0] == '[' && len(s) > 1 && (s[1] == '\'' || s[1] == '"'):
			e := strings.Index(s[2:], string(s[1])+"]")
			if e < 0 {
				return nil, bad("path %q", p)
			}
			out = append(out, step{kind: 'k', key: s[2 : 2+e]})
			s = s[2+e+2:]
		case s[0] == '[':
			e := strings.IndexByte(s, ']')
			if e < 0 {
				return nil, bad("path %q", p)
			}
			if s[1:e] == "*" {
				out = append(out, step{kind: '*'})
			} else {
				n, err := strconv.Atoi(s[1:e])
				if err != nil {
					return nil, bad("path %q", p)
				}
				out = append(out, step{kind: 'i', idx: n})
			}
			s = s[e+1:]
		case s[0] == '.':
			s = s[1:]
			e := strings.IndexAny(s, ".[")
			if e < 0 {
				e = len(s)
			}
			if e == 0 {
				return nil, bad("path %q", p)
			}
			if s[:e] == "*" {
				out = append(out, step{kind: '*'})
			} else {
				out = append(out, step{kind: 'k', key: s[:e]})
			}
			s = s[e:]
		default:
			return nil, bad("path %q", p)
		}
	}
	return out, nil
}

// Get returns the first value at the path, nil if there is none.
func Get(obj any, p string) (any, error) {
	st, err := ParsePath(p)
	if err != nil {
		return nil, err
	}
	v, ok := get(obj, st)
	if !ok {
		return nil, nil
	}
	return v, nil
}

func get(v any, st []step) (any, bool) {
	if len(st) == 0 {
		return v, true
	}
	s := st[0]
	switch s.kind {
	case 'k':
		m, ok := v.(map[string]any)
		if !ok {
			return nil, false
		}
		x, ok := m[s.key]
		if !ok {
			return nil, false
		}
		return get(x, st[1:])
	case 'i':
		l, ok := v.([]any)
		if !ok {
			return nil, false
		}
		i := s.idx
		if i < 0 {
			i += len(l)
		}
		if i < 0 || i >= len(l) {
			return nil, false
		}
		return get(l[i], st[1:])
	case '*', '?':
		l, ok := v.([]any)
		if !ok {
			return nil, false
		}
		for _, x := range l {
			if s.kind == '?' {
				m, ok := x.(map[string]any)
				if !ok || m[s.key] != any(s.val) {
					continue
				}
			}
			if r, ok := get(x, st[1:]); ok {
				return r, true
			}
		}
	}
	return nil, false
}

// Set sets the value at every location the path addresses, creating maps for missing keys on the way.
func Set(m map[string]any, p string, v any) error {
	st, err := ParsePath(p)
	if err != nil {
		return err
	}
	if len(st) == 0 {
		return bad("cannot set root")
	}
	return set(m, st, v)
}

func set(cur any, st []step, v any) error {
	s, last := st[0], len(st) == 1
	switch s.kind {
	case 'k':
		x, ok := cur.(map[string]any)
		if !ok {
			return bad("not a map at %q", s.key)
		}
		if last {
			x[s.key] = v
			return nil
		}
		if _, ok := x[s.key]; !ok {
			if st[1].kind != 'k' {
				return bad("cannot create list")
			}
			x[s.key] = map[string]any{}
		}
		return set(x[s.key], st[1:], v)
	case 'i':
		l, ok := cur.([]any)
		if !ok || s.idx < -len(l) || s.idx >= len(l) {
			return bad("index")
		}
		j := s.idx
		if j < 0 {
			j += len(l)
		}
		if last {
			l[j] = v
			return nil
		}
		return set(l[j], st[1:], v)
	case '*', '?':
		if last && s.kind == '?' {
			return bad("a filter selects items to change, it cannot replace them")
		}
		l, ok := cur.([]any)
		if !ok {
			return bad("not a list")
		}
		for j := range l {
			if s.kind == '?' {
				m, ok := l[j].(map[string]any)
				if !ok || m[s.key] != any(s.val) {
					continue
				}
			}
			if last {
				l[j] = v
			} else if err := set(l[j], st[1:], v); err != nil {
				return err
			}
		}
		return nil
	}
	return bad("unsupported set path")
}

// Settable says whether the path leads through maps and existing list items only, so that what it
// addresses for writing is beyond doubt: missing keys may only be followed by keys.
func Settable(v any, p string) bool {
	st, err := ParsePath(p)
	return err == nil && settable(v, st)
}

func settable(v any, st []step) bool {
	if len(st) == 0 {
		return true
	}
	switch st[0].kind {
	case 'k':
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		x, ok := m[st[0].key]
		if !ok {
			for _, s := range st {
				if s.kind != 'k' {
					return false
				}
			}
			return true
		}
		return len(st) == 1 || settable(x, st[1:])
	case 'i':
		l, ok := v.([]any)
		if !ok {
			return false
		}
		i := st[0].idx
		if i < 0 {
			i += len(l)
		}
		return i >= 0 && i < len(l) && (len(st) == 1 || settable(l[i], st[1:]))
	}
	l, ok := v.([]any)
	if !ok {
		return false
	}
	for _, x := range l {
		if len(st) > 1 && !settable(x, st[1:]) {
			return false
		}
	}
	return true
}

// Ordered says whether the path selects only from lists, so that its first match is well defined.
func Ordered(v any, p string) bool {
	st, err := ParsePath(p)
	return err != nil || ordered(v, st)
}

func ordered(v any, st []step) bool {
	if len(st) == 0 {
		return true
	}
	switch st[0].kind {
	case 'k':
		m, _ := v.(map[string]any)
		return ordered(m[st[0].key], st[1:])
	case 'i':
		l, _ := v.([]any)
		i := st[0].idx
		if i < 0 {
			i += len(l)
		}
		return i < 0 || i >= len(l) || ordered(l[i], st[1:])
	}
	if m, ok := v.(map[string]any); ok {
		return len(m) == 0
	}
	l, _ := v.([]any)
	for _, x := range l {
		if !ordered(x, st[1:]) {
			return false
		}
	}
	return true
}
