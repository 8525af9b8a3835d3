package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json modelled over engine values (documented behaviour only:
// tags, omitempty, Marshaler/TextMarshaler, base64 bytes, case-insensitive keys).

type jsonErr struct{ msg string }

func (fr *frame) byteIs(t *Term, b byte) bool { return fr.i.branch(fr.i.tc.Eq(t, mkC(uint64(b), 8))) }

func plainJSON(c *TermCtx, t *Term) *Term {
	ne := func(b byte) *Term { return c.Not(c.Eq(t, mkC(uint64(b), 8))) }
	return c.And(c.Ule(mkC(0x20, 8), t), c.Ule(t, mkC(0x7e, 8)), ne('"'), ne('\\'), ne('<'), ne('>'), ne('&'))
}

func (fr *frame) jsonQuote(s Str) []*Term {
	out := []*Term{mkC('"', 8)}
	if s.b == nil {
		q := jsonQuoteNative(s.s)
		for k := 0; k < len(q); k++ {
			out = append(out, mkC(uint64(q[k]), 8))
		}
	} else {
		c := fr.i.tc
		all := tTrue
		for _, t := range s.b {
			all = c.And(all, plainJSON(c, t))
		}
		if !fr.i.branch(all) {
			unsupported("JSON string with characters that need escaping")
		}
		out = append(out, s.b...)
	}
	return append(out, mkC('"', 8))
}

func jsonQuoteNative(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\r':
			sb.WriteString(`\r`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r < 0x20 || r == '<' || r == '>' || r == '&' || r == 0x2028 || r == 0x2029:
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func lit(s string) []*Term {
	r := make([]*Term, len(s))
	for k := range r {
		r[k] = mkC(uint64(s[k]), 8)
	}
	return r
}

type jfield struct {
	name      string
	omitempty bool
	quoted    bool
	idx       []int
	t         types.Type
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	seen := map[string]bool{}
	var walk func(st *types.Struct, pre []int)
	walk = func(st *types.Struct, pre []int) {
		var emb [][2]interface{}
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			tag := reflect.StructTag(st.Tag(k)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			idx := append(append([]int{}, pre...), k)
			if f.Anonymous() && name == "" {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					ft = p.Elem()
				}
				if s2, ok := ft.Underlying().(*types.Struct); ok {
					emb = append(emb, [2]interface{}{s2, idx})
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			jf := jfield{name: name, idx: idx, t: f.Type()}
			for _, o := range parts[1:] {
				if o == "omitempty" {
					jf.omitempty = true
				}
				if o == "string" {
					jf.quoted = true
				}
			}
			if !seen[name] {
				seen[name] = true
				out = append(out, jf)
			}
		}
		for _, e := range emb {
			walk(e[0].(*types.Struct), e[1].([]int))
		}
	}
	walk(st, nil)
	sort.SliceStable(out, func(a, b int) bool {
		x, y := out[a].idx, out[b].idx
		for k := 0; k < len(x) && k < len(y); k++ {
			if x[k] != y[k] {
				return x[k] < y[k]
			}
		}
		return len(x) < len(y)
	})
	return out
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (fr *frame) jsonErrorOf(e Value) {
	if x, ok := e.(Iface); ok && x.t != nil {
		panic(jsonTarget{x})
	}
}

type jsonTarget struct{ err Iface }

func (fr *frame) jsonMarshal(t types.Type, v Value, p *Value) []*Term {
	c := fr.i.tc
	if t == nil {
		return lit("null")
	}
	isNilPtr := false
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		isNilPtr = isNilVal(v)
	}
	if isNilPtr {
		return lit("null")
	}
	call := func(mt types.Type, recv Value, name string) ([]*Term, bool) {
		m := fr.hasMethod(mt, name)
		if m == nil || m.Signature.Results().Len() != 2 {
			return nil, false
		}
		r := fr.i.callFn(fr, fr.g, m, nil, []Value{recv}).(Tuple)
		fr.jsonErrorOf(r[1])
		return sliceTerms(r[0].(Slice)), true
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			r, ok := call(t, v, name)
			if !ok && p != nil {
				r, ok = call(types.NewPointer(t), p, name)
			}
			if ok {
				if name == "MarshalText" {
					return fr.jsonQuote(mkStr(r))
				}
				return r
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if fr.i.branch(v.(*Term)) {
				return lit("true")
			}
			return lit("false")
		case u.Info()&types.IsInteger != 0:
			w, sgn, _ := intInfo(t)
			x := fr.i.concretize(v.(*Term), 64)
			if sgn {
				return lit(strconv.FormatInt(sx(x, w), 10))
			}
			return lit(strconv.FormatUint(x, 10))
		case u.Info()&types.IsString != 0:
			return fr.jsonQuote(v.(Str))
		case u.Info()&types.IsFloat != 0:
			b, err := json.Marshal(v.(float64))
			if err != nil {
				unsupported("JSON of a float that is no number")
			}
			return lit(string(b))
		}
	case *types.Pointer:
		q, ok := v.(*Value)
		if !ok {
			unsupported("json of %T", v)
		}
		return fr.jsonMarshal(u.Elem(), *q, q)
	case *types.Interface:
		x := v.(Iface)
		return fr.jsonMarshal(x.t, x.v, nil)
	case *types.Struct:
		out := lit("{")
		first := true
		for _, f := range jsonFields(u) {
			cur := v.(Struct)
			var cell *Value
			skip := false
			for k, ix := range f.idx {
				cell = &cur[ix]
				if k+1 < len(f.idx) {
					switch y := (*cell).(type) {
					case Struct:
						cur = y
					case *Value:
						if y == nil {
							skip = true
						} else {
							cur = (*y).(Struct)
						}
					}
				}
				if skip {
					break
				}
			}
			if skip {
				continue
			}
			if f.omitempty && fr.jsonEmpty(f.t, *cell) {
				continue
			}
			if !first {
				out = append(out, mkC(',', 8))
			}
			first = false
			out = append(out, fr.jsonQuote(cstr(f.name))...)
			out = append(out, mkC(':', 8))
			ap := cell
			if p == nil {
				ap = nil
			}
			out = append(out, fr.jsonMarshal(f.t, *cell, ap)...)
		}
		return append(out, mkC('}', 8))
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return lit("null")
		}
		if isByteSlice(t) {
			out := lit(`"`)
			out = append(out, base64Enc(c, fr.i, sliceTerms(s), false)...)
			return append(out, mkC('"', 8))
		}
		out := lit("[")
		for k := range s {
			if k > 0 {
				out = append(out, mkC(',', 8))
			}
			out = append(out, fr.jsonMarshal(u.Elem(), s[k], &s[k])...)
		}
		return append(out, mkC(']', 8))
	case *types.Array:
		s := v.(Array)
		out := lit("[")
		for k := range s {
			if k > 0 {
				out = append(out, mkC(',', 8))
			}
			out = append(out, fr.jsonMarshal(u.Elem(), s[k], nil)...)
		}
		return append(out, mkC(']', 8))
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return lit("null")
		}
		type kv struct {
			k string
			v Value
		}
		var kvs []kv
		for _, e := range m.ents {
			if !e.dead {
				kvs = append(kvs, kv{fr.cs(e.k), e.v})
			}
		}
		sort.Slice(kvs, func(a, b int) bool { return kvs[a].k < kvs[b].k })
		out := lit("{")
		for k, e := range kvs {
			if k > 0 {
				out = append(out, mkC(',', 8))
			}
			out = append(out, fr.jsonQuote(cstr(e.k))...)
			out = append(out, mkC(':', 8))
			out = append(out, fr.jsonMarshal(u.Elem(), e.v, nil)...)
		}
		return append(out, mkC('}', 8))
	}
	unsupported("json marshal of %s", rtString(t))
	return nil
}

func (fr *frame) jsonEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return !fr.i.branch(x)
		}
		return fr.i.branch(fr.i.tc.Eq(x, mkC(0, int(x.w))))
	case Str:
		return x.len() == 0
	case Slice:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case float64:
		return x == 0
	case Array:
		return len(x) == 0
	}
	return false
}

const b64std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
const b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

func base64Enc(c *TermCtx, i *Interp, in []*Term, url bool) []*Term {
	tab := b64std
	if url {
		tab = b64url
	}
	cells := make([]Value, 64)
	for k := range cells {
		cells[k] = mkC(uint64(tab[k]), 8)
	}
	ch := func(x *Term) *Term { // 6 bits
		if x.op == OConst {
			return mkC(uint64(tab[x.val]), 8)
		}
		r := i.mux(cells, c.Zext(x, 64)).(*Term)
		c.sex[r] = sextet{x, url}
		return r
	}
	var out []*Term
	for k := 0; k < len(in); k += 3 {
		n := len(in) - k
		b := [3]*Term{in[k], mkC(0, 8), mkC(0, 8)}
		if n > 1 {
			b[1] = in[k+1]
		}
		if n > 2 {
			b[2] = in[k+2]
		}
		all := c.Concat(b[0], b[1], b[2])
		out = append(out, ch(c.Extract(all, 23, 18)), ch(c.Extract(all, 17, 12)))
		if n > 1 {
			out = append(out, ch(c.Extract(all, 11, 6)))
		} else {
			out = append(out, mkC('=', 8))
		}
		if n > 2 {
			out = append(out, ch(c.Extract(all, 5, 0)))
		} else {
			out = append(out, mkC('=', 8))
		}
	}
	return out
}

// ---------- parsing

type jnode struct {
	kind byte // n b # s a o
	b    bool
	num  string
	str  Str
	arr  []*jnode
	keys []Str
	raw  []*Term
}

type jparser struct {
	fr  *frame
	in  []*Term
	pos int
}

func (p *jparser) fail(f string, a ...interface{}) { panic(jsonErr{fmt.Sprintf(f, a...)}) }

func (p *jparser) peek() byte {
	if p.pos >= len(p.in) {
		p.fail("unexpected end of JSON input")
	}
	t := p.in[p.pos]
	if t.op == OConst {
		return byte(t.val)
	}
	return byte(p.fr.i.concretize(t, 256))
}

func (p *jparser) ws() {
	for p.pos < len(p.in) {
		b := p.peek()
		if b != ' ' && b != '\n' && b != '\t' && b != '\r' {
			return
		}
		p.pos++
	}
}

func (p *jparser) str() Str {
	p.pos++
	var out []*Term
	c := p.fr.i.tc
	for {
		if p.pos >= len(p.in) {
			p.fail("unexpected end of JSON input")
		}
		t := p.in[p.pos]
		if t.op != OConst {
			ok := c.And(c.Ule(mkC(0x20, 8), t), c.Ule(t, mkC(0x7e, 8)), c.Not(c.Eq(t, mkC('"', 8))), c.Not(c.Eq(t, mkC('\\', 8))))
			if p.fr.i.branch(ok) {
				out = append(out, t)
				p.pos++
				continue
			}
		}
		b := p.peek()
		p.pos++
		switch {
		case b == '"':
			if out == nil {
				return Str{}
			}
			return mkStr(out)
		case b == '\\':
			e := p.peek()
			p.pos++
			switch e {
			case 'n':
				out = append(out, mkC('\n', 8))
			case 't':
				out = append(out, mkC('\t', 8))
			case 'r':
				out = append(out, mkC('\r', 8))
			case 'b':
				out = append(out, mkC('\b', 8))
			case 'f':
				out = append(out, mkC('\f', 8))
			case '"', '\\', '/':
				out = append(out, mkC(uint64(e), 8))
			case 'u':
				h := ""
				for k := 0; k < 4; k++ {
					h += string(rune(p.peek()))
					p.pos++
				}
				n, err := strconv.ParseUint(h, 16, 32)
				if err != nil {
					p.fail("invalid character in \\u hexadecimal character escape")
				}
				out = append(out, lit(string(rune(n)))...)
			default:
				p.fail("invalid character in string escape code")
			}
		case b < 0x20:
			p.fail("invalid character in string literal")
		case b >= 0x80:
			unsupported("non-ASCII JSON string")
		default:
			out = append(out, mkC(uint64(b), 8))
		}
	}
}

func (p *jparser) value(d int) *jnode {
	p.ws()
	if d > 60 {
		unsupported("json depth")
	}
	start := p.pos
	n := &jnode{}
	switch b := p.peek(); {
	case b == '"':
		n.kind = 's'
		n.str = p.str()
	case b == '{':
		n.kind = 'o'
		p.pos++
		p.ws()
		if p.peek() == '}' {
			p.pos++
			break
		}
		for {
			p.ws()
			if p.peek() != '"' {
				p.fail("invalid character looking for beginning of object key string")
			}
			n.keys = append(n.keys, p.str())
			p.ws()
			if p.peek() != ':' {
				p.fail("invalid character after object key")
			}
			p.pos++
			n.arr = append(n.arr, p.value(d+1))
			p.ws()
			e := p.peek()
			p.pos++
			if e == '}' {
				break
			}
			if e != ',' {
				p.fail("invalid character after object key:value pair")
			}
		}
	case b == '[':
		n.kind = 'a'
		p.pos++
		p.ws()
		if p.peek() == ']' {
			p.pos++
			break
		}
		for {
			n.arr = append(n.arr, p.value(d+1))
			p.ws()
			e := p.peek()
			p.pos++
			if e == ']' {
				break
			}
			if e != ',' {
				p.fail("invalid character after array element")
			}
		}
	case b == 't' || b == 'f' || b == 'n':
		w := map[byte]string{'t': "true", 'f': "false", 'n': "null"}[b]
		for k := 0; k < len(w); k++ {
			if p.peek() != w[k] {
				p.fail("invalid character in literal %s", w)
			}
			p.pos++
		}
		n.kind = 'b'
		n.b = b == 't'
		if b == 'n' {
			n.kind = 'n'
		}
	case b == '-' || b >= '0' && b <= '9':
		s := ""
		for p.pos < len(p.in) {
			x := p.peek()
			if x >= '0' && x <= '9' || x == '-' || x == '+' || x == '.' || x == 'e' || x == 'E' {
				s += string(rune(x))
				p.pos++
				continue
			}
			break
		}
		if !validNum(s) {
			p.fail("invalid character in numeric literal")
		}
		n.kind = '#'
		n.num = s
	default:
		p.fail("invalid character %q looking for beginning of value", b)
	}
	n.raw = p.in[start:p.pos]
	return n
}

func validNum(s string) bool {
	k := 0
	if k < len(s) && s[k] == '-' {
		k++
	}
	if k >= len(s) {
		return false
	}
	if s[k] == '0' {
		k++
	} else if s[k] >= '1' && s[k] <= '9' {
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
		}
	} else {
		return false
	}
	if k < len(s) && s[k] == '.' {
		k++
		st := k
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
		}
		if st == k {
			return false
		}
	}
	if k < len(s) && (s[k] == 'e' || s[k] == 'E') {
		k++
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		st := k
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
		}
		if st == k {
			return false
		}
	}
	return k == len(s)
}

func (fr *frame) jsonParse(in []*Term, whole bool) (n *jnode, used int, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	p := &jparser{fr: fr, in: in}
	n = p.value(0)
	if whole {
		p.ws()
		if p.pos < len(in) {
			p.fail("invalid character after top-level value")
		}
	}
	return n, p.pos, ""
}

func (fr *frame) jsonStore(n *jnode, t types.Type, p *Value, d int) {
	// walk pointers, allocating; look for unmarshalers
	for {
		pt, isPtr := t.Underlying().(*types.Pointer)
		if n.kind == 'n' && isPtr {
			*p = (*Value)(nil)
			return
		}
		if !isPtr {
			if m := fr.hasMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil && m.Signature.Params().Len() == 1 {
				raw := append([]*Term{}, n.raw...)
				fr.jsonErrorOf(fr.i.callFn(fr, fr.g, m, nil, []Value{p, termsSlice(raw)}))
				return
			}
			if n.kind == 's' {
				if m := fr.hasMethod(types.NewPointer(t), "UnmarshalText"); m != nil && m.Signature.Params().Len() == 1 {
					fr.jsonErrorOf(fr.i.callFn(fr, fr.g, m, nil, []Value{p, termsSlice(n.str.terms())}))
					return
				}
			}
			break
		}
		q, ok := (*p).(*Value)
		if !ok {
			unsupported("json into %T", *p)
		}
		if q == nil {
			q = newCell(zero(pt.Elem()))
			*p = q
		}
		p, t = q, pt.Elem()
	}
	bad := func() {
		names := map[byte]string{'s': "string", '#': "number", 'b': "bool", 'a': "array", 'o': "object"}
		panic(jsonErr{"json: cannot unmarshal " + names[n.kind] + " into Go value of type " + rtString(t)})
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Map, *types.Slice:
			storeCell(p, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			bad()
		}
		*p = fr.jsonAny(n)
		return
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				bad()
			}
			*p = mkBool(n.b)
			return
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				bad()
			}
			*p = n.str
			return
		case u.Info()&types.IsInteger != 0:
			if n.kind != '#' {
				bad()
			}
			w, sgn, _ := intInfo(t)
			if sgn {
				x, err := strconv.ParseInt(n.num, 10, w)
				if err != nil {
					bad()
				}
				*p = mkC(uint64(x)&maskW(w), w)
			} else {
				x, err := strconv.ParseUint(n.num, 10, w)
				if err != nil {
					bad()
				}
				*p = mkC(x, w)
			}
			return
		case u.Info()&types.IsFloat != 0:
			if n.kind != '#' {
				bad()
			}
			x, _ := strconv.ParseFloat(n.num, 64)
			*p = x
			return
		}
	case *types.Slice:
		if n.kind == 's' && isByteSlice(t) {
			s, ok := n.str.concrete()
			if !ok {
				r, ok := base64Dec(fr.i, n.str.b, false)
				if !ok {
					unsupported("base64 decode of a symbolic string")
				}
				*p = termsSlice(r)
				return
			}
			b, err := b64decode(s, false)
			if err != nil {
				panic(jsonErr{"illegal base64 data"})
			}
			*p = bytesSlice(b)
			return
		}
		if n.kind != 'a' {
			bad()
		}
		s := allocSlice(u.Elem(), len(n.arr), len(n.arr))
		if s == nil {
			s = Slice{}
		}
		for k, e := range n.arr {
			fr.jsonStore(e, u.Elem(), &s[k], d+1)
		}
		*p = s
		return
	case *types.Array:
		if n.kind != 'a' {
			bad()
		}
		a := (*p).(Array)
		for k := range a {
			if k < len(n.arr) {
				fr.jsonStore(n.arr[k], u.Elem(), &a[k], d+1)
			} else {
				storeCell(&a[k], zero(u.Elem()))
			}
		}
		return
	case *types.Map:
		if n.kind != 'o' {
			bad()
		}
		m := (*p).(*MapV)
		if m == nil {
			m = newMap(u)
			*p = m
		}
		for k, e := range n.arr {
			c := newCell(zero(u.Elem()))
			fr.jsonStore(e, u.Elem(), c, d+1)
			fr.mapSet(m, n.keys[k], *c, u.Key())
		}
		return
	case *types.Struct:
		if n.kind != 'o' {
			bad()
		}
		fs := jsonFields(u)
		for k, e := range n.arr {
			key := fr.cs(n.keys[k])
			var f *jfield
			for x := range fs {
				if fs[x].name == key {
					f = &fs[x]
					break
				}
			}
			if f == nil {
				for x := range fs {
					if strings.EqualFold(fs[x].name, key) {
						f = &fs[x]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			cur := (*p).(Struct)
			st := u
			var cell *Value
			for q, ix := range f.idx {
				cell = &cur[ix]
				if q+1 < len(f.idx) {
					ft := st.Field(ix).Type()
					if pt, ok := ft.Underlying().(*types.Pointer); ok {
						ft = pt.Elem()
						if isNilVal(*cell) {
							*cell = newCell(zero(ft))
						}
						cur = (*(*cell).(*Value)).(Struct)
					} else {
						cur = (*cell).(Struct)
					}
					st = ft.Underlying().(*types.Struct)
				}
			}
			fr.jsonStore(e, f.t, cell, d+1)
		}
		return
	}
	unsupported("json unmarshal into %s", rtString(t))
}

func (fr *frame) jsonAny(n *jnode) Iface {
	switch n.kind {
	case 's':
		return Iface{t: types.Typ[types.String], v: n.str}
	case 'b':
		return Iface{t: types.Typ[types.Bool], v: mkBool(n.b)}
	case '#':
		x, _ := strconv.ParseFloat(n.num, 64)
		return Iface{t: types.Typ[types.Float64], v: x}
	case 'a':
		et := types.NewInterfaceType(nil, nil)
		s := make(Slice, len(n.arr))
		for k, e := range n.arr {
			s[k] = fr.jsonAny(e)
		}
		return Iface{t: types.NewSlice(et), v: s}
	case 'o':
		et := types.NewInterfaceType(nil, nil)
		mt := types.NewMap(types.Typ[types.String], et)
		m := newMap(mt)
		for k, e := range n.arr {
			fr.mapSet(m, n.keys[k], fr.jsonAny(e), mt.Key())
		}
		return Iface{t: mt, v: m}
	}
	return Iface{}
}

func (fr *frame) jsonUnmarshal(in []*Term, dst Iface, whole bool) (err Iface, used int) {
	pt, ok := dst.v.(*Value)
	if dst.t == nil || !ok || pt == nil {
		return fr.newErr("json: Unmarshal(non-pointer)"), 0
	}
	n, used, msg := fr.jsonParse(in, whole)
	if msg != "" {
		return fr.newErr(msg), used
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case jsonErr:
					err = fr.newErr(e.msg)
				case jsonTarget:
					err = e.err
				default:
					panic(r)
				}
			}
		}()
		fr.jsonStore(n, dst.t.Underlying().(*types.Pointer).Elem(), pt, 0)
	}()
	return err, used
}

func (fr *frame) jsonMarshalTop(x Iface) (out []*Term, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case jsonErr:
				err = fr.newErr(e.msg)
			case jsonTarget:
				err = e.err
			default:
				panic(r)
			}
		}
	}()
	return fr.jsonMarshal(x.t, x.v, nil), Iface{}
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func init() {
	reg("encoding/json.Marshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		out, err := fr.jsonMarshalTop(a[0].(Iface))
		if err.t != nil {
			return Tuple{Slice(nil), err}
		}
		return Tuple{termsSlice(out), Iface{}}
	})
	reg("encoding/json.MarshalIndent", func(fr *frame, fn *ssa.Function, a []Value) Value {
		out, err := fr.jsonMarshalTop(a[0].(Iface))
		if err.t != nil {
			return Tuple{Slice(nil), err}
		}
		return Tuple{termsSlice(out), Iface{}}
	})
	reg("encoding/json.Unmarshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		err, _ := fr.jsonUnmarshal(sliceTerms(a[0].(Slice)), a[1].(Iface), true)
		return err
	})
	reg("(*encoding/json.Decoder).Decode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		d := (*a[0].(*Value)).(Struct)
		rd := d[0].(Iface)
		ra := fr.i.P.pkgs["io"].Func("ReadAll")
		r := fr.i.callFn(fr, fr.g, ra, nil, []Value{rd}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		all := sliceTerms(r[0].(Slice))
		if len(all) == 0 {
			return *fr.i.global(fr.i.P.pkgs["io"].Var("EOF"))
		}
		err, _ := fr.jsonUnmarshal(all, a[1].(Iface), false)
		return err
	})
	reg("encoding/json.NewDecoder", func(fr *frame, fn *ssa.Function, a []Value) Value {
		z := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(Struct)
		z[0] = a[0]
		return newCell(z)
	})
	reg("encoding/json.NewEncoder", func(fr *frame, fn *ssa.Function, a []Value) Value {
		z := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(Struct)
		z[0] = a[0]
		return newCell(z)
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("(*encoding/json.Encoder).SetIndent", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("(*encoding/json.Encoder).Encode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		out, err := fr.jsonMarshalTop(a[1].(Iface))
		if err.t != nil {
			return err
		}
		w := (*a[0].(*Value)).(Struct)[0].(Iface)
		m := fr.hasMethod(w.t, "Write")
		r := fr.i.callFn(fr, fr.g, m, nil, []Value{w.v, termsSlice(append(out, mkC('\n', 8)))}).(Tuple)
		return r[1]
	})
}

var _ = big.NewInt

func b64decode(s string, url bool) ([]byte, error) { return b64native(s, url) }
