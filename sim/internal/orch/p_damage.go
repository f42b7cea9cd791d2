package orch

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"

	"verif/internal/gen"
	"verif/plan"
)

// span is one JSON value in a record.
type span struct {
	lo, hi int
	key    string // of the member it is the value of
	depth  int
}

// spans finds the JSON values of a record.
func spans(b []byte) []span {
	var out []span
	i := 0
	ws := func() {
		for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
			i++
		}
	}
	str := func() string {
		lo := i
		for i++; i < len(b) && b[i] != '"'; i++ {
			if b[i] == '\\' {
				i++
			}
		}
		i++
		if i > len(b) {
			i = len(b)
		}
		return string(b[lo:i])
	}
	var val func(key string, depth int)
	val = func(key string, depth int) {
		ws()
		if i >= len(b) {
			return
		}
		k := len(out)
		out = append(out, span{lo: i, key: key, depth: depth})
		switch b[i] {
		case '{':
			i++
			for ws(); i < len(b) && b[i] != '}'; ws() {
				if b[i] == ',' {
					i++
					ws()
				}
				if i >= len(b) || b[i] != '"' {
					i++
					continue
				}
				name := str()
				ws()
				i++ // colon
				val(strings.Trim(name, `"`), depth+1)
			}
			i++
		case '[':
			i++
			for ws(); i < len(b) && b[i] != ']'; ws() {
				if b[i] == ',' {
					i++
				}
				val("", depth+1)
			}
			i++
		case '"':
			str()
		default:
			for i < len(b) && !strings.ContainsRune(",]} \n\t\r", rune(b[i])) {
				i++
			}
		}
		if i == out[k].lo {
			i++ // damaged: not a value
		}
		if i > len(b) {
			i = len(b)
		}
		out[k].hi = i
	}
	val("", 0)
	return out
}

func replace(b []byte, lo, hi int, with []byte) []byte {
	out := append([]byte(nil), b[:lo]...)
	out = append(out, with...)
	return append(out, b[hi:]...)
}

var typeNames = []string{"Field", "FieldSet", "Function", "SubQuery", "Null", "Int", "Float", "Bool", "String", "Blob", "Date", "DateTime", "Time",
	"DateTimeRange", "List", "ParameterizedValue", "DateTimeLiteralName"}
var opNames = []string{"Noop", "Unknown", "FieldInfo", "Not", "And", "Or", "Eq", "NotEq", "Lt", "Le", "Gt", "Ge", "Like", "NotLike", "In", "NotIn", "Includes", "Excludes"}

// mangle changes a name a little.
func mangle(r *gen.Rand, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return "x"
	}
	k := r.N(len(b))
	switch r.N(9) {
	case 0:
		b[k] ^= 0x20
	case 1:
		b[k] ^= 1 << r.N(5)
		if b[k] == '"' || b[k] == '\\' || b[k] < ' ' {
			b[k] = '_'
		}
	case 2:
		b = append(b[:k], b[k+1:]...)
	case 3:
		b = append(b, b[k])
	case 4:
		return strings.ToLower(s)
	case 5:
		return s[:k]
	case 6:
		return " " + s
	case 7:
		return s + " "
	case 8:
		return gen.Pick(r, "", "Undefined", "Unknown", "Literal", "Xor", "0", "17", "None", "null")
	}
	return string(b)
}

// faults done to a record.
var damageKinds = []string{"bit flip", "lost bytes", "duplicated bytes", "spliced records", "zeroed sector", "swapped sectors", "cut", "type or operator changed",
	"value changed", "misdirected write", "subtree replaced", "member lost", "element duplicated", "nested copies"}

// damage returns a damaged copy of rec and the kind of damage.
func damage(r *gen.Rand, rec, other []byte) ([]byte, int) {
	b := append([]byte(nil), rec...)
	kind := gen.Pick(r, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 7, 7, 8, 8, 8, 8, 9, 10, 10, 11, 11, 12, 13)
	sec := func() (int, int) {
		n := gen.Pick(r, 16, 64, 64, 512)
		k := r.N(len(b)/n + 1)
		hi := (k + 1) * n
		if hi > len(b) {
			hi = len(b)
		}
		return k * n, hi
	}
	switch kind {
	case 0:
		for n := 1 + r.N(3); n > 0; n-- {
			b[r.N(len(b))] ^= 1 << r.N(8)
		}
	case 1:
		lo := r.N(len(b))
		hi := lo + 1 + r.N(gen.Pick(r, 1, 3, 20, 100))
		if hi > len(b) {
			hi = len(b)
		}
		b = replace(b, lo, hi, nil)
	case 2:
		lo := r.N(len(b))
		hi := lo + 1 + r.N(gen.Pick(r, 1, 3, 20, 100))
		if hi > len(b) {
			hi = len(b)
		}
		b = replace(b, hi, hi, append([]byte(nil), b[lo:hi]...))
	case 3:
		k := r.N(len(b))
		j := k
		if j > len(other) {
			j = len(other)
		}
		if r.P(40) {
			j = r.N(len(other))
		}
		b = append(b[:k:k], other[j:]...)
	case 4:
		lo, hi := sec()
		for i := lo; i < hi; i++ {
			b[i] = 0
		}
	case 5:
		lo, hi := sec()
		lo2 := r.N(len(b))
		n := hi - lo
		if lo2+n > len(b) {
			n = len(b) - lo2
		}
		for i := 0; i < n; i++ {
			b[lo+i], b[lo2+i] = b[lo2+i], b[lo+i]
		}
	case 6:
		b = b[:r.N(len(b)+1)]
	case 9:
		lo, hi := sec()
		if hi > len(other) {
			hi = len(other)
		}
		if lo < hi {
			copy(b[lo:hi], other[lo:hi])
		}
	default:
		ss := spans(b)
		pick := func(ok func(s span) bool) *span {
			var l []span
			for _, s := range ss {
				if ok(s) {
					l = append(l, s)
				}
			}
			if len(l) == 0 {
				return nil
			}
			return &l[r.N(len(l))]
		}
		switch kind {
		case 7:
			s := pick(func(s span) bool { return s.key == "type" || s.key == "opcode" })
			if r.P(35) {
				if o := pick(func(s span) bool { return s.key == "opcode" }); o != nil {
					s = o
				}
			}
			if s == nil {
				break
			}
			names := typeNames
			if s.key == "opcode" {
				names = opNames
			}
			old := strings.Trim(string(b[s.lo:s.hi]), `"`)
			n := mangle(r, old)
			if r.P(30) {
				n = gen.Pick(r, names...)
				if r.P(50) {
					n = mangle(r, n)
				}
			} else if r.P(10) { // the other vocabulary
				n = gen.Pick(r, append(append([]string(nil), typeNames...), opNames...)...)
			}
			b = replace(b, s.lo, s.hi, []byte(strconv.Quote(n)))
		case 8:
			s := pick(func(s span) bool { return s.key == "value" && b[s.lo] != '{' })
			if r.P(30) || s == nil {
				s = pick(func(s span) bool { return s.key != "" && b[s.lo] != '{' && b[s.lo] != '[' })
			}
			if s == nil {
				break
			}
			if r.P(45) {
				b = replace(b, s.lo, s.hi, inKind(r, b[s.lo:s.hi]))
				break
			}
			v := gen.Pick(r, "null", "true", "0", "-1", "1.5", "1e400", "99999999999999999999", `""`, `"x"`, `"2024-13-45T00:00:00Z"`, `"2024-02-29T23:59:60Z"`,
				`"0000-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.999999999+14:00"`, `"2024-01-01"`, "[]", "{}", `[1]`, `{"type":"Int"}`, `"QUJD"`, `"Q"`, `"\ud800"`, "\"\xff\"")
			b = replace(b, s.lo, s.hi, []byte(v))
		case 10:
			s := pick(func(s span) bool { return s.depth > 0 })
			if s == nil {
				break
			}
			src, os := b, ss
			if r.P(50) {
				src, os = other, spans(other)
			}
			t := os[r.N(len(os))]
			if r.P(60) { // one from a like place
				var l []span
				for _, x := range os {
					if x.key == s.key {
						l = append(l, x)
					}
				}
				if len(l) > 0 {
					t = l[r.N(len(l))]
				}
			}
			if t.hi-t.lo < 20000 {
				b = replace(b, s.lo, s.hi, append([]byte(nil), src[t.lo:t.hi]...))
			}
		case 11:
			s := pick(func(s span) bool { return s.key != "" })
			if r.P(40) {
				if o := pick(func(s span) bool { return s.key == "value" }); o != nil {
					s = o
				}
			}
			if s == nil {
				break
			}
			lo := s.lo - len(s.key) - 3
			hi := s.hi
			if hi < len(b) && b[hi] == ',' {
				hi++
			} else if lo > 0 && b[lo-1] == ',' {
				lo--
			}
			if lo >= 0 {
				b = replace(b, lo, hi, nil)
			}
		case 12:
			s := pick(func(s span) bool { return s.key == "" && s.depth > 0 })
			if s == nil {
				break
			}
			b = replace(b, s.hi, s.hi, append([]byte(","), b[s.lo:s.hi]...))
		case 13: // a call within a call within a call
			s := pick(func(s span) bool { return strings.HasPrefix(string(b[s.lo:s.hi]), `{"type":`) })
			if s == nil {
				break
			}
			n := gen.Pick(r, 2, 5, 20, 40, 60)
			w := gen.Pick(r, [2]string{`{"type":"Function","name":["f"],"parameters":[`, `]}`}, [2]string{`{"type":"Function","name":["f"],"parameters":[`, `]}`},
				[2]string{`{"type":"SubQuery","subQuery":{"fields":[`, `]}}`}, [2]string{`{"type":"List","value":[`, `]}`})
			in := append(bytes.Repeat([]byte(w[0]), n), b[s.lo:s.hi]...)
			b = replace(b, s.lo, s.hi, append(in, bytes.Repeat([]byte(w[1]), n)...))
		}
	}
	return b, kind
}

// inKind changes a JSON value and keeps its kind: a string stays a string and a
// number a number.
func inKind(r *gen.Rand, v []byte) []byte {
	v = append([]byte(nil), v...)
	switch {
	case len(v) > 1 && v[0] == '"':
		in := v[1 : len(v)-1]
		switch r.N(6) {
		case 0:
			in = nil
		case 1:
			in = in[:r.N(len(in)+1)]
		case 2:
			in = append(in, in...)
		case 3:
			in = bytes.ToLower(in)
		case 4:
			if len(in) > 0 {
				in[r.N(len(in))] = byte(gen.Pick(r, '0', '9', ' ', 'x', 'Z', '-', ':', '+', '.', '='))
			}
		default:
			for k := range in {
				if in[k] >= '0' && in[k] <= '9' && r.P(20) {
					in[k] = byte('0' + r.N(10))
				}
			}
		}
		return append(append([]byte{'"'}, in...), '"')
	case len(v) > 0 && (v[0] == '-' || v[0] >= '0' && v[0] <= '9'):
		k := 1 + r.N(len(v))
		switch r.N(6) {
		case 0:
			return append([]byte("-"), v...)
		case 1:
			return append(v[:k:k], append([]byte("."), v[k:]...)...)
		case 2:
			return append(v, gen.Pick(r, "e1", "e-1", "E2", ".0", ".5", "e30", "000")...)
		case 3:
			return append(v[:k:k], append(bytes.Repeat([]byte("9"), r.N(20)), v[k:]...)...)
		case 4:
			return v[:k]
		}
		return []byte(strconv.FormatUint(r.U64()>>uint(r.N(63)), 10))
	case len(v) > 0 && v[0] == '[':
		return []byte(gen.Pick(r, "[]", "[null]", "[[]]", "[{}]", "[1,2]", `["a"]`))
	case string(v) == "true":
		return []byte("false")
	}
	return []byte("true")
}

// node is a JSON value that keeps the order and the duplicates of members.
type node struct {
	kind byte // one of { [ " 0 t n
	str  string
	mem  []member
	el   []*node
}

type member struct {
	key string
	val *node
}

func parseNode(d *json.Decoder) (*node, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case json.Delim:
		n := &node{kind: byte(v)}
		for d.More() {
			if v == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				c, err := parseNode(d)
				if err != nil {
					return nil, err
				}
				n.mem = append(n.mem, member{k.(string), c})
			} else {
				c, err := parseNode(d)
				if err != nil {
					return nil, err
				}
				n.el = append(n.el, c)
			}
		}
		_, err := d.Token()
		return n, err
	case string:
		return &node{kind: '"', str: v}, nil
	case json.Number:
		return &node{kind: '0', str: string(v)}, nil
	case bool:
		return &node{kind: 't'}, nil
	}
	return &node{kind: 'n'}, nil
}

func known(l []string, s string) bool {
	for _, n := range l {
		if n == s {
			return true
		}
	}
	return s == "Undefined"
}

// wrong finds what makes a record meaningless although it is valid JSON: a type
// or operator that does not exist, or a literal without a value of its kind.
func wrong(n *node) string {
	if n == nil || n.kind != '{' {
		return ""
	}
	for _, m := range n.mem {
		bad := ""
		switch m.key {
		case "fields", "groupBy":
			bad = each(m.val, wrongField)
		case "where", "having", "postProcessWhere":
			bad = each(m.val, wrongCond)
		case "from":
			bad = each(m.val, func(n *node) string {
				return members(n, "perObjectQuery", wrong)
			})
		case "orderBy":
			bad = each(m.val, func(n *node) string { return members(n, "field", wrongField) })
		}
		if bad != "" {
			return bad
		}
	}
	return ""
}

func each(n *node, f func(*node) string) string {
	if n.kind == '[' {
		for _, e := range n.el {
			if s := f(e); s != "" {
				return s
			}
		}
	}
	return ""
}

func members(n *node, key string, f func(*node) string) string {
	if n.kind == '{' {
		for _, m := range n.mem {
			if m.key == key {
				if s := f(m.val); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func wrongCond(n *node) string {
	if s := members(n, "opcode", func(v *node) string {
		if v.kind == '"' && !known(opNames, v.str) {
			return fmt.Sprintf("operator %q does not exist", v.str)
		}
		return ""
	}); s != "" {
		return s
	}
	return members(n, "value", wrongField)
}

func wrongField(n *node) string { return wrongTyped(n, false) }
func wrongItem(n *node) string  { return wrongTyped(n, true) }

func wrongTyped(n *node, item bool) string {
	if n.kind != '{' {
		return ""
	}
	typ := ""
	var val *node
	for _, m := range n.mem {
		switch {
		case m.key == "type":
			if m.val.kind != '"' {
				return "" // not a name; nothing is claimed about it
			}
			if !known(typeNames, m.val.str) {
				return fmt.Sprintf("field type %q does not exist", m.val.str)
			}
			typ = m.val.str
		case m.key == "value":
			val = m.val
		case strings.EqualFold(m.key, "type"), strings.EqualFold(m.key, "value"):
			return "" // also read as type or value; leave it
		case m.key == "parameters":
			if s := each(m.val, wrongField); s != "" {
				return s
			}
		case m.key == "subQuery":
			if s := wrong(m.val); s != "" {
				return s
			}
		}
	}
	want := byte(0)
	switch typ {
	case "Null":
		if val != nil && val.kind != 'n' {
			return "a null literal has a value"
		}
	case "Int", "Float":
		want = '0'
	case "Bool":
		want = 't'
	case "String", "Blob", "Date", "DateTime", "Time":
		want = '"'
	case "List":
		want = '['
	case "DateTimeRange":
		want = '{'
	case "DateTimeLiteralName":
		want = '{'
	case "ParameterizedValue":
		if item {
			want = '"'
		}
	}
	if want == 0 {
		return ""
	}
	if val == nil {
		return "a literal of type " + typ + " has no value"
	}
	if val.kind != want {
		if typ == "Blob" && val.kind == '[' {
			return "" // an array of numbers is JSON's other form of bytes
		}
		return fmt.Sprintf("the value of a literal of type %s is not of that type", typ)
	}
	switch typ {
	case "Int":
		if !isInt64(val.str) {
			return "an Int is not an integer of 64 bits: " + val.str
		}
	case "Date", "DateTime", "Time":
		if !isTime(val.str) {
			return "a " + typ + fmt.Sprintf(" is not a date or time: %q", val.str)
		}
	case "Blob":
		if !isBase64(val.str) {
			return fmt.Sprintf("a Blob is not base64: %q", val.str)
		}
	case "DateTimeRange":
		for _, m := range val.mem {
			if (m.key == "Start" || m.key == "End") && m.val.kind != 'n' && (m.val.kind != '"' || !isTime(m.val.str)) {
				return "the " + m.key + " of a range is not a time"
			}
		}
	case "DateTimeLiteralName":
		for _, m := range val.mem {
			if m.key == "name" && m.val.kind != 'n' && m.val.kind != '"' {
				return "the name of a date literal is not a string"
			}
			if m.key == "n" && m.val.kind != 'n' && (m.val.kind != '0' || !isInt64(m.val.str)) {
				return "the number of a date literal is not a number"
			}
		}
	}
	if typ == "List" {
		return each(val, wrongItem)
	}
	return ""
}

// isInt64 accepts every way to write an integer, 1e3 and 1.0 included.
func isInt64(s string) bool {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if n, err := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+")); err != nil || n > 400 || n < -400 {
			return err == nil && strings.Trim(s[:i], "-0.") == ""
		}
	}
	v, ok := new(big.Rat).SetString(s)
	return ok && v.IsInt() && v.Num().IsInt64()
}

// isTime accepts dates and times of all forms that a lenient reader may know.
func isTime(s string) bool {
	s = strings.ToUpper(strings.ReplaceAll(strings.TrimSpace(s), ",", "."))
	s = strings.Replace(strings.Replace(s, ":60", ":59", 1), "24:00", "23:00", 1)
	for _, d := range []string{"2006-1-2T", "2006-1-2 ", ""} {
		for _, t := range []string{"15:4:5.999999999", "15:4"} {
			for _, z := range []string{"", "Z07:00", "Z0700", "Z07", "-07:00", "-07:00:00"} {
				if _, err := time.Parse(d+t+z, s); err == nil {
					return true
				}
			}
		}
	}
	_, err := time.Parse("2006-1-2", s)
	return err == nil
}

func isBase64(s string) bool {
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
		if _, err := e.DecodeString(s); err == nil {
			return true
		}
	}
	return false
}

func wrongRecord(b []byte) string {
	if !json.Valid(b) {
		return "it is not JSON"
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	n, err := parseNode(d)
	if err != nil {
		return ""
	}
	return wrong(n)
}

// judgeDamage: C10.
func judgeDamage(e *Env, h *History, o *Outs) (*Finding, error) {
	if f := died(o); f != nil {
		return f, nil
	}
	if err := overflowed(o); err != nil {
		return nil, err
	}
	for pi, out := range o.Out {
		p := &h.Procs[pi]
		for i := range out.Ops {
			op := &out.Ops[i]
			if op.Round >= len(out.Rounds) || op.K != plan.OpDecode {
				continue
			}
			spec := p.Rounds[op.Round].Tasks[op.Task].Ops[op.Op]
			where := fmt.Sprintf("process %d round %d task %d op %d: decoding record %d", pi, op.Round, op.Task, op.Op, spec.S)
			if !op.Done {
				if t := roundTrouble(out.Rounds[op.Round]); t != "" {
					return &Finding{Class: "no-return", Detail: where + " never returned: " + t}, nil
				}
				continue
			}
			if op.Panic != "" {
				return &Finding{Class: "panic", Detail: where + " panics: " + op.Panic}, nil
			}
			if spec.Arg != 1 { // an intact record among the damaged ones
				ref, err := e.RefRecord(p.Records[spec.S])
				if err != nil {
					return nil, err
				}
				if !ref.Dead && (op.Err != ref.Err || op.Digest != ref.Digest) {
					return &Finding{Class: "spread", Detail: where + ", an intact one, gives something else than alone: " + op.Err}, nil
				}
				continue
			}
			if op.Err != "" {
				continue
			}
			if op.Fix != "" {
				return &Finding{Class: "lossy", Detail: where + ": " + op.Fix}, nil
			}
			b, err := base64.StdEncoding.DecodeString(p.Records[spec.S])
			if err != nil {
				return nil, err
			}
			if w := wrongRecord(b); w != "" {
				return &Finding{Class: "accepted", Detail: where + " succeeds although " + w}, nil
			}
		}
	}
	return nil, nil
}

func init() {
	register(&Prop{
		ID: "C10", Title: "Damaged records are contained", Level: "exploration",
		Plain: true, Quick: 5000, Thorough: 40000,
		Fresh: 25, Usable: (*Src).small,
		Prepare: func(c *Campaign) (err error) {
			n, nf := 260, 4
			if c.E.Tier == "thorough" {
				n, nf = 2500, 40
			}
			c.Pool, err = c.E.MakePool(gen.Derive(c.E.Seed, 110), n, nf, gen.Large, 600_000)
			if err != nil {
				return err
			}
			var l []*Src
			for _, s := range c.Pool.Good {
				if len(s.JSON) < 60_000 {
					l = append(l, s)
				}
			}
			c.Pool.Good = l
			return nil
		},
		Judge: judgeDamage,
		One: func(c *Campaign, i int, r *gen.Rand) error {
			b := newProc()
			b.Zone = r.N(5)
			b.Sweep = i%8 == 0
			pl := c.draw(r)
			draw := func() *Src { return pl.Good[r.N(len(pl.Good))] }
			kinds := map[int]int{}
			var round plan.Round
			nt := gen.Pick(r, 1, 1, 1, 2, 4)
			total := int64(0)
			bytes := 0
			round.Tasks = make([]plan.Task, nt)
			for k := 0; k < 60 && bytes < 250_000; k++ {
				s := draw()
				rec := s.JSON
				bytes += len(rec)
				t := &round.Tasks[k%nt]
				total += 10 * (s.RRef.Steps + s.RRef.EncSteps)
				if r.P(8) {
					t.Ops = append(t.Ops, plan.Op{K: plan.OpDecode, S: b.rec(s.Rec), Drop: r.P(80)})
					continue
				}
				var n int
				for j := gen.Pick(r, 1, 1, 1, 2, 3); j > 0 && len(rec) > 0; j-- {
					rec, n = damage(r, rec, draw().JSON)
					kinds[n]++
				}
				t.Ops = append(t.Ops, plan.Op{K: plan.OpDecode, S: b.rec(base64.StdEncoding.EncodeToString(rec)), Arg: 1, Drop: true})
			}
			round.Cfg = swarm(r, total, []int{kStall, kGC, kReseed, kZone, kFreeze})
			round.Wall = wallTime(r)
			b.Rounds = append(b.Rounds, round)
			_, on, err := c.Try(i, &History{Procs: []plan.Process{b.Process}, Note: "damaged records"})
			if on {
				for k, n := range kinds {
					c.disk(damageKinds[k], n)
				}
			}
			return err
		},
		Rule:   "each run is a process in which 1-4 callers decode up to 60 records damaged by storage faults (bit flips, lost, duplicated, spliced and zeroed ranges, swapped or misdirected sectors, truncation, and structure-aware changes of names, values and subtrees), mixed with intact ones; accepted records are encoded and decoded again and walked by an independent reader of the format; non-trivial: every run with damaged records",
		Real:   realAll,
		Stubs:  append([]string{"disk: the damage a bad disk does is applied to the records before they are read"}, stubAll...),
		Assume: append([]string{"names and kinds are those of the pinned commit's format"}, assumeAll...),
	})
}
