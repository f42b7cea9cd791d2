package gen

import (
	"fmt"
	"strconv"
	"strings"
)

// Size of a generated query.
const (
	Tiny = iota
	Small
	Medium
	Large
)

type g struct {
	*Rand
	size  int
	objs  []string // names under which fields may be qualified ("" is the primary object)
	depth int      // subquery depth
	nal   int      // alias counter
	b     strings.Builder
}

var names = []string{"Id", "Name", "LastName", "CreatedDate", "Amount", "foo__c", "Is_Active__c", "$x", "_y", "z9", "Type", "Phone", "quantity__c"}
var rels = []string{"Owner", "Account", "foo__r", "bar__r", "Parent", "ns__Rel__r"}
var objects = []string{"Contact", "Account", "Lead", "ns__Obj__c", "Task", "Opportunity", "$Sys", "_t"}
var childs = []string{"Departments", "Contacts", "Items__r", "Notes"}
var funcs = []string{"TRIM", "CONCAT", "LEN", "FLAT", "upper", "FOO", "Format", "Calendar_Year"}
var aggs = []string{"MAX", "min", "SUM", "AVG", "COUNT_DISTINCT", "count"}

// kw writes a keyword in varying case.
func (g *g) kw(s string) string {
	switch g.N(6) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if g.P(40) && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

// sp is whitespace, sometimes with comments.
func (g *g) sp() string {
	switch g.N(24) {
	case 0:
		return "\n"
	case 1:
		return "\t "
	case 2:
		return " /* c" + strconv.Itoa(g.N(10)) + " */ "
	case 3:
		return " -- note, 'x'\n"
	case 4:
		return "\r\n    "
	}
	return " "
}

func (g *g) alias() string {
	g.nal++
	return Pick(g.Rand, "x", "al", "Zz", "q_", "expr", "Ix", "ID_K") + strconv.Itoa(g.nal)
}

func (g *g) field() string {
	n := Pick(g.Rand, names...)
	if g.P(6) {
		n = ident(g.Rand)
	}
	if g.P(4) {
		n = `"` + Pick(g.Rand, "od d", "q\\u0041", "caf\u00e9", "a.b") + `"`
	}
	p := ""
	if len(g.objs) > 0 && g.P(45) {
		p = Pick(g.Rand, g.objs...)
		if p != "" {
			p += "."
		}
	}
	if g.P(25) {
		p += Pick(g.Rand, rels...) + "."
		if g.P(30) {
			p += Pick(g.Rand, rels...) + "."
		}
	}
	if g.P(5) && p != "" {
		return strings.Replace(p+n, ".", " . ", 1)
	}
	return p + n
}

var dtNames = []string{"TODAY", "YESTERDAY", "TOMORROW", "LAST_WEEK", "THIS_MONTH", "NEXT_90_DAYS", "LAST_90_DAYS", "THIS_FISCAL_QUARTER", "NEXT_YEAR", "last_quarter"}
var dtN = []string{"LAST_N_DAYS", "NEXT_N_WEEKS", "LAST_N_FISCAL_QUARTERS", "next_n_years", "NEXT_N_FISCAL_YEARS", "LAST_N_MONTHS"}

func (g *g) str() string {
	n := g.N(8)
	if g.size >= Large && g.P(5) {
		n = 60 + g.N(200)
	}
	var b strings.Builder
	b.WriteByte('\'')
	for i := 0; i < n; i++ {
		switch g.N(30) {
		case 0:
			b.WriteString(Pick(g.Rand, `\'`, `\\`, `\"`, "\\`"))
		case 1:
			b.WriteString(Pick(g.Rand, `\n`, `\R`, `\t`, `\b`, `\f`, `\v`))
		case 2:
			b.WriteString(Pick(g.Rand, `\_`, `\%`))
		case 3:
			b.WriteString(Pick(g.Rand, `\u00e9`, `\u3042`, `\x41`, `\101`, `\u0000`, `\u2028`))
		case 4:
			b.WriteString(Pick(g.Rand, "é", "日本", "\U0001F600", "<", ">", "&", "\u2028"))
		case 5:
			b.WriteString(Pick(g.Rand, "\n", "\t", "--", "/*", "%", "_"))
		default:
			b.WriteByte(byte('a' + g.N(26)))
		}
	}
	b.WriteByte('\'')
	return b.String()
}

func (g *g) date() string {
	return fmt.Sprintf("%04d-%02d-%02d", Pick(g.Rand, 1, 1970, 1999, 2000, 2024, 9999, 1582), 1+g.N(12), 1+g.N(28))
}

func (g *g) literal(list bool) string {
	if g.P(20) {
		return scalar(g.Rand)
	}
	switch g.N(15) {
	case 0:
		return strconv.Itoa(g.N(1000))
	case 1:
		return Pick(g.Rand, "-", "+", "") + strconv.FormatUint(g.U64()>>uint(1+g.N(62)), 10)
	case 2:
		return Pick(g.Rand, "0xacc0", "0b1011", "0o17", "0xFFFFFFFF", "-7", "0")
	case 3:
		return Pick(g.Rand, "123.45", "-0.5", "1e10", "1.5e-7", "3.0", "0.1", "1e300")
	case 4:
		return g.date()
	case 5:
		return g.date() + Pick(g.Rand, "T01:01:01.123456789Z", "T23:59:59Z", "T00:00:00+09:00", "T12:34:56.7-05:30", "T10:20Z")
	case 6:
		return Pick(g.Rand, "12:34:56", "23:59:59.999", "00:00")
	case 7:
		return g.kw("NULL")
	case 8:
		return g.kw(Pick(g.Rand, "TRUE", "FALSE"))
	case 9, 10:
		return ":" + Pick(g.Rand, "p", "param", "Limit_", "x", "ID") + strconv.Itoa(g.N(6))
	case 11:
		return Pick(g.Rand, dtNames...)
	case 12:
		return Pick(g.Rand, dtN...) + ":" + strconv.Itoa(1+g.N(400))
	default:
		return g.str()
	}
}

func (g *g) function(nest int, agg bool) string {
	name := Pick(g.Rand, funcs...)
	n := 1 + g.N(3)
	if g.P(5) {
		n = 0
	}
	var args []string
	for i := 0; i < n; i++ {
		switch {
		case nest > 0 && g.P(35):
			args = append(args, g.function(nest-1, agg))
		case g.P(60):
			args = append(args, g.field())
		default:
			// A datetime literal as a function argument is not supported.
			for {
				l := g.literal(false)
				if isDT(l) {
					continue
				}
				args = append(args, l)
				break
			}
		}
	}
	return name + Pick(g.Rand, "", "", "", " ") + "(" + strings.Join(args, Pick(g.Rand, ",", ", ")) + ")"
}

func isDT(l string) bool {
	l = strings.ToUpper(l)
	for _, d := range dtAll {
		if l == d {
			return true
		}
	}
	for _, d := range dtAllN {
		if strings.HasPrefix(l, d) {
			return true
		}
	}
	return false
}

func (g *g) nest() int {
	switch {
	case g.size <= Tiny:
		return 0
	case g.size == Small:
		return g.N(2)
	}
	if g.P(3) {
		return 3 + g.N(4)
	}
	return g.N(3)
}

func (g *g) operand1() string {
	if g.P(18) && g.size > Tiny {
		return g.function(g.nest(), false)
	}
	return g.field()
}

func (g *g) cmp() string {
	switch g.N(10) {
	case 0, 1:
		not := ""
		if g.P(40) {
			not = g.kw("NOT") + " "
		}
		op := not + g.kw("IN")
		if g.P(30) && g.depth < 3 && g.size > Small {
			return g.operand1() + " " + op + " (" + g.sub("cond") + ")"
		}
		n := 1 + g.N(5)
		if g.P(6) {
			return g.operand1() + " " + op + " " + list(g.Rand, 6+g.N(30), integer)
		}
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, g.literal(true))
		}
		return g.operand1() + " " + op + " (" + strings.Join(l, ", ") + ")"
	case 2:
		return g.operand1() + " " + Pick(g.Rand, g.kw("LIKE"), g.kw("NOT LIKE")) + " " + g.str()
	case 3:
		return g.operand1() + " " + g.kw(Pick(g.Rand, "INCLUDES", "EXCLUDES")) + " (" + g.str() + ", " + g.str() + ")"
	case 4:
		return g.operand1() + " " + Pick(g.Rand, "=", "!=", "<", ">=") + " " + g.field()
	default:
		return g.operand1() + Pick(g.Rand, " ", "") + Pick(g.Rand, "=", "!=", "<", "<=", ">", ">=", "=") + Pick(g.Rand, " ", "") + g.literal(false)
	}
}

func (g *g) conds(n, nest int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(" " + g.kw(Pick(g.Rand, "AND", "OR", "AND")) + g.sp())
		}
		if g.P(12) {
			b.WriteString(g.kw("NOT") + " ")
		}
		if nest > 0 && g.P(30) {
			b.WriteString("(" + g.conds(1+g.N(3), nest-1) + ")")
		} else {
			b.WriteString(g.cmp())
		}
	}
	return b.String()
}

// sub writes a subquery of the given place: select or cond.
func (g *g) sub(place string) string {
	s := &struct {
		objs       []string
		size, dept int
	}{g.objs, g.size, g.depth}
	g.depth++
	if g.size > Small {
		g.size--
	}
	out := g.query(place)
	g.objs, g.size, g.depth = s.objs, s.size, s.dept
	return out
}

func (g *g) query(place string) string {
	var from []string
	objs := []string{""}
	al := ""
	switch place {
	case "select":
		n := Pick(g.Rand, childs...)
		if g.P(20) {
			al = g.alias()
		}
		from = append(from, strings.TrimSpace(n+" "+al))
	default:
		n := Pick(g.Rand, objects...)
		if g.P(55) {
			al = g.alias()
		}
		from = append(from, strings.TrimSpace(n+" "+al))
		if al != "" {
			objs = append(objs, al)
		} else {
			objs = append(objs, n)
		}
		if g.size >= Medium {
			for k := g.N(3); k > 0; k-- {
				a := g.alias()
				base := ""
				if al != "" && g.P(60) {
					base = al + "."
				}
				path := Pick(g.Rand, rels...)
				if g.P(25) {
					path += "." + Pick(g.Rand, rels...)
				}
				from = append(from, base+path+" "+a)
				objs = append(objs, a)
			}
		}
	}
	g.objs = objs
	agg := place == "" && g.size >= Small && g.P(18)
	var sel, group []string
	nf := 1
	switch g.size {
	case Small:
		nf = 1 + g.N(4)
	case Medium:
		nf = 2 + g.N(6)
	case Large:
		nf = 4 + g.N(16)
	}
	if agg {
		for i := 0; i < 1+g.N(3); i++ {
			f := g.field()
			dup := false
			for _, o := range group {
				dup = dup || strings.EqualFold(o, f)
			}
			if dup {
				continue
			}
			group = append(group, f)
			if g.P(80) {
				sel = append(sel, f)
			}
		}
		for i := 0; i < 1+g.N(3); i++ {
			sel = append(sel, Pick(g.Rand, aggs...)+"("+g.field()+") "+g.alias())
		}
	} else {
		for i := 0; i < nf; i++ {
			switch {
			case place == "" && g.size >= Small && g.P(4):
				sel = append(sel, g.kw("FIELDS")+"("+Pick(g.Rand, "ALL", "standard", "custom")+")")
			case g.P(14) && g.size > Tiny:
				f := g.function(g.nest(), false)
				if g.P(60) {
					f += " " + g.alias()
				}
				sel = append(sel, f)
			case g.P(10) && g.depth < 3 && g.size >= Medium && place != "cond":
				o := g.objs
				f := "(" + Pick(g.Rand, "", " ") + g.sub("select") + ")"
				g.objs = o
				if g.P(60) {
					f += " " + g.alias()
				}
				sel = append(sel, f)
			default:
				f := g.field()
				if g.P(20) {
					f += " " + g.alias()
				}
				sel = append(sel, f)
			}
		}
	}
	var b strings.Builder
	b.WriteString(g.kw("SELECT") + g.sp())
	for i, s := range sel {
		if i > 0 {
			b.WriteString(Pick(g.Rand, ",", ", ", " ,", ","+g.sp()))
		}
		b.WriteString(s)
	}
	b.WriteString(g.sp() + g.kw("FROM") + " " + strings.Join(from, ", "))
	wp := 55
	if g.size == Tiny {
		wp = 15
	}
	if g.P(wp) {
		n, nest := 1, 0
		switch g.size {
		case Small:
			n, nest = 1+g.N(2), g.N(2)
		case Medium:
			n, nest = 1+g.N(4), g.N(3)
		case Large:
			n, nest = 2+g.N(8), g.N(4)
			if g.P(5) {
				nest = 8
			}
		}
		b.WriteString(g.sp() + g.kw("WHERE") + g.sp() + g.conds(n, nest))
	}
	if agg && len(group) > 0 {
		b.WriteString(g.sp() + g.kw("GROUP") + " " + g.kw("BY") + " " + strings.Join(group, ", "))
		if g.P(50) {
			b.WriteString(g.sp() + g.kw("HAVING") + " " + Pick(g.Rand, aggs...) + "(" + g.field() + ") " + Pick(g.Rand, ">", "<=", "=") + " " + strconv.Itoa(g.N(100)))
			if g.P(30) {
				b.WriteString(" " + g.kw("AND") + " " + "LEN(MAX(" + g.field() + ")) > FOO(" + strconv.Itoa(g.N(9)) + ")")
			}
		}
	}
	if g.P(25) && place != "cond" {
		var l []string
		used := map[string]bool{}
		for i := 0; i < 1+g.N(3); i++ {
			f := Pick(g.Rand, names...)
			if used[f] {
				continue
			}
			used[f] = true
			if agg && len(group) > 0 {
				f = group[0]
				if len(l) > 0 {
					break
				}
			}
			f += Pick(g.Rand, "", " "+g.kw("ASC"), " "+g.kw("DESC"))
			if g.P(30) {
				f += " " + g.kw("NULLS") + " " + g.kw(Pick(g.Rand, "FIRST", "LAST"))
			}
			l = append(l, f)
		}
		b.WriteString(g.sp() + g.kw("ORDER") + " " + g.kw("BY") + " " + strings.Join(l, ","))
	}
	lim := func() string {
		if g.P(30) {
			return g.kw("LIMIT") + " :lim" + strconv.Itoa(g.N(3))
		}
		return g.kw("LIMIT") + " " + strconv.Itoa(g.N(2000))
	}
	off := func() string {
		if g.P(30) {
			return g.kw("OFFSET") + " :off" + strconv.Itoa(g.N(3))
		}
		return g.kw("OFFSET") + " " + strconv.Itoa(g.N(2000))
	}
	switch g.N(10) {
	case 0:
		b.WriteString(g.sp() + lim())
	case 1:
		b.WriteString(g.sp() + off() + " " + lim())
	case 2:
		b.WriteString(g.sp() + lim() + " " + off())
	case 3:
		b.WriteString(g.sp() + off())
	}
	if place == "" && g.P(12) {
		b.WriteString(g.sp() + g.kw("FOR") + " " + Pick(g.Rand, "VIEW", "REFERENCE", "VIEW, REFERENCE", "REFERENCE, view", "UPDATE", "update TRACKING", "UPDATE VIEWSTAT", "UPDATE VIEWSTAT, TRACKING"))
	}
	return b.String()
}

// Query is a query that is usually valid.
func Query(r *Rand, size int) string {
	x := &g{Rand: r, size: size}
	s := x.query("")
	if r.P(15) {
		s = Pick(r, " ", "\n", "/* head */ ", "-- head\n") + s
	}
	if r.P(15) {
		s += Pick(r, " ", "\n", " /* tail */", " -- tail")
	}
	return s
}

// Deep is a query with nesting of the given depth, by kind: 0 parentheses, 1
// functions, 2 conditional subqueries, 3 select subqueries, 4 and-chains, 5
// having parentheses, 6 functions in where, 7 functions in having.
func Deep(r *Rand, kind, depth int) string {
	f := Pick(r, names...)
	switch kind % 8 {
	case 0:
		return "SELECT Id FROM Contact WHERE " + strings.Repeat("(", depth) + f + " = " + strconv.Itoa(r.N(99)) + strings.Repeat(")", depth)
	case 1:
		return "SELECT " + strings.Repeat("TRIM(", depth) + f + strings.Repeat(")", depth) + " x FROM Contact"
	case 2:
		if depth > 6 {
			depth = 6 // the JSON form doubles with every level
		}
		s := "SELECT Id FROM Task"
		for i := 0; i < depth; i++ {
			s = "SELECT Id FROM Contact WHERE " + f + " IN (" + s + ")"
		}
		return s
	case 3:
		s := "SELECT Id FROM Notes"
		for i := 0; i < depth; i++ {
			o := "Departments"
			if i == depth-1 {
				o = "Contact"
			}
			s = "SELECT " + f + ", (" + s + ") FROM " + o
		}
		return s
	case 4:
		s := "SELECT Id FROM Contact WHERE " + f + " = 0"
		for i := 0; i < depth; i++ {
			s += Pick(r, " AND ", " OR ") + f + " != " + strconv.Itoa(i)
		}
		return s
	case 5:
		return "SELECT Name, MAX(" + f + ") m FROM Contact GROUP BY Name HAVING " + strings.Repeat("(", depth) + "MAX(" + f + ") > 1" + strings.Repeat(")", depth)
	case 6:
		return "SELECT Id FROM Contact WHERE " + strings.Repeat("LEN(", depth) + f + strings.Repeat(")", depth) + " > 1"
	default:
		return "SELECT Name, MAX(" + f + ") m FROM Contact GROUP BY Name HAVING " + strings.Repeat("LEN(", depth) + "MAX(" + f + ")" + strings.Repeat(")", depth) + " > " + strings.Repeat("ABS(", depth/2+1) + "1" + strings.Repeat(")", depth/2+1)
	}
}

// Broken are texts whose compilation fails, at every stage.
var Broken = []string{
	"", " ", "x", "SELECT", "SELECT Id", "SELECT Id FROM", "SELECT FROM Contact", "SELECT Id, FROM Contact",
	"SELECT Id FROM Contact WHERE", "SELECT Id FROM Contact WHERE Id", "SELECT Id FROM Contact WHERE Id =",
	"SELECT Id FROM Contact WHERE Id = 'abc", "SELECT Id FROM Contact WHERE (Id = 1", "SELECT Id FROM Contact WHERE Id ~ 1",
	"SELECT TRIM(Id FROM Contact", "SELECT Id FROM Contact LIMIT x", "SELECT Id FROM Contact OFFSET", "SELECT Id FROM Contact FOR nothing",
	"SELECT Id FROM Contact ORDER BY", "SELECT Id FROM Contact ORDER Id", "SELECT Id FROM Contact GROUP Id", "SELECT Id FROM Contact extra words here",
	"SELECT \"Id\nx\" FROM Contact", "SELECT Id FROM Contact WHERE d = 2024-13-45", "SELECT Id FROM Contact WHERE d = 2024-02-30T25:00:00Z",
	"SELECT Id FROM Contact WHERE n = 99999999999999999999", "SELECT Id FROM Contact WHERE n = 0xFFFFFFFFFFFFFFFFF",
	"SELECT Id FROM Contact WHERE d = LAST_N_DAYS:", "SELECT Id FROM Contact WHERE a IN ()", "SELECT Id FROM Contact WHERE a IN (1,",
	// These fail after parsing.
	"SELECT Id FROM a.b", "SELECT Id x, Name x FROM Contact", "SELECT Id FROM Contact c, c.Account c", "SELECT Id, Name FROM Contact GROUP BY Id",
	"SELECT Id FROM Contact GROUP BY Id, Id", "SELECT Id FROM Contact ORDER BY Id, Id", "SELECT (SELECT Id, con.Id FROM con.Departments) q FROM Contact con",
	"SELECT fields(con.acc.all) FROM Contact con, con.Account acc", "SELECT FIELDS(a, b) FROM Contact", "SELECT FIELDS('x') FROM Contact",
	"SELECT COUNT(a, b) FROM Contact", "SELECT COUNT('a') FROM Contact", "SELECT COUNT_DISTINCT() FROM Contact", "SELECT LEN(FIELDS(all)) FROM Contact",
	"SELECT Id FROM Contact WHERE COUNT(Id) > 1", "SELECT Id FROM Contact ORDER BY foo__r.bar__r.baz", "SELECT COUNT(Id), FIELDS(all) FROM Contact",
	"SELECT Name, (SELECT Id FROM Notes) FROM Contact GROUP BY Name", "SELECT Name FROM Contact GROUP BY Name HAVING MAX(Id) > LEN(TRIM(x, MAX(y)), z) AND Id = 1",
	"SELECT acc.Id, (SELECT Id, acc.Id FROM con.Departments) q FROM Contact con, Account acc",
	"SELECT Id FROM Contact WHERE Id IN (SELECT Id FROM a.b)", "SELECT Id FROM Contact WHERE x IN (SELECT Id, Name FROM Task GROUP BY Name)",
}

// Invalid is a source whose compilation usually fails.
func Invalid(r *Rand) string {
	if r.P(50) {
		return Pick(r, Broken...)
	}
	s := Query(r, r.N(3))
	toks := strings.Fields(s)
	if len(toks) < 2 {
		return s
	}
	i := r.N(len(toks))
	switch r.N(5) {
	case 0: // drop a token
		toks = append(toks[:i], toks[i+1:]...)
	case 1: // cut
		toks = toks[:i+1]
	case 2: // insert
		t := append([]string(nil), toks[i:]...)
		toks = append(append(toks[:i], Pick(r, ")", "(", ",", "'", "=", "WHERE", ".", "\n\n", "~", ":")), t...)
	case 3: // replace
		toks[i] = Pick(r, "(", ")", "''", "'", "FROM", "LIMIT", "?", "\"")
	default: // cut inside a token
		s := strings.Join(toks, " ")
		return cutUTF8(s, r.N(len(s)))
	}
	return strings.Join(toks, Pick(r, " ", " ", "\n"))
}

func cutUTF8(s string, n int) string {
	for n > 0 && n < len(s) && s[n]&0xc0 == 0x80 {
		n--
	}
	return s[:n]
}

// Near returns texts that differ little from s, so that anything that
// identifies sources by less than their whole text mixes them up.
func Near(r *Rand, s string, n int) []string {
	var out []string
	for len(out) < n {
		b := []byte(s)
		var pos []int // letters and digits outside multi-byte characters
		for i := range b {
			if b[i] >= '0' && b[i] <= '9' || b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
				pos = append(pos, i)
			}
		}
		if len(pos) < 4 {
			return append(out, s+" ")
		}
		i := pos[r.N(len(pos))]
		v := ""
		switch r.N(9) {
		case 0, 1: // same length, one character differs
			b[i] = b[i]&^7 | byte(r.N(8))
			v = string(b)
		case 2: // same characters in another order
			j := pos[r.N(len(pos))]
			b[i], b[j] = b[j], b[i]
			v = string(b)
		case 3: // letter case
			if b[i] >= 'A' {
				b[i] ^= 32
			}
			v = string(b)
		case 4:
			v = s + Pick(r, " ", "\n", "  ")
		case 5:
			v = Pick(r, " ", "\n", "\t") + s
		case 6: // whitespace inside (it matters in strings and in error positions)
			k := strings.IndexByte(s[i:], ' ')
			if k < 0 {
				continue
			}
			v = s[:i+k] + " " + s[i+k:]
		case 7: // a digit or letter more
			v = s[:i] + string(b[i]) + s[i:]
		case 8:
			v = s[:i] + s[i+1:]
		}
		out = append(out, v)
	}
	return out
}

// flipCase changes the case of about p percent of the letters.
func flipCase(r *Rand, s string, p int) string {
	b := []byte(s)
	for j := range b {
		if (b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z') && r.P(p) {
			b[j] ^= 32
		}
	}
	return string(b)
}

// literalFamily is a set of sources that differ in one literal only, and there in
// a character or two.
func literalFamily(r *Rand, n int) []string {
	kind := Pick(r, moment, moment, moment, moment, clock, clock, day, float, float, integer, text, dateLiteral, scalar)
	lit := kind(r)
	head := "SELECT Id FROM Contact WHERE " + Pick(r, "d", "Name", "Id", ident(r)) + " "
	tail := ""
	switch r.N(6) {
	case 0:
		head += "IN ("
		tail = Pick(r, ")", ", 1)")
	case 1:
		head += "= 1 AND b > "
	case 2:
		head, tail = "SELECT FOO("+ident(r)+", ", ") FROM Contact"
		if isDT(lit) {
			head, tail = "SELECT Id FROM Contact WHERE a != ", " LIMIT 1"
		}
	default:
		head += Pick(r, "=", "!=", "<", ">=") + " "
		tail = Pick(r, "", "", " LIMIT 1", " AND Id = 1")
	}
	out := []string{head + lit + tail}
	for len(out) < n {
		b := []byte(lit)
		for k := 1 + r.N(2); k > 0; k-- {
			i := r.N(len(b))
			if r.P(35) {
				i = len(b) - 1 - r.N((len(b)+2)/3) // near the end: fractions, offsets, exponents
			}
			switch c := b[i]; {
			case c >= '0' && c <= '9':
				b[i] = byte('0' + r.N(10))
				if i > 0 && b[i-1] == ':' || i < len(b)-1 && b[i+1] == ':' && r.P(50) {
					b[i] = byte('0' + r.N(6))
				}
			case c == '-' || c == '+':
				b[i] = "+-"[r.N(2)]
			case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
				b[i] ^= 32
				if lit[0] == '\'' && r.P(60) {
					b[i] = byte('a' + r.N(26))
				}
			}
		}
		l := string(b)
		if r.P(35) && len(lit) > 11 && lit[0] >= '0' && lit[0] <= '9' && lit[10] == 'T' { // another offset
			if k := strings.LastIndexAny(l, "Z+-"); k > 10 {
				l = l[:k] + Pick(r, "Z", "+00:00", "+09:00", "-05:30", "+01:00", "-01:00")
			}
		}
		out = append(out, head+l+tail)
	}
	return out
}

// Family is a set of sources that resemble each other in ways a cache key, a
// hash or a shared buffer may confuse.
func Family(r *Rand, n int) []string {
	var out []string
	switch r.N(12) {
	case 10, 11: // one literal, in which one character differs
		return literalFamily(r, n)
	case 9: // long, with the same beginning and end
		return LongFamily(r, n)
	case 6: // failing sources that differ by letter case, spaces or one letter
		s := Invalid(r)
		if r.P(60) {
			s = Pick(r, Broken[8:]...)
		}
		out = append(out, s)
		for len(out) < n {
			if r.P(65) {
				out = append(out, flipCase(r, s, Pick(r, 5, 20, 60)))
			} else {
				out = append(out, Near(r, s, 1)...)
			}
		}
	case 7: // strings that differ by letter case or by spaces only
		w := Pick(r, "a b", "Acme Corp", "x/*y*/ z", "one  two", "Select Id", "tab\tend")
		tail := Pick(r, "", " LIMIT 3", " ORDER BY Name", " AND b = 2")
		for i := 0; i < n; i++ {
			v := flipCase(r, w, 30)
			for r.P(40) {
				v = strings.Replace(v, " ", "  ", 1)
			}
			out = append(out, "SELECT Id FROM Contact WHERE Name = '"+v+"'"+tail)
		}
	case 8: // the same query with other spacing, comments and line breaks
		toks := strings.Fields(Query(r, Small))
		for i := 0; i < n; i++ {
			v := ""
			for _, t := range toks {
				v += t + Pick(r, " ", " ", " ", " ", "  ", "\n", "\t", " /* c */ ")
			}
			out = append(out, v)
		}
	case 0: // long common prefix
		p := Query(r, Medium)
		if i := strings.Index(strings.ToUpper(p), "FROM"); i > 0 {
			p = p[:i]
		}
		p = strings.Replace("SELECT Id, Name, "+strings.Repeat("LongFieldName__c, ", 4+r.N(20))+"Last FROM Contact WHERE Name = 'k", "Last", Pick(r, names...), 1)
		for i := 0; i < n; i++ {
			out = append(out, p+strconv.Itoa(i)+"' LIMIT "+strconv.Itoa(1+i%9))
		}
	case 1: // long common suffix
		t := " FROM Contact WHERE Name IN ('" + strings.Repeat("v", 40+r.N(300)) + "') ORDER BY Name DESC LIMIT 10"
		for i := 0; i < n; i++ {
			out = append(out, "SELECT F"+strconv.Itoa(i)+", Id"+t)
		}
	case 2: // same shape, same length, different literals
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("SELECT Id FROM Contact WHERE a = %d%d AND b = '%c%c' LIMIT %d", 1+i%9, r.N(10), 'a'+rune(r.N(26)), 'a'+rune(r.N(26)), 1+r.N(9)))
		}
	case 3: // differ by letter case only
		s := Query(r, Small)
		for i := 0; i < n; i++ {
			out = append(out, flipCase(r, s, 20))
		}
	case 4: // a query and ways it fails
		s := Query(r, Small)
		out = append(out, s)
		for len(out) < n {
			out = append(out, cutUTF8(s, len(s)*len(out)/n))
		}
	default:
		s := Query(r, Pick(r, Tiny, Small, Small, Medium))
		out = append(out, s)
		out = append(out, Near(r, s, n-1)...)
	}
	return out
}

// Source is a source for general use.
func Source(r *Rand, maxSize int) string {
	switch {
	case r.P(14):
		return Invalid(r)
	case r.P(8) && maxSize >= Medium:
		return Deep(r, r.N(8), 1+r.N(7))
	case r.P(3) && maxSize >= Large:
		return Deep(r, r.N(8), 8+r.N(24))
	}
	size := r.N(maxSize + 1)
	if size == Large && !r.P(40) {
		size = Medium
	}
	return Query(r, size)
}

// Long is a source of at least min bytes.
func Long(r *Rand, min int) string {
	s := Query(r, Pick(r, Tiny, Tiny, Small))
	if r.P(25) {
		s = Invalid(r)
	}
	n := min - len(s)
	if n <= 0 {
		return s
	}
	word := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.N(26))
		}
		return string(b)
	}
	before := func(kw, text string) string {
		if i := strings.Index(strings.ToUpper(s), kw); i >= 0 {
			return s[:i] + text + s[i:]
		}
		return text + s
	}
	switch r.N(8) {
	case 0:
		return s + strings.Repeat(Pick(r, " ", "\n", "\t ", "\r\n"), n)
	case 1:
		return "/* " + word(n) + " */ " + s
	case 2:
		return before(" FROM ", "/*"+word(n/2)+"*/"+strings.Repeat(" ", n/2))
	case 3:
		return "SELECT Id FROM Contact WHERE Name = '" + word(n) + "'" + Pick(r, "", " LIMIT 2", " LIMIT x", " AND", " ORDER BY Id")
	case 4:
		l := []string{}
		for k := 0; k < n; k += 9 {
			l = append(l, Pick(r, strconv.Itoa(1000000+r.N(999999)), "'"+word(5)+"'"))
		}
		return "SELECT Id FROM Contact WHERE Name " + Pick(r, "IN", "NOT IN", "INCLUDES") + " (" + strings.Join(l, ", ") + Pick(r, ")", ")", ")", "", ",)")
	case 5:
		l := []string{}
		for k := 0; k < n; k += 24 {
			l = append(l, word(14)+strconv.Itoa(k)+"__c")
		}
		return "SELECT " + strings.Join(l, ", ") + Pick(r, " FROM ", " FROM ", " FORM ") + Pick(r, objects...)
	case 6:
		return "SELECT " + word(n/2) + ".x" + word(n/2) + " FROM Contact, Contact." + word(9) + " b"
	default:
		v := ""
		for k := 0; k < n; k += 40 {
			v += "\n-- " + word(36)
		}
		return before(" FROM ", v+"\n")
	}
}

// Longer is a source of at least min bytes, most of them letters of many scripts
// in strings, names or comments.
func Longer(r *Rand, min int) string {
	letters := Pick(r, []string{"a"}, []string{"é", "ß"}, []string{"a", "日", "本"}, []string{"x", "é", "語", "😀", "<", "&", "\u2028", "\\n", "\\'"})
	text := func(n int) string {
		b := strings.Builder{}
		for b.Len() < n {
			b.WriteString(letters[r.N(len(letters))])
		}
		return b.String()
	}
	switch r.N(5) {
	case 0:
		return "SELECT Id FROM Contact WHERE Name = '" + text(min) + "'" + Pick(r, "", " LIMIT 2", " LIMIT x")
	case 1:
		l := []string{}
		for k := 0; k < min; k += 60 {
			l = append(l, "'"+text(50)+"'")
		}
		return "SELECT Id FROM Contact WHERE Name " + Pick(r, "IN", "NOT IN", "INCLUDES") + " (" + strings.Join(l, ", ") + Pick(r, ")", ")", ")", "")
	case 2:
		l := []string{}
		for k := 0; k < min; k += 24 {
			l = append(l, "Field"+strconv.Itoa(1000000000+k)+"__c")
		}
		return "SELECT " + strings.Join(l, ", ") + Pick(r, " FROM ", " FROM ", " FORM ") + Pick(r, objects...)
	case 3:
		return "SELECT Id /*" + text(min) + "*/ FROM Contact"
	default:
		return "SELECT Id FROM Contact WHERE Name = 'x" + strings.Repeat(" ", min) + text(9) + "'"
	}
}
