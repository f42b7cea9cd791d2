package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ident is a name nobody else uses, or a usual one.
func ident(r *Rand) string {
	if r.P(8) { // letters that some languages fold otherwise
		return Pick(r, "ID", "IK", "Is", "KIS", "iI") + strconv.Itoa(r.N(90))
	}
	if r.P(35) {
		return Pick(r, names...)
	}
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz$_0123456789"
	n := 1 + r.N(9)
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = a[r.N(54)]
		} else {
			b[i] = a[r.N(len(a))]
		}
	}
	switch strings.ToLower(string(b)) {
	case "select", "from", "where", "having", "offset", "limit", "order", "group", "by", "not", "and", "or", "in", "like",
		"true", "false", "null", "nan", "infinity", "for", "asc", "desc", "nulls", "today", "includes", "excludes":
		return "x" + string(b)
	}
	return string(b)
}

func digits(r *Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.N(10))
	}
	return string(b)
}

// integer is an integer literal, extreme ones included.
func integer(r *Rand) string {
	switch r.N(7) {
	case 0:
		return Pick(r, "9223372036854775807", "-9223372036854775808", "9007199254740993", "-9007199254740993", "4294967296", "2147483648", "-2147483649", "0", "-1", "00", "007", "65536")
	case 1:
		return "0x" + Pick(r, "0", "ff", "7FFFFFFFFFFFFFFF", "DEADbeef", "80")
	case 2:
		return "0b" + Pick(r, "0", "1", "101010", "11111111")
	case 3:
		return "0o" + Pick(r, "0", "7", "755", "17")
	case 4:
		return strconv.FormatInt(int64(r.U64()), 10)
	}
	if r.P(45) {
		return strconv.Itoa(r.N(13)) // the numbers a cache would be made for
	}
	return Pick(r, "", "", "-", "+") + digits(r, 1+r.N(12))
}

// float is a float literal, with up to 17 significant digits.
func float(r *Rand) string {
	switch r.N(6) {
	case 0:
		return Pick(r, "0.30000000000000004", "5e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "-0.0", "1e21", "1e20", "123456789012345680000.0", "1e-7", "0.000001", "9007199254740993.0", "1.0", "100.0", "-1e-6")
	case 1:
		for {
			f := math.Float64frombits(r.U64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return strconv.FormatFloat(f, 'e', -1, 64)
			}
		}
	case 2:
		return strconv.FormatFloat(float64(r.U64()>>11)/(1<<53), 'f', -1, 64)
	case 3:
		return digits(r, 1+r.N(4)) + "." + digits(r, 1+r.N(17))
	case 4:
		return Pick(r, "-", "+", "") + digits(r, 1) + "." + digits(r, 1+r.N(8)) + Pick(r, "e", "E") + Pick(r, "", "+", "-") + strconv.Itoa(r.N(40))
	}
	return Pick(r, "-", "") + strconv.Itoa(r.N(100000)) + "." + digits(r, 2)
}

var dtAll = []string{"TODAY", "YESTERDAY", "TOMORROW",
	"LAST_WEEK", "THIS_WEEK", "NEXT_WEEK", "LAST_MONTH", "THIS_MONTH", "NEXT_MONTH", "LAST_90_DAYS", "NEXT_90_DAYS",
	"THIS_QUARTER", "LAST_QUARTER", "NEXT_QUARTER", "THIS_YEAR", "LAST_YEAR", "NEXT_YEAR",
	"THIS_FISCAL_QUARTER", "LAST_FISCAL_QUARTER", "NEXT_FISCAL_QUARTER", "THIS_FISCAL_YEAR", "LAST_FISCAL_YEAR", "NEXT_FISCAL_YEAR"}
var dtAllN = []string{"NEXT_N_FISCAL_QUARTERS", "LAST_N_FISCAL_QUARTERS", "NEXT_N_FISCAL_YEARS", "LAST_N_FISCAL_YEARS",
	"NEXT_N_QUARTERS", "LAST_N_QUARTERS", "NEXT_N_MONTHS", "LAST_N_MONTHS", "NEXT_N_YEARS", "LAST_N_YEARS",
	"NEXT_N_WEEKS", "LAST_N_WEEKS", "LAST_N_DAYS", "NEXT_N_DAYS"}

func dateLiteral(r *Rand) string {
	s := Pick(r, dtAll...)
	if r.P(45) {
		s = Pick(r, dtAllN...) + ":" + Pick(r, strconv.Itoa(1+r.N(500)), strconv.Itoa(1+r.N(500)), "0", "2147483648", "9007199254740993")
	}
	if r.P(30) {
		s = flipCase(r, s, Pick(r, 10, 50, 100))
	}
	return s
}

func day(r *Rand) string {
	return Pick(r, "0001-01-01", "1582-10-10", "1900-02-28", "1969-12-31", "1970-01-01", "2000-02-29", "2024-02-29", "2024-12-31", "2038-01-19", "9999-12-31",
		fmt.Sprintf("%04d-%02d-%02d", 1+r.N(9999), 1+r.N(12), 1+r.N(28)),
		fmt.Sprintf("%04d-%02d-%02d", 1+r.N(9999), 1+r.N(12), 1+r.N(28)))
}

func clock(r *Rand) string {
	s := fmt.Sprintf("%02d:%02d", r.N(24), r.N(60))
	if r.P(80) {
		s += fmt.Sprintf(":%02d", r.N(60))
		if r.P(60) {
			s += "." + digits(r, 1+r.N(9))
		}
	}
	return s
}

func moment(r *Rand) string {
	return day(r) + "T" + clock(r) + Pick(r, "Z", "Z", "+00:00", "+09:00", "-05:30", "+14:00", "-12:00", "+05:45")
}

var escapes = []string{`\'`, `\\`, `\"`, "\\`", `\n`, `\N`, `\r`, `\R`, `\v`, `\V`, `\t`, `\T`, `\b`, `\B`, `\f`, `\F`, `\_`, `\%`,
	`\u0041`, `\u00e9`, `\u3042`, `\u0000`, `\u2028`, `\ud83d`, `\uFFFD`, `\x41`, `\x7f`, `\x00`, `\xff`, `\101`, `\000`, `\377`, `\777`}

func text(r *Rand) string {
	var b strings.Builder
	b.WriteByte('\'')
	for n := 1 + r.N(5); n > 0; n-- {
		switch r.N(4) {
		case 0:
			b.WriteString(Pick(r, "é", "日本", "\U0001F600", "<", ">", "&", "\u2028", "\x7f", "\x01", "\"", "\a", "\u200b", "\ufeff", "\U000E0001", "\u0085", "\ufffd", "`", "\r\n", "--x", "/*y*/"))
		default:
			b.WriteString(ident(r))
		}
	}
	b.WriteByte('\'')
	return b.String()
}

// list is a list of n items.
func list(r *Rand, n int, item func(*Rand) string) string {
	var l []string
	for k := 0; k < n; k++ {
		l = append(l, item(r))
	}
	return "(" + strings.Join(l, Pick(r, ",", ", ", " ,\n")) + ")"
}

func scalar(r *Rand) string {
	switch r.N(12) {
	case 0, 1:
		return integer(r)
	case 2, 3:
		return float(r)
	case 4:
		return day(r)
	case 5:
		return moment(r)
	case 6:
		return clock(r)
	case 7:
		return Pick(r, "NULL", "null", "Null")
	case 8:
		return Pick(r, "TRUE", "false", "True", "FALSE")
	case 9:
		return ":" + Pick(r, "", "", " ") + ident(r)
	case 10:
		return dateLiteral(r)
	}
	return text(r)
}

var edges = []string{"0", "-0", "+0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9007199254740991", "9007199254740993", "-9007199254740993", "4294967296", "2147483648", "0xff", "0b0", "0o7",
	"0.0", "-0.0", "+0.0", "-0.0e0", "1.0", "-1.0", "100.0", "5e-324", "-5e-324", "1.7976931348623157e308", "1e20", "1e21", "1e22", "-1e21", "1e-6", "1e-7", "0.1", "0.30000000000000004", "9007199254740993.0", "123456789012345680000.0", "16777217.0", "3.4028235677973366e38",
	"null", "true", "false", "''", "' '", "'null'", "'true'", "'0'", "'1.0'", "'TODAY'", "'2020-01-01'", "'{}'", "'[]'", "'a,b'", "'a;b'", "'\\\\'", "'\\''", "'\\u0000'", "'\\u2028'", "'\\ud800'", "'\\x7f'", "'\\n'", "'<&>'", "'\U0001F600'", "'é'", "'e\u0301'", "'ſ'", "'İ'",
	"0001-01-01", "9999-12-31", "1970-01-01", "2000-02-29", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "9999-12-31T23:59:59-12:00", "0000-01-01T00:00:00+14:00", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999Z", "2001-02-03T04:05:06.000000001+14:00", "2001-02-03T04:05:06-12:00", "2001-02-03T04:05:06.7Z",
	"00:00:00", "23:59:59.999999999", "12:34:56.7", "00:00:00.000000001", ":p", ":P", ":p1", "TODAY", "today", "LAST_N_DAYS:0", "LAST_N_DAYS:1", "NEXT_N_YEARS:2147483648", "LAST_N_DAYS:9007199254740993"}

// edge is a literal at the edge of what its type holds, or one that looks like another.
func edge(r *Rand) string { return Pick(r, edges...) }

// Edges is a source with many such literals.
func Edges(r *Rand) string {
	var l []string
	for k := 3 + r.N(12); k > 0; k-- {
		c := ident(r) + Pick(r, " = ", " != ", " < ", " >= ") + edge(r)
		switch r.N(7) {
		case 0:
			c = ident(r) + Pick(r, " IN ", " NOT IN ") + list(r, 1+r.N(12), edge)
		case 1:
			c = "f(" + ident(r) + ", " + edge(r) + ") = " + edge(r)
		}
		l = append(l, c)
	}
	return "SELECT Id" + Pick(r, "", ", g("+edge(r)+", "+edge(r)+") x") + " FROM Contact WHERE " + strings.Join(l, Pick(r, " AND ", " OR "))
}

// common is a value that occurs again and again.
func common(r *Rand) string {
	if r.P(35) {
		return strconv.Itoa(r.N(10))
	}
	return Pick(r, strconv.Itoa(r.N(10)), strconv.Itoa(r.N(4)), "''", "'"+Pick(r, "a", "x", "0", "A")+"'", "null", "true", "false",
		"-1", "0.0", "1.0", "100", "TODAY", "LAST_N_DAYS:1", "1970-01-01", "2000-01-01T00:00:00Z", "00:00:00", ":p", ":id")
}

// Features are small sources, each of which uses one rarely used part of the
// language, so that every part has several sources that have it and little else.
func Features(r *Rand, each int) []string {
	var out []string
	for _, k := range kinds(r) {
		for i := 0; i < each; i++ {
			out = append(out, k())
		}
	}
	return out
}

// Feature is one such source.
func Feature(r *Rand) string {
	return Pick(r, kinds(r)...)()
}

func kinds(r *Rand) []func() string {
	f := func() string { return ident(r) }
	where := func(s string) string { return "SELECT Id FROM Contact WHERE " + f() + " " + s }
	col := func(s string) string { return "SELECT " + s + " FROM " + Pick(r, objects...) }
	tail := func(s string) string { return "SELECT Id FROM Contact " + s }
	return []func() string{
		// Literals.
		func() string { return where("= " + integer(r)) },
		func() string { return where("< 0x" + Pick(r, "1f", "ABC", "0")) },
		func() string { return where("> 0b" + Pick(r, "1", "1010")) },
		func() string { return where("!= 0o" + Pick(r, "17", "0")) },
		func() string { return where(">= " + float(r)) },
		func() string { return where("= " + float(r)) },
		func() string { return where("= " + day(r)) },
		func() string { return where("<= " + moment(r)) },
		func() string { return where("> " + clock(r)) },
		func() string { return where("= " + Pick(r, "NULL", "null")) },
		func() string { return where("= " + Pick(r, "TRUE", "true")) },
		func() string { return where("= " + Pick(r, "FALSE", "false")) },
		func() string { return where("= :" + ident(r)) },
		func() string { return where("= " + dateLiteral(r)) },
		func() string { return where("= " + Pick(r, dtAllN...) + ":" + strconv.Itoa(1+r.N(90))) },
		func() string { return where("= " + text(r)) },
		func() string { return where("= ''") },
		func() string { return where("= " + Pick(r, "Infinity", "-Infinity", "NaN", "+infinity")) },
		func() string {
			return where("= '" + Pick(r, `\u`+fmt.Sprintf("%04x", r.N(0x10000)), `\u{1f600}`, `\u{41}`) + "'")
		},
		func() string { return where("= '" + `\x` + fmt.Sprintf("%02x", r.N(256)) + "'") },
		func() string { return where("= '" + `\` + fmt.Sprintf("%03o", r.N(512)) + "'") },
		func() string { return where("= '" + Pick(r, escapes...) + Pick(r, escapes...) + "'") },
		func() string { return where("LIKE '" + Pick(r, `%a\_b%`, `\%`, `_`, `a%`) + "'") },
		func() string { return where("NOT  like " + text(r)) },
		// Lists.
		func() string { return where("IN " + list(r, 9+r.N(20), integer)) },
		func() string { return where("IN " + list(r, 2+r.N(8), text)) },
		func() string { // about the sizes blocks would have
			n := Pick(r, 16, 32, 32, 64, 64, 128, 256) + Pick(r, -1, 0, 0, 1, 1)
			return where(Pick(r, "IN ", "NOT IN ") + list(r, n, func(r *Rand) string { return strconv.Itoa(r.N(1000)) }))
		},
		func() string { return where("NOT IN " + list(r, 1+r.N(6), scalar)) },
		func() string { return where("IN " + list(r, 1+r.N(3), dateLiteral)) },
		func() string { return where("IN " + list(r, 2+r.N(3), float)) },
		func() string { return where("IN " + list(r, 2, moment)) },
		func() string { return where("IN " + list(r, 1+r.N(3), func(r *Rand) string { return ":" + ident(r) })) },
		func() string { return where("includes " + list(r, 1+r.N(4), text)) },
		func() string { return where("EXCLUDES " + list(r, 1+r.N(4), text)) },
		func() string { return Edges(r) },
		func() string { return Edges(r) },
		func() string { return Edges(r) },
		func() string { return where("IN " + list(r, 1+r.N(20), edge)) },
		func() string { return where("= " + edge(r)) },
		// Lists and values so common that they might be shared.
		func() string { return where("IN " + list(r, 1, common)) },
		func() string { return where("IN " + list(r, 1, common)) },
		func() string { return where("NOT IN " + list(r, 2+r.N(2), common)) },
		func() string { return where("INCLUDES ('" + Pick(r, "a", "A", "x", "") + "')") },
		func() string { return where("= " + common(r)) },
		func() string { return where("!= " + common(r) + " AND Id > " + common(r)) },
		func() string { return "SELECT FOO(" + common(r) + ") FROM Contact" },
		func() string {
			return "SELECT COUNT() FROM " + Pick(r, objects...) + " WHERE Id = " + common(r) + " LIMIT " + strconv.Itoa(r.N(3))
		},
		// Names.
		func() string { return col(`"` + Pick(r, "od d", "café", "a.b", `q\u0041`, "日本", "") + `"`) },
		func() string { return col(f() + " . " + f() + "." + f()) },
		func() string { return col(f() + " " + f()) },
		func() string { return "SELECT c." + f() + ", Contact." + f() + " FROM Contact c" },
		func() string {
			return "SELECT a1." + f() + " FROM Contact c, c.Account a1, a1.Owner o1 WHERE o1." + f() + " = 1"
		},
		func() string { return "SELECT Id FROM Contact c, c." + f() + "." + f() + " z" },
		func() string { return "SELECT Owner.Id, Account.Owner." + f() + " FROM Contact" },
		func() string { return "SELECT Id FROM Contact WHERE " + f() + " = " + f() + "." + f() },
		// Functions.
		func() string { return col(f() + "()") },
		func() string { return col(f() + "(" + scalarArg(r) + ")") },
		func() string {
			return col("CONCAT(" + f() + ", " + scalarArg(r) + ", " + f() + "." + f() + ") " + "x" + f())
		},
		func() string { return col("TRIM(UPPER( " + f() + " )) x" + f()) },
		func() string { return col("FIELDS(" + Pick(r, "ALL", "all", "STANDARD", "custom") + ")") },
		func() string { return "SELECT FIELDS(ALL), Id FROM Contact" },
		func() string { return "SELECT Id FROM Contact WHERE FOO(" + f() + ") = " + scalar(r) },
		func() string {
			return "SELECT Id FROM Contact WHERE FOO(" + f() + ", " + scalarArg(r) + ") = BAR(" + f() + ")"
		},
		func() string { return "SELECT FOO(" + dateLiteral(r) + ") FROM Contact" },
		// Conditions.
		func() string { return tail("WHERE NOT " + f() + " = 1") },
		func() string { return tail("WHERE NOT (" + f() + " = 1 OR " + f() + " = 2)") },
		func() string { return tail("WHERE NOT (NOT (" + f() + " < 1 AND NOT " + f() + " LIKE 'x'))") },
		func() string { return tail("WHERE(" + f() + " = 1)AND(" + f() + " = 2)") },
		func() string {
			return tail("WHERE " + f() + " = 1 OR " + f() + " = 2 AND " + f() + " = 3 OR " + f() + " = 4")
		},
		func() string { return tail("WHERE " + f() + " IN (SELECT " + f() + " FROM Task)") },
		func() string {
			return tail("WHERE " + f() + " NOT IN (SELECT " + f() + " FROM Task t WHERE t." + f() + " = :" + f() + ")")
		},
		func() string {
			return "SELECT Id FROM Contact con WHERE " + f() + " IN (SELECT Id FROM Task WHERE con." + f() + " = Task." + f() + ")"
		},
		func() string { return tail("WHERE " + f() + " = (SELECT " + f() + " FROM Task LIMIT 1)") },
		// Subqueries.
		func() string { return "SELECT Id, (SELECT " + f() + " FROM Notes) FROM Contact" },
		func() string {
			return "SELECT Id, (SELECT " + f() + " FROM Notes WHERE " + f() + " = :p ORDER BY " + f() + " LIMIT 2) n1 FROM Contact c"
		},
		func() string {
			return "SELECT (SELECT Id FROM con.Departments), (SELECT Id FROM con.Notes) x FROM Contact con"
		},
		// Aggregation.
		func() string { return col("COUNT()") },
		func() string { return col("COUNT(Id)") },
		func() string { return col("COUNT(" + f() + ") x" + f() + ", MAX(" + f() + "), min(" + f() + ") m") },
		func() string { n := f(); return "SELECT " + n + ", SUM(" + f() + ") FROM Contact GROUP BY " + n },
		func() string {
			n, m := "a"+f(), "b"+f()
			return "SELECT " + n + ", " + m + ", AVG(x) FROM Contact GROUP BY " + m + ", " + n
		},
		func() string {
			n := f()
			return "SELECT COUNT_DISTINCT(" + f() + ") FROM Contact GROUP BY " + n + " HAVING MAX(" + f() + ") > " + scalar(r)
		},
		func() string {
			n := f()
			return "SELECT " + n + " FROM Contact GROUP BY " + n + " HAVING NOT (COUNT(Id) > 1 OR SUM(x) < 2) AND LEN(" + n + ") = 3"
		},
		func() string {
			return "SELECT Name n1, COUNT(Id) c1 FROM Contact GROUP BY Name ORDER BY " + Pick(r, "Name", "n1")
		},
		func() string {
			n := f()
			return "SELECT " + n + " FROM Contact GROUP BY " + n + " HAVING COUNT(Id) IN (1, 2, :p)"
		},
		// Order, limits, for.
		func() string { return tail("ORDER BY " + f()) },
		func() string { return tail("ORDER BY " + f() + " DESC NULLS LAST, z" + f() + " ASC nulls first") },
		func() string { return tail("ORDER BY Owner." + f() + " desc") },
		func() string { return "SELECT " + f() + " al FROM Contact ORDER BY al" },
		func() string { return tail("LIMIT " + strconv.Itoa(r.N(5000))) },
		func() string { return tail("OFFSET " + strconv.Itoa(r.N(5000))) },
		func() string { return tail("LIMIT :" + f() + " OFFSET :" + f()) },
		func() string { return tail("OFFSET :" + f() + " LIMIT " + strconv.Itoa(r.N(50))) },
		func() string { return tail("LIMIT -1") },
		func() string { return tail("FOR VIEW") },
		func() string { return tail("for reference, VIEW") },
		func() string { return tail("FOR VIEW , REFERENCE") },
		func() string { return tail("FOR UPDATE") },
		func() string { return tail("FOR UPDATE TRACKING") },
		func() string { return tail("for update viewstat, tracking") },
		// Spaces and comments.
		func() string { return "/*" + f() + "*/SELECT/**/" + f() + "--" + f() + "\r\nFROM\tContact -- end" },
		func() string { return "\n\n  select\n" + f() + "\n,\n" + f() + "\nfrom\nContact\n" },
		func() string { return "select Id from Contact where(" + f() + "=1)" },
		// Failures of each kind, with a name of their own in the message.
		func() string { return "SELECT Id FROM Contact WHERE " + f() + " ~ " + f() },
		func() string {
			return strings.Repeat("\n", r.N(5)) + "SELECT " + f() + strings.Repeat(" ", r.N(9)) + " ; FROM Contact"
		},
		func() string { return "SELECT " + f() + " FROM Contact LIMIT " + f() },
		func() string { n := f(); return "SELECT a1 " + n + ", a2 " + n + " FROM Contact" },
		func() string { n := f(); return "SELECT Id FROM Contact " + n + ", Account " + n },
		func() string { n := f(); return "SELECT x" + n + ", Name FROM Contact GROUP BY Name" },
		func() string { n := f(); return "SELECT Id FROM Contact ORDER BY " + n + ", " + n },
		func() string { n := f(); return "SELECT " + n + " FROM Contact GROUP BY " + n + ", " + n },
		func() string { return "SELECT FIELDS(" + f() + ") FROM Contact" },
		func() string { return "SELECT Id FROM " + f() + "." + f() },
		func() string { return "SELECT Id FROM Contact WHERE MAX(" + f() + ") > 1" },
		func() string {
			return "SELECT Id FROM Contact WHERE d = " + Pick(r, "2023-02-29", "2024-13-01", "2024-00-10", "2024-01-32", "24:00:00", "2024-01-01T25:00:00Z")
		},
		func() string {
			return "SELECT Id FROM Contact WHERE n = " + Pick(r, "9223372036854775808", "-9223372036854775809", "1e999", "0x1FFFFFFFFFFFFFFFF")
		},
		func() string { return "SELECT Id FROM Contact WHERE s = 'never closed " + f() },
		func() string { return "SELECT \"new\nline" + f() + "\" FROM Contact" },
	}
}

// scalarArg is a literal that a function takes.
func scalarArg(r *Rand) string {
	for {
		s := scalar(r)
		if !isDT(s) {
			return s
		}
	}
}

// LongFamily is a set of long sources of the same length, or nearly, with the
// same beginning and end.
func LongFamily(r *Rand, n int) []string {
	a, b := Pick(r, 150, 600, 600, 1100, 2100), Pick(r, 0, 80, 600, 1100)
	fill := func(n int) string {
		switch r.N(3) {
		case 0:
			return strings.Repeat(" ", n)
		case 1:
			return "/*" + strings.Repeat(string(rune('a'+r.N(26))), n) + "*/"
		}
		return strings.Repeat(" \n", n/2)
	}
	pre, post := fill(a), fill(b)
	mids := Pick(r, []string{"abc", "a ~", "(a)", "a,b", "ABC", "'a'", "xyz", "a;b", "a.b", "abd"},
		[]string{"Name = 1", "Name = 2", "Name ~ 1", "Name < 1", "Name in ", "Nama = 1", "(a = 2) ", "a=1 or b", "Name = x", "Name = '"})
	head, tail := "SELECT Id, ", " FROM Contact"
	if len(mids[0]) > 3 {
		head, tail = "SELECT Id FROM Contact WHERE ", " LIMIT 4"
	}
	var out []string
	for len(out) < n {
		out = append(out, head+pre+mids[r.N(len(mids))]+post+tail)
	}
	return out
}
