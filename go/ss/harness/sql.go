package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"time"

	"github.com/shopspring/decimal"
)

// Val is a value in the database or in a data object: nil, int64, string,
// float64, Dec, MS (a date in milliseconds), or J (a structured value).
type Val = any

// Dec is a decimal number in its shortest form.
type Dec string

// MS is a date.
type MS int64

// J is a structured value, written down independently of its JSON form.
type J string

// JT is JSON text as it is in a column.
type JT string

// Expr is an SQL expression.
type Expr struct {
	op   string // const, param, col, func, not, neg, in, isnull, isnotnull, between, or a binary operator
	val  Val
	n    int // parameter
	name string
	args []*Expr
}

type ordering struct {
	e    *Expr
	desc bool
}

// Stmt is an SQL statement.
type Stmt struct {
	kind    string // select, insert, update, delete
	table   string
	what    []*Expr // selected
	names   []string
	rows    [][]*Expr
	where   *Expr
	group   []*Expr
	order   []ordering
	limit   *Expr
	offset  *Expr
	ignore  bool // INSERT IGNORE
	replace bool
	dupCols []string
	dupVals []*Expr
	params  int
}

var tokRe = regexp.MustCompile("^(?:[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_$\u0080-\U0010ffff]*|[0-9]+\\.?[0-9]*|'(?:[^'\\\\]|\\\\.|'')*'|\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`|<=>|<=|>=|<>|!=|\\|\\||&&|[-+*/%=<>(),.?;!@])")

type sqlErr struct{ msg string }

func (e *sqlErr) Error() string { return e.msg }

type sqlParser struct {
	toks []string
	pos  int
	n    int
}

func bad(f string, a ...any) { panic(&sqlErr{"Error 1064: " + fmt.Sprintf(f, a...)}) }

func parseSQL(text string) (s *Stmt, err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*sqlErr); ok {
				err = x
				return
			}
			panic(e)
		}
	}()
	p := &sqlParser{}
	rest := text
	for {
		rest = strings.TrimLeft(rest, " \t\r\n")
		if rest == "" {
			break
		}
		t := tokRe.FindString(rest)
		if t == "" {
			bad("syntax error near %q", rest)
		}
		p.toks = append(p.toks, t)
		rest = rest[len(t):]
	}
	s = p.stmt()
	p.eat(";")
	if p.pos < len(p.toks) {
		bad("syntax error near %q", strings.Join(p.toks[p.pos:], " "))
	}
	s.params = p.n
	return s, nil
}

func (p *sqlParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *sqlParser) next() string {
	t := p.peek()
	if t == "" {
		bad("syntax error at the end")
	}
	p.pos++
	return t
}

// eat takes the words if they come next.
func (p *sqlParser) eat(words ...string) bool {
	for i, w := range words {
		if p.pos+i >= len(p.toks) || !strings.EqualFold(p.toks[p.pos+i], w) {
			return false
		}
	}
	p.pos += len(words)
	return true
}

func (p *sqlParser) want(w string) {
	if !p.eat(w) {
		bad("syntax error near %q, expected %s", p.peek(), w)
	}
}

var reserved = map[string]bool{"select": true, "from": true, "where": true, "and": true, "or": true, "order": true, "by": true, "limit": true, "set": true, "values": true, "update": true,
	"insert": true, "into": true, "delete": true, "in": true, "is": true, "null": true, "not": true, "like": true, "between": true, "desc": true, "asc": true, "group": true, "key": true,
	"table": true, "index": true, "int": true, "to": true, "offset": false, "on": true, "as": true, "rank": true, "having": true, "join": true, "left": true, "distinct": true, "true": true, "false": true}

func (p *sqlParser) ident() string {
	t := p.next()
	if t[0] == '`' {
		return strings.Trim(t, "`")
	}
	c := t[0]
	if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80) {
		bad("syntax error near %q", t)
	}
	if reserved[strings.ToLower(t)] && t != "rank" {
		bad("syntax error near %q", t)
	}
	return t
}

func (p *sqlParser) tableName() string {
	n := p.ident()
	if p.eat(".") {
		n += "." + p.ident()
	}
	return n
}

// column is a column's name; a table in front of it is dropped.
func (p *sqlParser) column() string {
	n := p.ident()
	for p.eat(".") {
		n = p.ident()
	}
	return n
}

func (p *sqlParser) stmt() *Stmt {
	s := &Stmt{}
	switch {
	case p.eat("SELECT"):
		s.kind = "select"
		p.eat("ALL")
		for {
			if p.eat("*") {
				s.what = append(s.what, &Expr{op: "star"})
			} else {
				s.what = append(s.what, p.expr())
			}
			if p.eat("AS") {
				p.ident()
			}
			if !p.eat(",") {
				break
			}
		}
		p.want("FROM")
		s.table = p.tableName()
		p.tail(s)
		if p.eat("FOR", "UPDATE") || p.eat("LOCK", "IN", "SHARE", "MODE") {
		}
	case p.eat("INSERT"), p.eat("REPLACE"):
		s.kind = "insert"
		s.replace = strings.EqualFold(p.toks[p.pos-1], "REPLACE")
		s.ignore = p.eat("IGNORE")
		p.eat("INTO")
		s.table = p.tableName()
		if p.eat("SET") {
			var row []*Expr
			for {
				s.names = append(s.names, p.column())
				p.want("=")
				row = append(row, p.expr())
				if !p.eat(",") {
					break
				}
			}
			s.rows = [][]*Expr{row}
		} else {
			p.want("(")
			for {
				s.names = append(s.names, p.column())
				if !p.eat(",") {
					break
				}
			}
			p.want(")")
			if !p.eat("VALUES") {
				p.want("VALUE")
			}
			for {
				p.want("(")
				var row []*Expr
				for {
					row = append(row, p.expr())
					if !p.eat(",") {
						break
					}
				}
				p.want(")")
				if len(row) != len(s.names) {
					bad("column count does not match value count")
				}
				s.rows = append(s.rows, row)
				if !p.eat(",") {
					break
				}
			}
		}
		if p.eat("ON", "DUPLICATE", "KEY", "UPDATE") {
			for {
				s.dupCols = append(s.dupCols, p.column())
				p.want("=")
				s.dupVals = append(s.dupVals, p.expr())
				if !p.eat(",") {
					break
				}
			}
		}
	case p.eat("UPDATE"):
		s.kind = "update"
		s.ignore = p.eat("IGNORE")
		s.table = p.tableName()
		p.want("SET")
		for {
			s.names = append(s.names, p.column())
			p.want("=")
			s.what = append(s.what, p.expr())
			if !p.eat(",") {
				break
			}
		}
		p.tail(s)
	case p.eat("DELETE"):
		s.kind = "delete"
		p.want("FROM")
		s.table = p.tableName()
		p.tail(s)
	default:
		bad("syntax error near %q", p.peek())
	}
	return s
}

func (p *sqlParser) tail(s *Stmt) {
	if p.eat("WHERE") {
		s.where = p.expr()
	}
	if p.eat("GROUP", "BY") {
		for {
			s.group = append(s.group, p.expr())
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("ORDER", "BY") {
		for {
			o := ordering{e: p.expr()}
			if p.eat("DESC") {
				o.desc = true
			} else {
				p.eat("ASC")
			}
			s.order = append(s.order, o)
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("LIMIT") {
		s.limit = p.primary()
		if p.eat(",") {
			s.offset = s.limit
			s.limit = p.primary()
		} else if p.eat("OFFSET") {
			s.offset = p.primary()
		}
	}
}

func bin(op string, a, b *Expr) *Expr { return &Expr{op: op, args: []*Expr{a, b}} }

func (p *sqlParser) expr() *Expr {
	e := p.and()
	for p.eat("OR") || p.eat("||") {
		e = bin("or", e, p.and())
	}
	return e
}

func (p *sqlParser) and() *Expr {
	e := p.not()
	for p.eat("AND") || p.eat("&&") {
		e = bin("and", e, p.not())
	}
	return e
}

func (p *sqlParser) not() *Expr {
	if p.eat("NOT") {
		return &Expr{op: "not", args: []*Expr{p.not()}}
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *Expr {
	e := p.sum()
	for {
		neg := false
		switch {
		case p.eat("IS", "NOT", "NULL"):
			e = &Expr{op: "isnotnull", args: []*Expr{e}}
			continue
		case p.eat("IS", "NULL"):
			e = &Expr{op: "isnull", args: []*Expr{e}}
			continue
		case p.eat("NOT"):
			neg = true
		}
		switch {
		case p.eat("LIKE"):
			e = bin("like", e, p.sum())
		case p.eat("BETWEEN"):
			lo := p.sum()
			p.want("AND")
			e = &Expr{op: "between", args: []*Expr{e, lo, p.sum()}}
		case p.eat("IN"):
			p.want("(")
			l := []*Expr{e}
			for {
				l = append(l, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.want(")")
			e = &Expr{op: "in", args: l}
		default:
			if neg {
				bad("syntax error near %q", p.peek())
			}
			op := p.peek()
			switch op {
			case "=", "<", ">", "<=", ">=", "<=>":
			case "<>", "!=":
				op = "<>"
			default:
				return e
			}
			p.pos++
			e = bin(op, e, p.sum())
		}
		if neg {
			e = &Expr{op: "not", args: []*Expr{e}}
		}
	}
}

func (p *sqlParser) sum() *Expr {
	e := p.product()
	for {
		switch op := p.peek(); op {
		case "+", "-":
			p.pos++
			e = bin(op, e, p.product())
		default:
			return e
		}
	}
}

func (p *sqlParser) product() *Expr {
	e := p.primary()
	for {
		switch op := p.peek(); op {
		case "*", "/", "%":
			p.pos++
			e = bin(op, e, p.primary())
		default:
			return e
		}
	}
}

func (p *sqlParser) primary() *Expr {
	t := p.next()
	switch {
	case t == "(":
		e := p.expr()
		p.want(")")
		return e
	case t == "?":
		p.n++
		return &Expr{op: "param", n: p.n - 1}
	case t == "-":
		return &Expr{op: "neg", args: []*Expr{p.primary()}}
	case t[0] >= '0' && t[0] <= '9':
		if strings.Contains(t, ".") {
			return &Expr{op: "const", val: mkDec(t)}
		}
		var n int64
		if _, err := fmt.Sscan(t, &n); err != nil {
			bad("number %s", t)
		}
		return &Expr{op: "const", val: n}
	case t[0] == '\'' || t[0] == '"':
		x := t[1 : len(t)-1]
		x = strings.NewReplacer("''", "'", "\\'", "'", "\\\"", "\"", "\\\\", "\\", "\\n", "\n").Replace(x)
		return &Expr{op: "const", val: x}
	case strings.EqualFold(t, "NULL"):
		return &Expr{op: "const"}
	case strings.EqualFold(t, "TRUE"):
		return &Expr{op: "const", val: int64(1)}
	case strings.EqualFold(t, "FALSE"):
		return &Expr{op: "const", val: int64(0)}
	}
	p.pos--
	if p.pos+1 < len(p.toks) && p.toks[p.pos+1] == "(" {
		f := &Expr{op: "func", name: strings.ToLower(p.next())}
		p.want("(")
		for !p.eat(")") {
			if p.eat("*") {
				f.args = append(f.args, &Expr{op: "star"})
			} else {
				f.args = append(f.args, p.expr())
			}
			if !p.eat(",") {
				p.want(")")
				break
			}
		}
		return f
	}
	return &Expr{op: "col", name: p.column()}
}

// env is what an expression is evaluated in.
type sqlEnv struct {
	tab    *DBTable
	row    []Val
	insert []Val // VALUES(col)
	args   []Val
	now    time.Time
}

func dbErr(code int, f string, a ...any) error {
	return &sqlErr{fmt.Sprintf("Error %d: ", code) + fmt.Sprintf(f, a...)}
}

func mkDec(s string) Dec {
	d, err := decimal.NewFromString(s)
	if err != nil {
		return Dec("!" + s)
	}
	return normDec(d)
}

func normDec(d decimal.Decimal) Dec {
	s := d.String()
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	if s == "-0" {
		s = "0"
	}
	return Dec(s)
}

func toRat(v Val) (*big.Rat, bool) {
	switch x := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(x), true
	case float64:
		r := new(big.Rat).SetFloat64(x)
		return r, r != nil
	case Dec:
		return new(big.Rat).SetString(string(x))
	case MS:
		return new(big.Rat).SetInt64(int64(x)), true
	case string:
		if x == "" {
			return nil, false
		}
		return new(big.Rat).SetString(x)
	}
	return nil, false
}

// compare orders two values that are not null.
func compare(a, b Val) int {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return strings.Compare(sa, sb)
	}
	if ia, ok := a.(int64); ok {
		if ib, ok := b.(int64); ok {
			switch {
			case ia < ib:
				return -1
			case ia > ib:
				return 1
			}
			return 0
		}
	}
	ra, oka := toRat(a)
	rb, okb := toRat(b)
	if oka && okb {
		return ra.Cmp(rb)
	}
	return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

func truth(b bool) Val {
	if b {
		return int64(1)
	}
	return int64(0)
}

func isTrue(v Val) bool {
	if v == nil {
		return false
	}
	r, ok := toRat(v)
	return ok && r.Sign() != 0
}

var likeCache = map[string]*regexp.Regexp{}

func like(s, pat string) bool {
	re := likeCache[pat]
	if re == nil {
		var b strings.Builder
		b.WriteString("(?s)^")
		rs := []rune(pat)
		for i := 0; i < len(rs); i++ {
			switch {
			case rs[i] == '%':
				b.WriteString(".*")
			case rs[i] == '_':
				b.WriteString(".")
			case rs[i] == '\\' && i+1 < len(rs):
				i++
				b.WriteString(regexp.QuoteMeta(string(rs[i])))
			default:
				b.WriteString(regexp.QuoteMeta(string(rs[i])))
			}
		}
		b.WriteString("$")
		re = regexp.MustCompile(b.String())
		likeCache[pat] = re
	}
	return re.MatchString(s)
}

func text(v Val) string {
	switch x := v.(type) {
	case string:
		return x
	case JT:
		return string(x)
	}
	return fmt.Sprint(v)
}

func (en *sqlEnv) eval(e *Expr) (Val, error) {
	switch e.op {
	case "const":
		return e.val, nil
	case "param":
		return en.args[e.n], nil
	case "col":
		i := en.tab.colIndex(e.name)
		if i < 0 {
			return nil, dbErr(1054, "Unknown column '%s'", e.name)
		}
		if en.row == nil {
			return nil, nil
		}
		return en.row[i], nil
	case "func":
		switch e.name {
		case "now", "current_timestamp", "sysdate":
			return MS(en.now.UnixMilli() / 1000 * 1000), nil
		case "values":
			if len(e.args) == 1 && en.insert != nil {
				if i := en.tab.colIndex(e.args[0].name); i >= 0 {
					return en.insert[i], nil
				}
			}
		case "ifnull", "coalesce":
			for _, a := range e.args {
				v, err := en.eval(a)
				if err != nil || v != nil {
					return v, err
				}
			}
			return nil, nil
		}
		return nil, dbErr(1305, "FUNCTION %s does not exist", e.name)
	case "star":
		return nil, dbErr(1064, "syntax error near *")
	}
	var vs []Val
	for _, a := range e.args {
		v, err := en.eval(a)
		if err != nil {
			return nil, err
		}
		vs = append(vs, v)
	}
	switch e.op {
	case "and":
		if vs[0] != nil && !isTrue(vs[0]) || vs[1] != nil && !isTrue(vs[1]) {
			return int64(0), nil
		}
		if vs[0] == nil || vs[1] == nil {
			return nil, nil
		}
		return int64(1), nil
	case "or":
		if isTrue(vs[0]) || isTrue(vs[1]) {
			return int64(1), nil
		}
		if vs[0] == nil || vs[1] == nil {
			return nil, nil
		}
		return int64(0), nil
	case "not":
		if vs[0] == nil {
			return nil, nil
		}
		return truth(!isTrue(vs[0])), nil
	case "isnull":
		return truth(vs[0] == nil), nil
	case "isnotnull":
		return truth(vs[0] != nil), nil
	case "in":
		if vs[0] == nil {
			return nil, nil
		}
		null := false
		for _, v := range vs[1:] {
			if v == nil {
				null = true
			} else if compare(vs[0], v) == 0 {
				return int64(1), nil
			}
		}
		if null {
			return nil, nil
		}
		return int64(0), nil
	case "<=>":
		if vs[0] == nil || vs[1] == nil {
			return truth(vs[0] == nil && vs[1] == nil), nil
		}
		return truth(compare(vs[0], vs[1]) == 0), nil
	}
	for _, v := range vs {
		if v == nil {
			return nil, nil
		}
	}
	switch e.op {
	case "=":
		return truth(compare(vs[0], vs[1]) == 0), nil
	case "<>":
		return truth(compare(vs[0], vs[1]) != 0), nil
	case "<":
		return truth(compare(vs[0], vs[1]) < 0), nil
	case ">":
		return truth(compare(vs[0], vs[1]) > 0), nil
	case "<=":
		return truth(compare(vs[0], vs[1]) <= 0), nil
	case ">=":
		return truth(compare(vs[0], vs[1]) >= 0), nil
	case "between":
		return truth(compare(vs[0], vs[1]) >= 0 && compare(vs[0], vs[2]) <= 0), nil
	case "like":
		return truth(like(text(vs[0]), text(vs[1]))), nil
	case "neg":
		r, ok := toRat(vs[0])
		if !ok {
			return nil, dbErr(1292, "incorrect number")
		}
		return ratVal(r.Neg(r), vs[0], vs[0])
	case "+", "-", "*", "/", "%":
		a, ok1 := toRat(vs[0])
		b, ok2 := toRat(vs[1])
		if !ok1 || !ok2 {
			return nil, dbErr(1292, "Truncated incorrect number")
		}
		r := new(big.Rat)
		switch e.op {
		case "+":
			r.Add(a, b)
		case "-":
			r.Sub(a, b)
		case "*":
			r.Mul(a, b)
		default:
			return nil, dbErr(1235, "not supported: %s", e.op)
		}
		return ratVal(r, vs[0], vs[1])
	}
	return nil, dbErr(1235, "not supported: %s", e.op)
}

func ratVal(r *big.Rat, a, b Val) (Val, error) {
	_, fa := a.(float64)
	_, fb := b.(float64)
	if fa || fb {
		f, _ := r.Float64()
		return f, nil
	}
	if r.IsInt() {
		if r.Num().IsInt64() {
			return r.Num().Int64(), nil
		}
		return nil, dbErr(1690, "BIGINT value is out of range")
	}
	return mkDec(r.FloatString(12)), nil
}
