package schema

import (
	"strings"
	"unicode"
)

// A Tok is one token of a definition: Kind is 'a' (name), '0' (number), '"'
// (string), 'k' (keyword), '!' (nothing the language knows), ';' (also a line's
// end) or the character itself. Lead is the blank text and comments before it.
type Tok struct {
	Kind byte
	Text string
	Lead string
}

var keywords = map[string]bool{"import": true, "package": true, "data": true, "server": true, "enum": true}

// Lex cuts a text into tokens; tail is what follows the last one.
func Lex(t string) (toks []Tok, tail string) {
	i, lead := 0, 0
	emit := func(k byte, to int) {
		toks = append(toks, Tok{Kind: k, Text: t[i:to], Lead: t[lead:i]})
		i, lead = to, to
	}
	for i < len(t) {
		c := t[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(t[i:], "//"):
			n := strings.IndexByte(t[i:], '\n')
			if n < 0 {
				n = len(t) - i
			}
			i += n
		case strings.HasPrefix(t[i:], "/*"):
			n := strings.Index(t[i+2:], "*/")
			if n < 0 {
				emit('!', len(t))
			} else {
				i += n + 4
			}
		case c == '_' || c < 0x80 && unicode.IsLetter(rune(c)):
			j := i
			for j < len(t) && (t[j] == '_' || t[j] < 0x80 && (unicode.IsLetter(rune(t[j])) || unicode.IsDigit(rune(t[j])))) {
				j++
			}
			if keywords[t[i:j]] {
				emit('k', j)
			} else {
				emit('a', j)
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(t) && t[j] >= '0' && t[j] <= '9' {
				j++
			}
			emit('0', j)
		case c == '"':
			j := i + 1
			for j < len(t) && t[j] != '"' && t[j] != '\n' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			if j < len(t) && t[j] == '"' {
				emit('"', j+1)
			} else {
				if j > len(t) {
					j = len(t)
				}
				emit('!', j)
			}
		case strings.IndexByte(",:;()[]{}<>=?", c) >= 0:
			emit(c, i+1)
		default:
			emit('!', i+1)
		}
	}
	return toks, t[lead:]
}

// Join is the text of tokens.
func Join(toks []Tok, tail string) string {
	var b strings.Builder
	for _, k := range toks {
		b.WriteString(k.Lead)
		b.WriteString(k.Text)
	}
	return b.String() + tail
}

// lines adds the line ends that end a statement.
func lines(toks []Tok, tail string) []Tok {
	var out []Tok
	ends := func() bool {
		return len(out) > 0 && strings.IndexByte("a0\")]}>", out[len(out)-1].Kind) >= 0
	}
	for _, k := range toks {
		if strings.Contains(k.Lead, "\n") && ends() {
			out = append(out, Tok{Kind: ';'})
		}
		out = append(out, k)
	}
	if ends() {
		out = append(out, Tok{Kind: ';'})
	}
	return out
}

type recogniser struct {
	t  []Tok
	i  int
	ok bool
}

func (p *recogniser) kind() byte {
	if p.i < len(p.t) {
		return p.t[p.i].Kind
	}
	return 0
}
func (p *recogniser) word(w string) bool {
	return p.i < len(p.t) && p.t[p.i].Kind == 'k' && p.t[p.i].Text == w
}
func (p *recogniser) opt(k byte) bool {
	if p.kind() == k {
		p.i++
		return true
	}
	return false
}
func (p *recogniser) need(ks ...byte) {
	for _, k := range ks {
		if !p.opt(k) {
			p.ok = false
			p.i++
		}
	}
}
func (p *recogniser) end() {
	if k := p.kind(); k != ')' && k != '}' {
		p.need(';')
	}
}
func (p *recogniser) simple() {
	p.need('a')
	p.opt('?')
}
func (p *recogniser) typ() {
	p.simple()
	if p.opt('[') {
		p.need(']')
		p.opt('?')
	} else if p.opt('<') {
		p.typ()
		p.need('>')
		p.opt('?')
	}
}
func (p *recogniser) tags() {
	for p.ok && p.opt('[') {
		p.need('a', ':')
		for p.ok && p.kind() != ']' {
			p.need('a', '=', '"')
			for p.opt(',') {
				p.need('"')
			}
			p.opt(';')
		}
		p.need(']')
		p.end()
	}
}
func (p *recogniser) extends() {
	if p.kind() == ':' {
		for p.ok && (p.opt(':') || p.opt(',')) {
			p.need('a', '=', '0')
		}
	}
}
func (p *recogniser) body(item func()) {
	p.need('{')
	for p.ok && p.kind() != '}' && p.kind() != 0 {
		p.tags()
		item()
		p.end()
	}
	p.need('}')
	p.opt('=')
	p.end()
}

// Wellformed reports whether a text has the form of a definition file. It
// takes whatever can be read as one, so a text it refuses is broken whatever
// its names mean; one it accepts may still be wrong.
func Wellformed(t string) bool {
	p := &recogniser{ok: true}
	toks, tail := Lex(t)
	p.t = lines(toks, tail)
	for p.ok && p.word("package") {
		p.i++
		p.need('a', '=', '"')
		p.end()
	}
	for p.ok && p.word("import") {
		p.i++
		p.need('"')
		p.end()
	}
	for p.ok && p.i < len(p.t) {
		p.tags()
		switch {
		case p.word("data"):
			p.i++
			p.need('a')
			p.extends()
			p.body(func() {
				p.typ()
				p.need('a', '=', '0')
				p.opt('"')
			})
		case p.word("enum"):
			p.i++
			p.need('a')
			p.body(func() { p.need('a', '=', '0') })
		case p.word("server"):
			p.i++
			p.need('a')
			p.extends()
			p.body(func() {
				p.simple()
				p.need('a', '(')
				p.simple()
				p.need('a', ')', '=', '0')
			})
		default:
			p.ok = false
		}
	}
	return p.ok
}

// Spoil edits one to three tokens or line ends of a text.
func Spoil(r *Rng, t string) string {
	toks, tail := Lex(t)
	for n := 1 + r.N(3)/2; n > 0 && len(toks) > 0; n-- {
		// Any kind of declaration is as likely as any other to be hit.
		var parts [6][]int
		part := 0
		for i, k := range toks {
			if k.Kind == 'k' {
				part = strings.Index("imppacdatserenu", k.Text[:3])/3 + 1
			} else if k.Kind == '[' && i > 0 && toks[i-1].Kind != 'a' && toks[i-1].Kind != '?' {
				part = 0
			}
			parts[part] = append(parts[part], i)
			if k.Kind == '}' {
				part = 0
			}
		}
		in := parts[r.N(6)]
		for len(in) == 0 {
			in = parts[r.N(6)]
		}
		i := in[r.N(len(in))]
		if r.P(1, 3) {
			// A place near the end of a line, where separators matter.
			for i+1 < len(toks) && !strings.Contains(toks[i+1].Lead, "\n") {
				i++
			}
			i += 1 - r.N(3)
			if i < 0 || i >= len(toks) {
				i = len(toks) - 1
			}
		}
		random := func() Tok {
			k := toks[r.N(len(toks))]
			if r.P(1, 3) {
				c := ",:;()[]{}<>=?"[r.N(13)]
				k = Tok{Kind: c, Text: string(c)}
			}
			k.Lead = " "
			return k
		}
		insert := func(k Tok) {
			toks = append(toks[:i:i], append([]Tok{k}, toks[i:]...)...)
			if i+1 < len(toks) && toks[i+1].Lead == "" {
				toks[i+1].Lead = " "
			}
		}
		switch r.N(8) {
		case 0, 1:
			lead := toks[i].Lead
			toks = append(toks[:i:i], toks[i+1:]...)
			if i < len(toks) && r.P(1, 2) {
				toks[i].Lead = lead + toks[i].Lead
			}
			if i < len(toks) && toks[i].Lead == "" {
				toks[i].Lead = " "
			}
		case 2:
			insert(random())
		case 3:
			k := random()
			k.Lead = toks[i].Lead
			toks[i] = k
			if i+1 < len(toks) && toks[i+1].Lead == "" {
				toks[i+1].Lead = " "
			}
		case 4:
			if i > 0 {
				toks[i].Kind, toks[i-1].Kind = toks[i-1].Kind, toks[i].Kind
				toks[i].Text, toks[i-1].Text = toks[i-1].Text, toks[i].Text
				if toks[i].Lead == "" {
					toks[i].Lead = " "
				}
			}
		case 5:
			// join two lines
			for i > 0 && !strings.Contains(toks[i].Lead, "\n") {
				i--
			}
			if !strings.Contains(toks[i].Lead, "//") {
				toks[i].Lead = " "
			}
		case 6:
			toks[i].Lead += "\n"
		case 7:
			k := toks[i]
			k.Lead = " "
			insert(k)
		}
		// what was edited may now be read otherwise
		toks, tail = Lex(Join(toks, tail))
	}
	return Join(toks, tail)
}
