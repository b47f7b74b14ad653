// Package gen enumerates Starlark source texts: expression and statement shapes up to a nesting bound, and layout
// and comment deviations (line breaks, blank lines, comments, spacing) of a seed text.
package gen

import (
	"fmt"
	"strings"
)

// Tok is a code token with the layout text before it.
type Tok struct {
	Gap   string // whitespace, newlines and comments before the token
	Text  string
	Depth int // bracket depth before the token (of the gap)
}

// Doc is a tokenised text.
type Doc struct {
	Toks []Tok
	Tail string // layout text after the last token
}

// Lex splits text into tokens and gaps. It returns nil if it does not understand the text.
func Lex(s string) *Doc {
	d := &Doc{}
	depth := 0
	i := 0
	for {
		j := i
		for j < len(s) {
			c := s[j]
			if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
				j++
				continue
			}
			if c == '\\' && j+1 < len(s) && s[j+1] == '\n' {
				j += 2
				continue
			}
			if c == '#' {
				for j < len(s) && s[j] != '\n' {
					j++
				}
				continue
			}
			break
		}
		gap := s[i:j]
		if j >= len(s) {
			d.Tail = gap
			return d
		}
		k := tokEnd(s, j)
		if k <= j {
			return nil
		}
		t := s[j:k]
		dd := depth
		switch t {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
			if depth < 0 {
				return nil
			}
		}
		d.Toks = append(d.Toks, Tok{gap, t, dd})
		i = k
	}
}

func isIdent(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func strEnd(s string, i int) int {
	q := s[i]
	if i+2 < len(s) && s[i+1] == q && s[i+2] == q {
		for j := i + 3; j < len(s); j++ {
			if s[j] == '\\' {
				j++
				continue
			}
			if s[j] == q && j+2 < len(s) && s[j+1] == q && s[j+2] == q {
				return j + 3
			}
		}
		return -1
	}
	for j := i + 1; j < len(s); j++ {
		if s[j] == '\\' {
			j++
			continue
		}
		if s[j] == q {
			return j + 1
		}
		if s[j] == '\n' {
			return -1
		}
	}
	return -1
}

func tokEnd(s string, i int) int {
	c := s[i]
	if c == '"' || c == '\'' {
		return strEnd(s, i)
	}
	if isIdent(c) {
		j := i
		for j < len(s) && (isIdent(s[j]) || (s[j] == '.' && c >= '0' && c <= '9')) {
			j++
		}
		if c >= '0' && c <= '9' && j < len(s) && (s[j] == '-' || s[j] == '+') && (s[j-1] == 'e' || s[j-1] == 'E') && !strings.HasPrefix(s[i:], "0x") {
			j++
			for j < len(s) && isIdent(s[j]) {
				j++
			}
		}
		if j < len(s) && (s[j] == '"' || s[j] == '\'') {
			switch s[i:j] {
			case "r", "b", "rb", "br", "R":
				return strEnd(s, j)
			}
		}
		return j
	}
	for _, op := range []string{"//=", "**", "//", "<<", ">>", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "|=", "->"} {
		if strings.HasPrefix(s[i:], op) {
			return i + len(op)
		}
	}
	if c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
		j := i + 1
		for j < len(s) && isIdent(s[j]) {
			j++
		}
		return j
	}
	return i + 1
}

// Text renders the document.
func (d *Doc) Text() string {
	var b strings.Builder
	for _, t := range d.Toks {
		b.WriteString(t.Gap)
		b.WriteString(t.Text)
	}
	b.WriteString(d.Tail)
	return b.String()
}

// With renders the document with gap g (index len(Toks) = tail) replaced.
func (d *Doc) With(repl map[int]string) string {
	var b strings.Builder
	for i, t := range d.Toks {
		if r, ok := repl[i]; ok {
			b.WriteString(r)
		} else {
			b.WriteString(t.Gap)
		}
		b.WriteString(t.Text)
	}
	if r, ok := repl[len(d.Toks)]; ok {
		b.WriteString(r)
	} else {
		b.WriteString(d.Tail)
	}
	return b.String()
}

func wordy(s string) bool { return s != "" && (isIdent(s[0]) || isIdent(s[len(s)-1])) }

func lastIndent(gap string) string {
	k := strings.LastIndexByte(gap, '\n')
	if k < 0 {
		return ""
	}
	return gap[k+1:]
}

// Alts returns the layout alternatives of gap i; cm is the comment text to use ("c1").
func (d *Doc) Alts(i int, cm string) []string {
	if i == len(d.Toks) {
		return []string{"", "\n", "\n\n\n", "\n# " + cm + "\n", "  # " + cm + "\n", "\n\n# " + cm, "\n    # " + cm + "\n"}
	}
	t := d.Toks[i]
	g := t.Gap
	if i == 0 {
		return []string{"# " + cm + "\n", "# " + cm + "\n\n", "\n\n", "\n# " + cm + "\n# x" + cm + "\n\n# y" + cm + "\n"}
	}
	prev := d.Toks[i-1].Text
	if t.Depth > 0 {
		ind := "    "
		alts := []string{"\n" + ind, "\n\n" + ind, "  # " + cm + "\n" + ind, "\n" + ind + "# " + cm + "\n" + ind,
			"\n\n" + ind + "# " + cm + "\n\n" + ind, "\n# " + cm + "\n# x" + cm + "\n" + ind, " #" + cm + "\n\n" + ind + "# x" + cm + "\n" + ind, "\\\n"}
		if g != "" {
			if !(wordyEnd(prev) && wordyStart(t.Text)) {
				alts = append(alts, "")
			}
		}
		if g != " " {
			alts = append(alts, " ")
		}
		return alts
	}
	if strings.Contains(strings.ReplaceAll(g, "\\\n", ""), "\n") {
		// statement boundary
		ind := lastIndent(g)
		alts := []string{"\n" + ind, "\n\n" + ind, "\n\n\n\n" + ind, "  # " + cm + "\n" + ind, "\n" + ind + "# " + cm + "\n" + ind,
			"\n\n" + ind + "# " + cm + "\n\n" + ind, "\n" + ind + "# " + cm + "\n\n" + ind, "\n\n" + ind + "# " + cm + "\n" + ind,
			"  # " + cm + "\n" + ind + "# x" + cm + "\n\n" + ind + "# y" + cm + "\n" + ind,
			"\n" + ind + "    # " + cm + "\n" + ind, "\n" + ind + "    # " + cm + "\n" + ind + "# x" + cm + "\n" + ind, "   \n" + ind}
		if ind != "" {
			alts = append(alts, "\n# "+cm+"\n"+ind, "\n\n# "+cm+"\n\n"+ind)
		} else if i > 0 {
			alts = append(alts, "\n        # "+cm+"\n    # x"+cm+"\n# y"+cm+"\n")
		}
		return alts
	}
	alts := []string{" \\\n        ", "  "}
	if g != "" && !(wordyEnd(prev) && wordyStart(t.Text)) {
		alts = append(alts, "")
	}
	if g != " " {
		alts = append(alts, " ")
	}
	return alts
}

func wordyEnd(s string) bool {
	return isIdent(s[len(s)-1]) || s[len(s)-1] == '"' || s[len(s)-1] == '\''
}
func wordyStart(s string) bool { return isIdent(s[0]) || s[0] == '"' || s[0] == '\'' }

// Deviate calls emit for the text itself and for every choice of at most k gap deviations. It stops when emit
// returns false.
func (d *Doc) Deviate(k int, emit func(string) bool) bool {
	return d.deviate(k, 0, map[int]string{}, emit)
}

func (d *Doc) deviate(k, from int, cur map[int]string, emit func(string) bool) bool {
	if !emit(d.With(cur)) {
		return false
	}
	if k == 0 {
		return true
	}
	for i := from; i <= len(d.Toks); i++ {
		for _, a := range d.Alts(i, fmt.Sprintf("c%d", len(cur)+1)) {
			cur[i] = a
			if !d.deviate(k-1, i+1, cur, emit) {
				return false
			}
		}
		delete(cur, i)
	}
	return true
}

// Comments lists the comment texts ("#..." to end of line, right-trimmed) of a text in order.
func Comments(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '#':
			j := i
			for j < len(s) && s[j] != '\n' {
				j++
			}
			r = append(r, strings.TrimRight(s[i:j], " \t\r"))
			i = j
		case c == '"' || c == '\'':
			k := strEnd(s, i)
			if k < 0 {
				return r
			}
			i = k
		default:
			i++
		}
	}
	return r
}
