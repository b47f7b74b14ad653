package gen

import (
	"fmt"
	"strings"
)

// place is where a comment stands relative to the code.
type place struct {
	line      []string // code tokens of the comment's own line (before the comment)
	prevLine  []string // code tokens of the nearest preceding line with code
	prev      string   // the code token before the comment
	next      string   // the code token after the comment
	nextIdx   int
	direct    bool // only comment lines between this comment and the next token's line
	suffix    bool // there is code on the comment's line
	depth     int
	stmtStart bool
}

func places(d *Doc) map[string]place {
	r := map[string]place{}
	var cur, last []string // tokens of the current line, of the last complete line with code
	newline := func() {
		if len(cur) > 0 {
			last = cur
		}
		cur = nil
	}
	for i := 0; i <= len(d.Toks); i++ {
		gap := d.Tail
		next, depth := "", 0
		if i < len(d.Toks) {
			gap, next, depth = d.Toks[i].Gap, d.Toks[i].Text, d.Toks[i].Depth
		}
		prev := ""
		if i > 0 {
			prev = d.Toks[i-1].Text
		}
		lines := strings.Split(gap, "\n")
		for k, l := range lines {
			if k > 0 && !strings.HasSuffix(lines[k-1], "\\") {
				newline()
			}
			if h := strings.IndexByte(l, '#'); h >= 0 {
				direct := k < len(lines)-1
				for _, m := range lines[k+1:] {
					if strings.TrimSpace(m) == "" && &m != &lines[len(lines)-1] {
						direct = false
					}
				}
				if k+1 < len(lines) {
					// a comment line belongs to the block it is indented like
					direct = depth > 0 || len(cur) > 0 || strings.IndexByte(l, '#') == len(lines[len(lines)-1])
					for _, m := range lines[k+1 : len(lines)-1] {
						if strings.TrimSpace(m) == "" {
							direct = false
						}
					}
				}
				r[strings.TrimRight(l[h:], " \t\r")] = place{line: append([]string{}, cur...), prevLine: last, prev: prev, next: next,
					nextIdx: i, direct: direct, suffix: len(cur) > 0, depth: depth, stmtStart: depth == 0}
			}
		}
		if i < len(d.Toks) {
			cur = append(cur, next)
			if strings.Contains(next, "\n") {
				// a multi-line string: keep its line together
				last = cur
			}
		}
	}
	return r
}

func word(t string) bool { return isIdent(t[0]) || t[0] == '"' || t[0] == '\'' }

var keywords = map[string]bool{"lambda": true, "not": true, "if": true, "else": true, "for": true, "in": true, "and": true, "or": true, "return": true}

func norm(t string) string {
	if t == "" {
		return t
	}
	t, _, _ = strings.Cut(t, "\n")
	return strings.ReplaceAll(t, "'", `"`)
}

func has(l []string, w string) bool {
	for _, x := range l {
		if norm(x) == norm(w) {
			return true
		}
	}
	return false
}

// CheckAssoc compares what the comments of in and out annotate. It returns "" if every comment whose annotated
// token is unique in both texts still annotates it. sorted says that string lists may be sorted in chunks.
func CheckAssoc(in, out string, sorted bool) string {
	di, do := Lex(in), Lex(out)
	if di == nil || do == nil {
		return ""
	}
	count := func(d *Doc) map[string]int {
		m := map[string]int{}
		for _, t := range d.Toks {
			m[norm(t.Text)]++
		}
		return m
	}
	ci, co := count(di), count(do)
	uniq := func(w string) bool { return w != "" && word(w) && ci[norm(w)] == 1 && co[norm(w)] == 1 }
	po := places(do)
	for com, p := range places(di) {
		q, ok := po[com]
		if !ok {
			continue
		}
		opener := p.prev == "(" || p.prev == "[" || p.prev == "{"
		if p.suffix && !opener {
			w := ""
			for k := len(p.line) - 1; k >= 0 && w == ""; k-- {
				if word(p.line[k]) {
					w = p.line[k]
				}
			}
			if !uniq(w) || keywords[w] || p.prev == "*" || p.prev == "**" || p.prev == "," && len(p.line) > 1 && p.line[len(p.line)-2] == "*" {
				continue // in the middle of an expression after a keyword: annotates no operand
			}
			if w[0] == '"' && strings.Count(strings.Join(p.line, " ")+" "+in, "load") > 1 && p.depth == 0 && !q.suffix && q.next == "load" {
				continue // the comment of a merged load statement precedes the merged one
			}
			closed := false // a bracket is closed between w and the comment: it annotates a bracketed expression
			for k := len(p.line) - 1; k >= 0 && !word(p.line[k]); k-- {
				closed = closed || strings.Contains(")]}", p.line[k])
			}
			if closed && (strings.ContainsAny(strings.Join(q.line, ""), ")]}") || !q.suffix && strings.ContainsAny(strings.Join(q.prevLine, ""), ")]}")) {
				continue
			}
			if has(q.line, w) || !q.suffix && has(q.prevLine, w) {
				continue
			}
			return fmt.Sprintf("end-of-line comment %q of %s is now on the line of %v (preceded by %v)", com, w, q.line, q.prevLine)
		}
		if (p.suffix || p.direct) && (p.stmtStart || opener || p.prev == "," || !p.suffix && p.depth > 0) && uniq(p.next) {
			if keywords[p.next] || p.next == "elif" || p.prev == "." {
				continue
			}
			if sorted && p.next[0] == '"' {
				continue
			}
			if norm(q.next) != norm(p.next) {
				// it may have become the end-of-line comment of the same element
				if p.suffix && has(q.line, p.next) {
					continue
				}
				return fmt.Sprintf("comment %q above %s is now above %s", com, p.next, q.next)
			}
		}
	}
	return ""
}
