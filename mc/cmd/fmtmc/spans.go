package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"verif/mc/core"
	"verif/mc/sem"
)

// C07: the positions of the nodes of a parsed file.

// children are the subexpressions of a node, found by reflection.
func children(x build.Expr) []build.Expr {
	var r []build.Expr
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if v.IsNil() || !v.CanInterface() {
				return
			}
			if e, ok := v.Interface().(build.Expr); ok {
				if _, isEnd := e.(*build.End); !isEnd {
					if f, ok := e.(*build.Function); ok {
						visit(reflect.ValueOf(f).Elem())
						return
					}
					r = append(r, e)
				}
				return
			}
			visit(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		case reflect.Struct:
			switch v.Type().Name() {
			case "Comments", "Position", "End":
				return
			}
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i))
			}
		}
	}
	visit(reflect.ValueOf(x).Elem())
	return r
}

// position checks that the three parts of a position agree.
func position(text string, p build.Position) bool {
	if p.Byte < 0 || p.Byte > len(text) {
		return false
	}
	pre := text[:p.Byte]
	nl := strings.LastIndex(pre, "\n")
	return p.Line == 1+strings.Count(pre, "\n") && p.LineRune == 1+len([]rune(pre[nl+1:]))
}

func kindOf(x build.Expr) string { return strings.TrimPrefix(fmt.Sprintf("%T", x), "*build.") }

// wrap completes the text of a node to a program and finds the node in its tree.
func wrapNode(text, src string, start int, x, parent build.Expr) (*sem.N, error) {
	pick := func(prog string, path ...int) (*sem.N, error) {
		f, err := parseAs("default", prog)
		if err != nil {
			return nil, err
		}
		n := sem.FromBuild(f, false)
		for _, i := range path {
			if i < 0 {
				i += len(n.C)
			}
			if i >= len(n.C) || i < 0 {
				return nil, fmt.Errorf("%q is something else", prog)
			}
			n = n.C[i]
		}
		return n, nil
	}
	if _, ok := x.(*build.IfStmt); ok {
		text = strings.TrimPrefix(text, "el")
	}
	switch x := x.(type) {
	case *build.DefStmt, *build.ForStmt, *build.IfStmt, *build.ReturnStmt, *build.LoadStmt, *build.BranchStmt:
		lead := src[strings.LastIndex(src[:start], "\n")+1 : start]
		if strings.TrimSpace(lead) != "" {
			lead = strings.Repeat(" ", 60) // a statement behind a colon or a semicolon, has no lines of its own
		}
		if lead != "" {
			return pick("if 1:\n"+lead+text+"\n", 0, 1, 0)
		}
		return pick(text+"\n", 0)
	case *build.AssignExpr:
		switch parent.(type) {
		case *build.CallExpr, *build.DefStmt, *build.LambdaExpr:
			return nil, nil
		}
		lead := src[strings.LastIndex(src[:start], "\n")+1 : start]
		if strings.TrimSpace(lead) == "" && lead != "" {
			return pick("if 1:\n"+lead+text+"\n", 0, 1, 0)
		}
		return pick(text+"\n", 0)
	case *build.KeyValueExpr, *build.ForClause, *build.IfClause, *build.TypedIdent, *build.CommentBlock:
		return nil, nil
	case *build.UnaryExpr:
		if x.Op[0] == '*' {
			return nil, nil
		}
	}
	return pick("(\n"+text+"\n)\n", 0)
}

var c07 = &core.Check{ID: "C07", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		nodes := c.Counter("nodes")
		_ = nodes
		ev := core.NewEval(c, "spans", func(in Case) error {
			f, err := parseAs(in.Type, in.Text)
			if err != nil {
				return nil
			}
			c.Outcome([]byte(in.Type + in.Text))
			c.NonTrivial(1)
			text := in.Text
			var visit func(x, parent build.Expr) error
			visit = func(x, parent build.Expr) error {
				kind := kindOf(x)
				s, e := x.Span()
				if _, ok := x.(*build.File); !ok {
					if _, isLoad := parent.(*build.LoadStmt); isLoad && kind == "Ident" && strings.Contains(text, "'''") {
						return nil // a symbol of a load statement in an unusual string
					}
					if !position(text, s) || !position(text, e) {
						return core.Failf("position/"+kind, "%s: start %v, end %v\n%s", kind, s, e, text)
					}
					if _, ok := x.(*build.CommentBlock); ok {
						return nil
					}
					if s.Byte >= e.Byte {
						return core.Failf("empty/"+kind, "%s: from %v to %v\n%s", kind, s, e, text)
					}
					got := text[s.Byte:e.Byte]
					if endsWithComment(x) {
						// a block ends where its last comment starts
						got = strings.TrimRight(got, " \t\r\n")
					}
					if strings.TrimSpace(got) != got {
						return core.Failf("blank/"+kind, "%s: %q\n%s", kind, got, text)
					}
					if parent != nil {
						if ps, pe := parent.Span(); kindOf(parent) != "File" && (s.Byte < ps.Byte || e.Byte > pe.Byte) {
							return core.Failf("outside/"+kindOf(parent)+"."+kind, "%s %q isn't a part of its %s %q\n%s", kind, got, kindOf(parent), text[ps.Byte:pe.Byte], text)
						}
					}
					if _, isLoad := parent.(*build.LoadStmt); !isLoad || kind != "Ident" {
						want := sem.FromBuildExpr(x, false)
						n, err := wrapNode(got, text, s.Byte, x, parent)
						if err != nil {
							return core.Failf("text/"+kind, "%s: the text %q of the node doesn't parse: %v\n%s", kind, got, err, text)
						}
						if n != nil && n.String() != want.String() {
							return core.Failf("meaning/"+kind, "%s: the text %q of the node means %s, the node %s\n%s", kind, got, n, want, text)
						}
					}
				}
				for _, y := range children(x) {
					if err := visit(y, x); err != nil {
						return err
					}
				}
				return nil
			}
			return visit(f, nil)
		})
		core.Stream(c, func(emit func(Case) bool) {
			source(c, func(x Case) bool {
				if x.Type != "build" && x.Type != "default" {
					return true
				}
				if !emit(x) {
					return false
				}
				if y := strings.NewReplacer("\"a\"", "\"é€\"", "# c", "# é", "\"b\"", "'''ü\\n'''").Replace(x.Text); y != x.Text {
					if !emit(Case{x.Type, y}) {
						return false
					}
				}
				return x.Type != "build" || emit(Case{x.Type, strings.ReplaceAll(x.Text, "\n", "\r\n")})
			})
			c.Bound("the same with non-ASCII strings and comments and with CRLF line breaks")
		}, func(x Case) { ev.Do(x) })
	}}

func endsWithComment(x build.Expr) bool {
	var l []build.Expr
	switch x := x.(type) {
	case *build.CommentBlock:
		return true
	case *build.DefStmt:
		l = x.Body
	case *build.ForStmt:
		l = x.Body
	case *build.IfStmt:
		l = x.True
		if len(x.False) > 0 {
			l = x.False
		}
	}
	return len(l) > 0 && endsWithComment(l[len(l)-1])
}
