package gen

import "strings"

// Atoms are leaf expressions.
var Atoms = []string{
	"a", "1", `"s"`, "[]", "{}", "()", "f()", "x.y", `'it'`, "0x1F", "1.5", "True", "r'\\d'", "-1", `"""t"""`,
}

// ExprCtx are expression contexts: "$" is the hole (a test), "%" a second hole filled with the same family.
var ExprCtx = []string{
	"$",
	"($)",
	"[$]", "[$, b]", "[b, $]", "[$,]",
	"($,)", "($, b)", "(b, $)",
	"{$: v}", "{k: $}", "{k: $, l: m}", "{$: v,}",
	"{$, b}",
	"f($)", "f($, b)", "f(b, $)", "f(k = $)", "f(k = $, l = m)", "f(*$)", "f(**$)", "f(b, *$, **c)", "f(k = b, *$)", "f($,)",
	"($).m", "($)[i]", "($)(b)", "a[$]", "a[$:]", "a[:$]", "a[b:$:c]", "a[::$]", "a[b:c:$]",
	"-$", "+$", "~$", "not $", "- -$", "not not $",
	"$ + b", "b + $", "$ - b", "b - $", "$ * b", "b * $", "$ / b", "$ // b", "b // $", "$ % b", "b % $",
	"$ and b", "b and $", "$ or b", "b or $", "$ == b", "b == $", "$ != b", "$ < b", "b >= $", "$ in b", "b in $", "$ not in b", "b not in $",
	"$ | b", "b | $", "$ & b", "b & $", "$ ^ b", "$ << b", "b >> $",
	"$ if b else c", "b if $ else c", "b if c else $",
	"[$ for i in b]", "[i for i in $]", "[i for i in b if $]", "[i for i in b for j in $]", "[i for i, j in b if c if $ for k in d]",
	"{$: v for i in b}", "{k: $ for i in b}", "{k: v for i in $ if b}",
	"lambda: $", "lambda x: $", "lambda x, y = $, *z, **w: x", "(lambda x: x)($)",
	"[$ + b]", "f(a + $)", "($) + b", "b + ($)", "($ + b) * c", "c * (b - $)", "(not $) == b", "-($)", "not ($)", "(b, $)[0]", "[b, $].m(c)", "f(b)($).g",
	"select({k: $, \"//conditions:default\": b})",
	"[b, c] + $", "$ + [b, c]", "glob($) + d", "f(g(h($)))", "f([$], {k: b})", "a.b.c($)",
	"%1 % $", "$ + (b + c)", "$ - (b - c)", "(b if c else d) if $ else e", "b if c else (d if $ else e)",
	"(a == b) == $", "(lambda: $, b)", "(lambda: ($, b))", "(a in b) in $", "(yield_, $)",
}

// StmtCtx are statement contexts: "$" is an expression.
var StmtCtx = []string{
	"$\n",
	"v = $\n",
	"v += $\n", "v -= $\n", "v *= $\n", "v /= $\n", "v //= $\n", "v %= $\n", "v |= $\n",
	"v, w = $\n", "(v, w) = $\n", "[v, w] = $\n", "v[i] = $\n", "v.m = $\n", "v[$] = w\n", "v = w, $\n",
	"def f():\n    return $\n",
	"def f(p = $):\n    pass\n",
	"def f(p, *q, r = $, **s):\n    x = 1\n    return x, $\n",
	"def f(p: T = $, *q: int) -> T:\n    return\n",
	"if $:\n    a()\n",
	"if $:\n    a()\nelif b:\n    c()\nelse:\n    d()\n",
	"if b:\n    c()\nelif $:\n    d()\n",
	"if b:\n    $\nelse:\n    $\n",
	"for x in $:\n    a()\n",
	"for x, y in $:\n    if x:\n        continue\n    break\n",
	"for x in b:\n    $\n    pass\n",
	"def f():\n    for x in b:\n        if c:\n            v = $\n        else:\n            return $\n    pass\n",
	"def f():\n    def g():\n        $\n    return g\n",
	"if b: $\n",
	"def f(): return $\n",
	"a; $; b\n",
	"rule(name = \"r\", deps = $, srcs = b)\n",
	"rule(\n    name = \"r\",\n    x = $,\n)\n",
	"native.rule(name = \"r\", srcs = $)\n",
	"cc_library(name = \"r\", srcs = $, deps = select({\"a\": $}))\n",
}

// Fill substitutes e for the hole.
func Fill(ctx, e string) string { return strings.ReplaceAll(ctx, "$", e) }

// Exprs enumerates expressions of nesting depth exactly 1..depth over the contexts.
func Exprs(depth int, ctxs, atoms []string) []string {
	cur := atoms
	out := append([]string{}, atoms...)
	for d := 0; d < depth; d++ {
		var next []string
		for _, c := range ctxs {
			for _, e := range cur {
				next = append(next, Fill(c, e))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}
