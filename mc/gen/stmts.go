package gen

import (
	"fmt"
	"strings"
)

// Stmts are the statements that sequences are built of ("%" is replaced by the position in the sequence).
var Stmts = []string{
	"x% = 1", "f%()", "f%(\n    a,\n)", `load(":b%.bzl", "s%")`, `load(":a.bzl", "t%", u% = "v")`,
	"# block %\n", "def g%():\n    pass", "def h%(a):\n    x = 1\n\n    # inner %\n", "if a:\n    b()\nelse:\n    c()", "for i in y:\n    z(i)  # suffix %",
	`"""doc %"""`, `package(default_visibility = ["//v%"])`, `cc_library(name = "n%")`,
	"# before %\nw% = [\n    1,\n]", "v%()  # after %", "for i in y:\n    if i:\n        k()\n    # deep %\n",
}

// ModuleStmts are statements with a meaning of their own in MODULE.bazel, WORKSPACE and BUILD files.
var ModuleStmts = []string{
	`module(name = "m")`, `bazel_dep(name = "d%")`, `bazel_dep(name = "e", dev_dependency = True)`, `archive_override(module_name = "d%")`, `git_override(module_name = "e")`,
	`e1 = use_extension("//:e.bzl", "e1")`, `e2 = use_extension("//:e.bzl", "e2", dev_dependency = True)`, `e1.tag(name = "t%")`, `use_repo(e1, "r%", "a", "b%")`, `use_repo(e2, "q%", x = "y")`,
	`include("//:i%.MODULE.bazel")`, `register_toolchains("//t:%")`, `x% = 1`, "# block\n", `workspace(name = "w")`, `load(":b%.bzl", "s%")`,
	`http_archive(name = "h%")`, `bind(name = "b%", actual = "@h//:%")`,
}

// Seps separate two statements.
var Seps = []string{"\n", "\n\n", "\n# c%\n", "\n\n# c%\n", "\n# c%\n\n", "\n\n# c%\n\n", "  # e%\n", "\n\n\n"}

// Sequences emits all sequences of n statements with every separator between them (and before the first and after the last
// for n=1), nested in the given block header ("" for the top level).
func Sequences(stmts, seps []string, n int, header string, emit func(string) bool) bool {
	var rec func(k int, text string) bool
	rec = func(k int, text string) bool {
		for _, s := range stmts {
			t := text + strings.ReplaceAll(s, "%", fmt.Sprint(k))
			if k == n {
				out := t
				if !strings.HasSuffix(out, "\n") {
					out += "\n"
				}
				if !emit(indent(header, out)) {
					return false
				}
				continue
			}
			for _, sep := range seps {
				sp := strings.ReplaceAll(sep, "%", fmt.Sprint(k))
				if strings.HasSuffix(t, "\n") && strings.HasPrefix(sp, " ") {
					continue
				}
				if strings.HasSuffix(t, "\n") {
					sp = sp[1:]
				}
				if !rec(k+1, t+sp) {
					return false
				}
			}
		}
		return true
	}
	return rec(1, "")
}

func indent(header, body string) string {
	if header == "" {
		return body
	}
	lines := strings.Split(body, "\n")
	for i, l := range lines {
		if l != "" {
			lines[i] = "    " + l
		}
	}
	return header + "\n" + strings.Join(lines, "\n") + "end = 1\n"
}

// Words emits all words of length 1..n over the alphabet, joined by sep.
func Words(alphabet []string, n int, sep string, emit func(string) bool) bool {
	var rec func(w []string) bool
	rec = func(w []string) bool {
		if len(w) > 0 && !emit(strings.Join(w, sep)) {
			return false
		}
		if len(w) == n {
			return true
		}
		for _, a := range alphabet {
			if !rec(append(w[:len(w):len(w)], a)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

// Long emits sequences longer than the threshold below which sorting algorithms are trivially stable: n items, all equal to
// items[0] except for at most k positions holding any other item ("%" is replaced by the position).
func Long(items []string, n, k int, sep string, emit func(string) bool) bool {
	w := make([]string, n)
	for i := range w {
		w[i] = strings.ReplaceAll(items[0], "%", fmt.Sprintf("%c", 'z'-i))
	}
	var rec func(from, k int) bool
	rec = func(from, k int) bool {
		if !emit(strings.Join(w, sep)) {
			return false
		}
		if k == 0 {
			return true
		}
		for i := from; i < n; i++ {
			old := w[i]
			for _, it := range items[1:] {
				w[i] = strings.ReplaceAll(it, "%", fmt.Sprintf("%c", 'z'-i))
				if !rec(i+1, k-1) {
					return false
				}
			}
			w[i] = old
		}
		return true
	}
	return rec(0, k)
}
