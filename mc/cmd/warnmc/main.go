package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

func main() { core.Main(checks) }

var checks = []*core.Check{c27, c28, c29, c31, c32, c33, c34, c40, c41, c42, c43, c46, c47, c48}

var names = map[string]string{"build": "BUILD", "bzl": "f.bzl", "workspace": "WORKSPACE", "module": "MODULE.bazel", "default": "f.star"}

var types = []string{"build", "bzl", "workspace", "module", "default"}

// parse reads a file as buildifier does.
func parse(typ, text string) (*build.File, error) {
	var f *build.File
	var err error
	data := []byte(text)
	switch typ {
	case "build":
		f, err = build.ParseBuild("p/BUILD", data)
	case "bzl":
		f, err = build.ParseBzl("p/f.bzl", data)
	case "workspace":
		f, err = build.ParseWorkspace("WORKSPACE", data)
	case "module":
		f, err = build.ParseModule("MODULE.bazel", data)
	default:
		f, err = build.ParseDefault("p/f.star", data)
	}
	if err != nil {
		return nil, err
	}
	f.Pkg, f.Label, f.WorkspaceRoot = "p", names[typ], "/w"
	if typ == "workspace" || typ == "module" {
		f.Pkg = ""
	}
	return f, nil
}

// lines are the lines and categories of the findings.
func lines(l []*warn.Finding) []string {
	var r []string
	for _, f := range l {
		r = append(r, fmt.Sprintf("%d %s", f.Start.Line, f.Category))
	}
	sort.Strings(r)
	return r
}

func same(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }
