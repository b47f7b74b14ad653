package gen

import (
	_ "embed"
	"strings"
)

//go:embed seeds.txt
var seedText string

// Seed is one hand-written program.
type Seed struct {
	Name string
	Text string
}

// Seeds returns the embedded seed programs (separated by "=== name" lines).
func Seeds() []Seed {
	var r []Seed
	for _, p := range strings.Split("\n"+seedText, "\n=== ") {
		if strings.TrimSpace(p) == "" {
			continue
		}
		name, body, _ := strings.Cut(p, "\n")
		r = append(r, Seed{name, strings.TrimRight(body, "\n") + "\n"})
	}
	return r
}
