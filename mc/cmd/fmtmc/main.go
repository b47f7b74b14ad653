package main

import "verif/mc/core"

func main() { core.Main(checks) }

var checks = []*core.Check{c01, c02, c03, c04, c05, c06, c07, c08, c36, c38, c39, c45, c49}
