module golang.org/x/sys

go 1.20
