module zsim

go 1.21.0

require golang.org/x/sys v0.12.0
