module github.com/rogpeppe/go-internal

go 1.21
