module github.com/google/go-cmp

go 1.21
