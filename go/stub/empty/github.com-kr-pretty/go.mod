module github.com/kr/pretty

go 1.21
