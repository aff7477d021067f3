module github.com/kr/text

go 1.21
