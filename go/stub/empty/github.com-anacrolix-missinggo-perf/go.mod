module github.com/anacrolix/missinggo/perf

go 1.21
