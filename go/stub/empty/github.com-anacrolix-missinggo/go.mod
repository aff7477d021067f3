module github.com/anacrolix/missinggo

go 1.21
