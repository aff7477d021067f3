module github.com/anacrolix/sync

go 1.21
