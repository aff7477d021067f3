module pvgo

go 1.21.4

require (
	github.com/anacrolix/generics v0.0.2
	github.com/anacrolix/possum/go v0.0.0
)

require (
	github.com/anacrolix/chansync v0.5.1 // indirect
	github.com/anacrolix/missinggo/v2 v2.7.3 // indirect
)

replace (
	github.com/anacrolix/chansync => ./stub/chansync
	github.com/anacrolix/generics => ./stub/generics
	github.com/anacrolix/missinggo => ./stub/empty/github.com-anacrolix-missinggo
	github.com/anacrolix/missinggo/perf => ./stub/empty/github.com-anacrolix-missinggo-perf
	github.com/anacrolix/missinggo/v2 => ./stub/missinggo2
	github.com/anacrolix/possum/go => /repo/go
	github.com/anacrolix/sync => ./stub/empty/github.com-anacrolix-sync
	github.com/go-quicktest/qt => ./stub/empty/github.com-go-quicktest-qt
	github.com/google/go-cmp => ./stub/empty/github.com-google-go-cmp
	github.com/huandu/xstrings => ./stub/empty/github.com-huandu-xstrings
	github.com/kr/pretty => ./stub/empty/github.com-kr-pretty
	github.com/kr/text => ./stub/empty/github.com-kr-text
	github.com/rogpeppe/go-internal => ./stub/empty/github.com-rogpeppe-go-internal
	golang.org/x/exp => ./stub/empty/golang.org-x-exp
)
