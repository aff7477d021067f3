// Package resource has what the Go binding uses of github.com/anacrolix/missinggo/v2/resource, which isn't available
// here.
package resource

import (
	"io"
	"os"
)

type Provider interface {
	NewInstance(string) (Instance, error)
}

type Instance interface {
	Get() (io.ReadCloser, error)
	Put(io.Reader) error
	Stat() (os.FileInfo, error)
	ReadAt([]byte, int64) (int, error)
	WriteAt([]byte, int64) (int, error)
	Delete() error
}

type DirInstance interface {
	Readdirnames() ([]string, error)
}
