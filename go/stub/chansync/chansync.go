// Package chansync has what the Go binding uses of github.com/anacrolix/chansync, which isn't available here.
package chansync

import "sync"

// SetOnce is a flag that can be waited for.
type SetOnce struct {
	mu sync.Mutex
	ch chan struct{}
	is bool
}

func (me *SetOnce) done() chan struct{} {
	if me.ch == nil {
		me.ch = make(chan struct{})
	}
	return me.ch
}

// Set returns whether it wasn't set before.
func (me *SetOnce) Set() bool {
	me.mu.Lock()
	defer me.mu.Unlock()
	if me.is {
		return false
	}
	me.is = true
	close(me.done())
	return true
}

func (me *SetOnce) IsSet() bool {
	me.mu.Lock()
	defer me.mu.Unlock()
	return me.is
}

func (me *SetOnce) Done() <-chan struct{} {
	me.mu.Lock()
	defer me.mu.Unlock()
	return me.done()
}
