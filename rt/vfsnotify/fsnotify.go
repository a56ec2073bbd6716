// Package vfsnotify stands for the part of fsnotify that a handler of configuration changes sees.
package vfsnotify

type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

func (o Op) Has(h Op) bool { return o&h != 0 }

type Event struct {
	Name string
	Op   Op
}

func (e Event) Has(op Op) bool { return e.Op.Has(op) }
func (e Event) String() string { return e.Name }
