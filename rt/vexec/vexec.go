// Package vexec is os/exec limited to the commands metis runs, on the simulated
// file system.
package vexec

import (
	"errors"

	"github.com/IfanTsai/metis/verif/vos"
)

type Cmd struct {
	name string
	args []string
}

func dir(name string) string {
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			return name[:i]
		}
	}
	return "."
}

func Command(name string, args ...string) *Cmd { return &Cmd{name, args} }

func (c *Cmd) Run() error {
	var a []string
	for _, x := range c.args {
		if x == "-f" || x == "--" {
			continue
		}
		a = append(a, x)
	}
	switch {
	case c.name == "mv" && len(a) == 2:
		if dir(a[0]) == dir(a[1]) {
			return vos.Rename(a[0], a[1])
		}
		// possibly another file system: a copy, step by step
		b, err := vos.ReadFile(a[0])
		if err != nil {
			return err
		}
		if err := vos.WriteFile(a[1], b, 0o600); err != nil {
			return err
		}
		return vos.Remove(a[0])
	case c.name == "rm":
		for _, f := range a {
			vos.Remove(f)
		}
		return nil
	case c.name == "cp" && len(a) == 2:
		b, err := vos.ReadFile(a[0])
		if err != nil {
			return err
		}
		return vos.WriteFile(a[1], b, 0o644)
	}
	return errors.New("exec: " + c.name + ": not available in the simulation")
}

func (c *Cmd) Output() ([]byte, error)         { return nil, c.Run() }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }
func (c *Cmd) Start() error                    { return c.Run() }
func (c *Cmd) Wait() error                     { return nil }
