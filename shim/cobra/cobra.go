// Package cobra models command-line commands and their flags.
package cobra

import (
	"errors"
	"strconv"
)

// Value is a flag's value.
type Value interface {
	String() string
	Set(string) error
	Type() string
}

type val struct{ s, t string }

func (v *val) String() string { return v.s }
func (v *val) Type() string   { return v.t }
func (v *val) Set(s string) error {
	if v.t == "bool" {
		if _, err := strconv.ParseBool(s); err != nil {
			return err
		}
	}
	v.s = s
	return nil
}

// Flag is a flag.
type Flag struct {
	Name, Shorthand, Usage string
	Value                  Value
	DefValue               string
	Changed                bool
}

// FlagSet are a command's flags.
type FlagSet struct{ flags []*Flag }

func (f *FlagSet) add(name, short, def, usage, t string) *Flag {
	g := &Flag{Name: name, Shorthand: short, Usage: usage, DefValue: def, Value: &val{def, t}}
	f.flags = append(f.flags, g)
	return g
}

// StringP adds a flag.
func (f *FlagSet) StringP(name, shorthand, value, usage string) *string {
	f.add(name, shorthand, value, usage, "string")
	return &value
}

// String adds a flag.
func (f *FlagSet) String(name, value, usage string) *string {
	return f.StringP(name, "", value, usage)
}

// BoolP adds a flag.
func (f *FlagSet) BoolP(name, shorthand string, value bool, usage string) *bool {
	f.add(name, shorthand, strconv.FormatBool(value), usage, "bool")
	return &value
}

// Bool adds a flag.
func (f *FlagSet) Bool(name string, value bool, usage string) *bool {
	return f.BoolP(name, "", value, usage)
}

// Lookup finds a flag.
func (f *FlagSet) Lookup(name string) *Flag {
	for _, g := range f.flags {
		if g.Name == name {
			return g
		}
	}
	return nil
}

// Set sets a flag.
func (f *FlagSet) Set(name, value string) error {
	g := f.Lookup(name)
	if g == nil {
		return errors.New("no such flag -" + name)
	}
	g.Changed = true
	return g.Value.Set(value)
}

// GetString returns a flag's value.
func (f *FlagSet) GetString(name string) (string, error) {
	g := f.Lookup(name)
	if g == nil {
		return "", errors.New("flag accessed but not defined: " + name)
	}
	return g.Value.String(), nil
}

// GetBool returns a flag's value.
func (f *FlagSet) GetBool(name string) (bool, error) {
	g := f.Lookup(name)
	if g == nil {
		return false, errors.New("flag accessed but not defined: " + name)
	}
	return strconv.ParseBool(g.Value.String())
}

// Command is a command.
type Command struct {
	Use, Short, Long, Example string
	Run                       func(cmd *Command, args []string)
	RunE                      func(cmd *Command, args []string) error
	flags                     FlagSet
	cmds                      []*Command
}

// AddCommand adds subcommands.
func (c *Command) AddCommand(cmds ...*Command) { c.cmds = append(c.cmds, cmds...) }

// Commands returns the subcommands.
func (c *Command) Commands() []*Command { return c.cmds }

// Flags returns the flags.
func (c *Command) Flags() *FlagSet { return &c.flags }

// PersistentFlags returns the flags.
func (c *Command) PersistentFlags() *FlagSet { return &c.flags }

// Flag finds a flag.
func (c *Command) Flag(name string) *Flag { return c.flags.Lookup(name) }

// Name is the command's name.
func (c *Command) Name() string {
	for i := 0; i < len(c.Use); i++ {
		if c.Use[i] == ' ' {
			return c.Use[:i]
		}
	}
	return c.Use
}

// Args are the command-line arguments of the program: a subcommand, then
// --flag=value arguments, already separated.
var Args []string

// Flags are set before the command runs: name, value.
var Flags [][2]string

// Execute runs the subcommand named by Args.
func (c *Command) Execute() error {
	if len(Args) == 0 {
		return nil
	}
	for _, s := range c.cmds {
		if s.Name() != Args[0] {
			continue
		}
		for _, f := range Flags {
			if err := s.flags.Set(f[0], f[1]); err != nil {
				return err
			}
		}
		if s.RunE != nil {
			return s.RunE(s, Args[1:])
		}
		s.Run(s, Args[1:])
		return nil
	}
	return errors.New("unknown command " + Args[0])
}
