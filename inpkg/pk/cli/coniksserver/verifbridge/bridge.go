// Package verifbridge lets the harnesses reach the command line of coniksserver.
package verifbridge

import (
	"github.com/coniks-sys/coniks-go/cli"
	"github.com/coniks-sys/coniks-go/cli/coniksserver/internal/cmd"
)

// Execute runs the program.
func Execute() { cli.Execute(cmd.RootCmd) }
