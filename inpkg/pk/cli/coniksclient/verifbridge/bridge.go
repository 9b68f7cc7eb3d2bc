// Package verifbridge lets the harnesses reach the command line of coniksclient.
package verifbridge

import (
	"github.com/coniks-sys/coniks-go/cli"
	"github.com/coniks-sys/coniks-go/cli/coniksclient/internal/cmd"
)

// Execute runs the program.
func Execute() { cli.Execute(cmd.RootCmd) }
