// Package gentypes holds struct types whose fields have types of genbase, see there.
package gentypes

import "verifsim/props"

type (
	Reg  = props.GenReg
	Type = props.GenType
)
