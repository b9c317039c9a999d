// Package genbase holds generated struct types and the code generator's methods for them. Its other
// files are written by cmd/gentool and cmd/gencode for every check.
package genbase

import "verifsim/props"

type (
	Reg  = props.GenReg
	Type = props.GenType
)
