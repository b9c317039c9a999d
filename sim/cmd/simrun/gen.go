//go:build simgen

package main

import (
	"verifsim/genbase"
	"verifsim/gentypes"
	"verifsim/props"
)

func init() {
	props.RegisterGen(genbase.All)
	props.RegisterGen(gentypes.All)
}
