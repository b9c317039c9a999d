// rmdtab prints the digests of prefixes of the long stream, by the reference implementation.
package main

import (
	"fmt"

	"verifsim/core"
	"verifsim/ref"
)

func main() {
	for _, s := range []string{"", "abc", "message digest", "12345678901234567890123456789012345678901234567890123456789012345678901234567890"} {
		fmt.Printf("// %q %x\n", s, ref.Rmd160([]byte(s)))
	}
	blk := make([]byte, 65521)
	core.NewRng(20).Fill(blk)
	d := ref.NewRmd()
	pos := uint64(0)
	to := func(n uint64) {
		for pos < n {
			o := pos % 65521
			k := min(65521-o, n-pos)
			d.Add(blk[o : o+k])
			pos += k
		}
		fmt.Printf("\t{%d, \"%x\"},\n", n, d.Digest())
	}
	for _, b := range []uint64{1 << 24, 1 << 28, 1 << 29, 1 << 30, 1 << 31, 1 << 32, 1<<32 + 1<<29} {
		for _, o := range []int64{-64, -1, 0, 1, 55, 56, 64, 100} {
			to(uint64(int64(b) + o))
		}
	}
}
