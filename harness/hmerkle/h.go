// Package hmerkle holds harnesses for the Merkle tree helpers.
package hmerkle

import (
	"bytes"

	"gosymharness/symrt"

	"github.com/continusec/verifiabledatastructures/merkle"
)

// CalcKSpec: k is the largest power of two less than n.
func CalcK() {
	n := symrt.Int64("n")
	symrt.Assume(n >= 2)
	k := merkle.CalcK(n)
	symrt.Reach("checked")
	symrt.Assert(symrt.And(k >= 1, k < n, k&(k-1) == 0, n-k <= k), "CalcK is the largest power of two smaller than n")
}

func Pow2() {
	n := symrt.Int64("n")
	symrt.Assume(n >= 0)
	symrt.Reach("checked")
	symrt.Assert(merkle.IsPow2(n) == symrt.And(n > 0, n&(n-1) == 0), "IsPow2")
}

func Node() {
	a, b := symrt.Hash("a"), symrt.Hash("b")
	symrt.Assert(symrt.Implies(bytes.Equal(merkle.NodeHash(a, b), merkle.NodeHash(b, a)), bytes.Equal(a, b)), "x")
	symrt.Reach("checked")
	symrt.Assert(symrt.Not(bytes.Equal(merkle.NodeHash(a, b), merkle.LeafHash(a))), "y")
}
