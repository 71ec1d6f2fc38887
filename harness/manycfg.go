package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/sp301415/tfhe-go/xtfhe"
)

// x03Cfg is a set for several tables.
type x03Cfg[T TI] struct {
	Cfg[T]
	count int
}

func (c x03Cfg[T]) lit() xtfhe.ManyLUTParametersLiteral[T] {
	return xtfhe.ManyLUTParametersLiteral[T]{BaseParams: c.Lit, LUTCount: c.count}
}

// x03Rand draws a set whose rounding errors stay within half an interval of the smaller tables.
func x03Rand[T TI](g *rand.Rand) x03Cfg[T] {
	for {
		c := randCfg[T](g)
		N := c.Lit.PolyRank
		if max(c.Lit.LUTSize, N) != N {
			continue
		}
		count := 1 << g.IntN(7)
		slots := N / count
		h := c.Lit.LWEDimension/max(c.Lit.BlockSize, 1) + 1
		if slots < 4 || float64(h)/2+2 >= float64(slots)/(2*float64(c.Lit.MessageModulus)) {
			continue
		}
		c.Name += fmt.Sprintf("_luts%d", count)
		return x03Cfg[T]{c, count}
	}
}
