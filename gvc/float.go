package main

import (
	"fmt"
	"math"
)

func floatLit(f float64) string {
	b := math.Float64bits(f)
	return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
}
