package cm

import "math"

func bits(v float64) uint64 { return math.Float64bits(v) }

func negZero() float64 { return math.Copysign(0, -1) }
