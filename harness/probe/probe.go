// Package probe reads values the way a client would.  It is compiled with race
// instrumentation, so that a client's read of shared data is seen by the detector.
package probe

import "github.com/wearelumenai/distclus/core"

// Clust reads all the centroids.
func Clust(c core.Clust) [][]float64 {
	var out [][]float64
	for _, e := range c {
		out = append(out, Elemt(e))
	}
	return out
}

// Elemt reads a vector.
func Elemt(e core.Elemt) []float64 {
	var v, ok = e.([]float64)
	if !ok {
		return nil
	}
	var out = make([]float64, len(v))
	for i := range v {
		out[i] = v[i]
	}
	return out
}

// Figures reads all the figures.
func Figures(f core.RuntimeFigures) map[string]float64 {
	var out = map[string]float64{}
	for k, v := range f {
		out[k] = v
	}
	return out
}

// Iterations reads one figure.
func Iterations(f core.RuntimeFigures) int { return int(f[core.Iterations]) }
