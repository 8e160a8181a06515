package exec

import "unicode"

// foldOrbit lists the runes equal to r under simple case folding.
func foldOrbit(r rune) []rune {
	o := []rune{r}
	for q := unicode.SimpleFold(r); q != r; q = unicode.SimpleFold(q) {
		o = append(o, q)
	}
	return o
}
