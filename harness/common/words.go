package common

import "github.com/ndau/ndaumath/verifh/vh"

// Words gives n arbitrary bytes (n a multiple of 8), made of 64-bit words.
func Words(name string, n int) []byte {
	var o []byte
	for i := 0; i < n; i += 8 {
		w := vh.U64(name + string(rune('a'+i/8)))
		for k := 56; k >= 0; k -= 8 {
			o = append(o, byte(w>>uint(k)))
		}
	}
	return o
}
