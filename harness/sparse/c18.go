package sparse

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"pol/verifh"
	"reflect"
	"strings"
	"testing"
)

// value of a path read as a number in the base of the fan-out, least significant digit first
func number(path []uint16, fo uint16) *big.Int {
	r := new(big.Int)
	for i := len(path) - 1; i >= 0; i-- {
		r.Mul(r, big.NewInt(int64(fo)))
		r.Add(r, big.NewInt(int64(path[i])))
	}
	return r
}

func TestVerif_C18_decimal(t *testing.T) {
	h := verifh.New(t)
	space := new(big.Int).Exp(big.NewInt(10), big.NewInt(9), nil)
	for k := 2; k <= 15; k++ {
		fo := uint16(1)<<uint(k) - 1
		plen := DigitPathLen(fo)
		p := new(big.Int).Exp(big.NewInt(int64(fo)), big.NewInt(int64(plen)), nil)
		h.Ok(p.Cmp(space) > 0, "DigitPathLen(%d)=%d has room for nine digits", fo, plen)
		f := DigitPath(fo)
		var ids []string
		for _, n := range []int64{0, 1, int64(fo) - 1, int64(fo), int64(fo) + 1, 65535, 65536, 100000000, 999999998, 999999999} {
			ids = append(ids, fmt.Sprintf("%09d", n))
		}
		x := big.NewInt(1)
		for x.Cmp(space) < 0 {
			ids = append(ids, fmt.Sprintf("%09d", x), fmt.Sprintf("%09d", new(big.Int).Sub(x, big.NewInt(1))))
			x.Mul(x, big.NewInt(int64(fo)))
		}
		for i := 0; i < verifh.Pick(40, 1000); i++ {
			ids = append(ids, fmt.Sprintf("%09d", h.Rng.Intn(1000000000)>>uint(h.Rng.Intn(30))))
		}
		seen := map[string]string{}
		for _, id := range ids {
			var path []uint16
			pan := verifh.Panics(func() { path = f(id) })
			h.Ok(pan == nil && len(path) == plen, "path of %s has length %d, fan-out %d, want %d (%v)", id, len(path), fo, plen, pan)
			for _, c := range path {
				h.Ok(c < fo, "component %d of the path of %s, fan-out %d", c, id, fo)
			}
			want, _ := new(big.Int).SetString(id, 10)
			h.Ok(number(path, fo).Cmp(want) == 0, "path %v of %s in base %d", path, id, fo)
			s := fmt.Sprint(path)
			h.Ok(seen[s] == "" || seen[s] == id, "%s and %s share a path, fan-out %d", seen[s], id, fo)
			seen[s] = id
			h.Ok(reflect.DeepEqual(f(id), path), "path of %s is deterministic", id)
		}
		for _, bad := range []string{"", "1", "12345678", "1234567890", "12345678a", "-12345678", "+12345678", " 12345678", "12345678 ", "1_2345678", "0x1234567", "1e0000000", "12345.678", "１２３"} {
			h.Ok(verifh.Panics(func() { f(bad) }) != nil, "malformed identifier %q refused, fan-out %d", bad, fo)
		}
	}
	for _, fo := range []uint16{2, 4, 5, 6, 8, 9, 100, 256, 65534} {
		h.Ok(verifh.Panics(func() { DigitPath(fo) }) != nil, "fan-out %d refused", fo)
		h.Ok(verifh.Panics(func() { HexId2PathForFanOut(fo) }) != nil, "fan-out %d refused", fo)
	}
}

func TestVerif_C18_hexadecimal(t *testing.T) {
	h := verifh.New(t)
	lens := map[uint16]int{3: 162, 7: 92 - 1, 15: 66, 31: 52, 63: 43, 127: 37, 255: 32 + 0, 511: 29, 1023: 26, 2047: 24, 4095: 22, 8191: 20, 16383: 19}
	for fo, plen := range ExpectedHexPathLengthByFanOut {
		h.Ok(lens[fo] == plen, "path length of fan-out %d is %d", fo, plen)
		f := HexId2PathForFanOut(fo)
		seen := map[string]string{}
		for i := 0; i < verifh.Pick(25, 300); i++ {
			b := make([]byte, 32)
			h.Rng.Read(b)
			switch i % 6 {
			case 1:
				b = b[:h.Rng.Intn(32)+1]
			case 2:
				b[0] = 0
			case 3:
				b[0] |= 0x80
			}
			id := hex.EncodeToString(b)
			if i%5 == 4 {
				id = strings.ToUpper(id)
			}
			if i == 0 {
				id = strings.Repeat("f", 64)
			}
			var path []uint16
			pan := verifh.Panics(func() { path = f(id) })
			h.Ok(pan == nil && len(path) == plen, "path of %s has length %d, fan-out %d, want %d (%v)", id, len(path), fo, plen, pan)
			for _, c := range path {
				h.Ok(c < fo, "component %d of the path of %s, fan-out %d", c, id, fo)
			}
			// the number, or its first hash of fitting size
			s := id
			n := 0
			for ; ; n++ {
				x, _ := new(big.Int).SetString(s, 16)
				l := 0
				for y := new(big.Int).Set(x); y.Sign() > 0; y.Div(y, big.NewInt(int64(fo))) {
					l++
				}
				if l == plen {
					h.Ok(number(path, fo).Cmp(x) == 0, "path of %s in base %d", id, fo)
					break
				}
				d := sha256.Sum256([]byte(s))
				s = hex.EncodeToString(d[:])
			}
			x, _ := new(big.Int).SetString(id, 16)
			if n == 0 {
				k := fmt.Sprint(path)
				h.Ok(seen[k] == "" || seen[k] == x.String(), "two identifiers share a path, fan-out %d", fo)
				seen[k] = x.String()
			}
			h.Ok(reflect.DeepEqual(f(id), path), "path of %s is deterministic", id)
			h.Ok(verifh.Panics(func() { f("-" + id) }) != nil, "negative identifier refused")
		}
		for _, bad := range []string{"", "-1", "xyz", "0x12", "-" + strings.Repeat("f", 64), "12 34", "g" + strings.Repeat("f", 63)} {
			h.Ok(verifh.Panics(func() { f(bad) }) != nil, "malformed identifier %q refused, fan-out %d", bad, fo)
		}
	}
}
