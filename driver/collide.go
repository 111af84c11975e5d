package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"math/rand"
)

// Values that are easily mistaken for each other by code which compares content by its
// 64 bit xxhash: collide returns two strings of printable characters such that
// prefix+a and prefix+b have the same hash, whatever follows.

const (
	xxP1 uint64 = 11400714785074694791
	xxP2 uint64 = 14029467366897019727
)

func xxRound(acc, x uint64) uint64 { return bits.RotateLeft64(acc+x*xxP2, 31) * xxP1 }

func collide(prefix string) (string, string) {
	r := rand.New(rand.NewSource(int64(len(prefix)) + 7))
	pad := ""
	for (len(prefix)+len(pad))%32 != 0 {
		pad += "p"
	}
	p1, p2 := xxP1, xxP2
	acc := p1 + p2
	head := []byte(prefix + pad)
	for i := 0; i < len(head); i += 32 {
		acc = xxRound(acc, binary.LittleEndian.Uint64(head[i:]))
	}
	// inverse of xxP2 modulo 2^64
	inv := xxP2
	for i := 0; i < 6; i++ {
		inv *= 2 - xxP2*inv
	}
	lane := func() uint64 {
		var b [8]byte
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return binary.LittleEndian.Uint64(b[:])
	}
	text := func(x, y uint64) string {
		b := make([]byte, 64)
		for i := range b {
			b[i] = '.'
		}
		binary.LittleEndian.PutUint64(b, x)
		binary.LittleEndian.PutUint64(b[32:], y)
		return pad + string(b)
	}
	for {
		x, x2, y := lane(), lane(), lane()
		y2 := y + (xxRound(acc, x)-xxRound(acc, x2))*inv
		ok := x != x2
		for v := y2; v != 0 || ok && y2>>56 == 0; v >>= 8 {
			if c := byte(v); c < 33 || c > 126 || c == '=' || c == '\\' || c == '"' {
				ok = false
				break
			}
		}
		if ok && y2>>56 != 0 {
			return text(x, y), text(x2, y2)
		}
	}
}

var (
	// names and schemas that collide
	likeNames, likeSchemas []string
	// string values of attribute "kk" of records, by signal
	likeVals [4][]string
)

// like returns the string that collides with v
func like(v string) string {
	for _, ls := range [][]string{likeNames, likeSchemas, likeVals[1], likeVals[2], likeVals[3]} {
		for i, x := range ls {
			if x == v {
				return ls[i^1]
			}
		}
	}
	return ""
}

func init() {
	a, b := collide("")
	likeNames = []string{a, b}
	size := func(n int) string {
		var s [8]byte
		binary.BigEndian.PutUint64(s[:], uint64(n))
		return string(s[:])
	}
	a, b = collide(size(88))
	likeSchemas = []string{a, b}
	for sig := 1; sig <= 3; sig++ {
		// as the label is spelled
		a, b = collide(fmt.Sprintf("%d:%d:kk=", sig, 7))
		likeVals[sig] = []string{a, b}
		// as it is spelled when results are trimmed
		a, b = collide(size(2) + "kk=")
		likeVals[sig] = append(likeVals[sig], a, b)
	}
}
