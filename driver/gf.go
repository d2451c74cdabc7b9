package main

// The driver's own field GF(2^8)/0x11d, used only to project large results onto
// small ones before TLC sees them (see proj in hist.go and coefficients below).

var gfExp [512]byte
var gfLog [256]int

func init() {
	x := 1
	for i := 0; i < 255; i++ {
		gfExp[i] = byte(x)
		gfExp[i+255] = byte(x)
		gfLog[x] = i
		x <<= 1
		if x >= 256 {
			x ^= 0x11d
		}
	}
}

func gfMul(a, b byte) byte {
	if a == 0 || b == 0 {
		return 0
	}
	return gfExp[gfLog[a]+gfLog[b]]
}

func gfDiv(a, b byte) byte {
	if a == 0 {
		return 0
	}
	return gfExp[gfLog[a]+255-gfLog[b]]
}

// coefMatrix returns B with c[i] = sum_m B[i][m]*y[m] for the coefficients c of the
// polynomial of degree < len(xs) through the points (xs[m], y[m]).
func coefMatrix(xs []byte) [][]byte {
	k := len(xs)
	b := make([][]byte, k)
	for i := range b {
		b[i] = make([]byte, k)
	}
	for m := range xs {
		p := []byte{1}
		den := byte(1)
		for j := range xs {
			if j == m {
				continue
			}
			q := make([]byte, len(p)+1)
			for i, v := range p {
				q[i] ^= gfMul(v, xs[j])
				q[i+1] ^= v
			}
			p = q
			den = gfMul(den, xs[m]^xs[j])
		}
		for i := range p {
			b[i][m] = gfDiv(p[i], den)
		}
	}
	return b
}

// coefficients recovers, from k shares, rows[j] = the k-1 coefficients hiding byte j.
func coefficients(shares [][]byte, k int) [][]byte {
	n := len(shares[0]) - 1
	xs := make([]byte, k)
	for i := range xs {
		xs[i] = shares[i][n]
	}
	b := coefMatrix(xs)
	rows := make([][]byte, n)
	flat := make([]byte, n*(k-1))
	for j := range rows {
		row := flat[j*(k-1) : (j+1)*(k-1)]
		for c := 1; c < k; c++ {
			var v byte
			for m := 0; m < k; m++ {
				v ^= gfMul(b[c][m], shares[m][j])
			}
			row[c-1] = v
		}
		rows[j] = row
	}
	return rows
}
