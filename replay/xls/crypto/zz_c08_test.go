package crypto

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
	"testing"
	"time"
)

// vDigest: the password digest of [MS-OFFCRYPTO] 2.3.6.2
func vDigest(password string, salt []byte) []byte {
	var p []byte
	for _, c := range []byte(password) {
		p = append(p, c, 0)
	}
	h := md5.Sum(p)
	var all []byte
	for i := 0; i < 16; i++ {
		all = append(all, h[:5]...)
		all = append(all, salt...)
	}
	d := md5.Sum(all)
	return d[:]
}

// vStream: the keystream of positions 0..n-1
func vStream(digest []byte, n int) []byte {
	var out []byte
	for b := uint32(0); len(out) < n; b++ {
		k := append([]byte{}, digest[:5]...)
		var num [4]byte
		binary.LittleEndian.PutUint32(num[:], b)
		k = append(k, num[:]...)
		m := md5.Sum(k)
		c, _ := rc4.NewCipher(m[:])
		blk := make([]byte, 1024)
		c.XORKeyStream(blk, blk)
		out = append(out, blk...)
	}
	return out[:n]
}

// every way of writing a ciphertext gives the same plain text, that of the keystream by position
func TestVerifC08(t *testing.T) {
	rng := vRand()
	n := 0
	for iter := 0; iter < vScale(1500); iter++ {
		password := DefaultXLSPassword
		if rng.Intn(3) == 0 {
			password = string([]byte("secret password")[:1+rng.Intn(15)])
		}
		salt := make([]byte, 16)
		rng.Read(salt)
		digest := vDigest(password, salt)
		// the header of the record: version, salt, verifier, verifier hash
		verifier := make([]byte, 16)
		rng.Read(verifier)
		vh := md5.Sum(verifier)
		vks := vStream(digest, 32)
		hdr := []byte{1, 0, 1, 0}
		hdr = append(hdr, salt...)
		enc := append(append([]byte{}, verifier...), vh[:]...)
		for i := range enc {
			enc[i] ^= vks[i]
		}
		hdr = append(hdr, enc...)
		total := []int{0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 5000}[rng.Intn(10)] + rng.Intn(3)
		switch iter { // block numbers of more than one byte, and of more than two
		case 7, 8:
			total = 257*1024 + 100
		case 9:
			total = 65538*1024 + 5
		}
		data := make([]byte, total)
		rng.Read(data)
		ks := vStream(digest, total)
		want := make([]byte, total)
		for i := range want {
			want[i] = data[i] ^ ks[i]
		}
		var chunks []int
		for left := total; left > 0; {
			c := []int{1, 4, 7, 100, 1023, 1024, 1025, 2048, 5000}[rng.Intn(9)]
			if rng.Intn(4) == 0 {
				c = rng.Intn(1100)
			}
			if total > 100000 && rng.Intn(40) == 0 {
				c = total / 3
			}
			if c > left {
				c = left
			}
			if len(chunks) < 2000 {
				chunks = append(chunks, c)
			} else {
				chunks, c = append(chunks, left), left
			}
			left -= c
		}
		n++
		desc := func() string {
			return fmt.Sprintf("decrypting %d bytes (rng seed %d, case %d, password %q) written in pieces of %v", total, vSeed(), iter, password, chunks)
		}
		vGuard(t, 60*time.Second, desc, func() error {
			var d Decryptor
			if password == DefaultXLSPassword {
				var err error
				d, err = NewBasicRC4(hdr)
				if err != nil {
					return fmt.Errorf("a valid encryption header is refused: %v", err)
				}
				bad := append([]byte{}, hdr...)
				bad[36+rng.Intn(16)] ^= byte(1 + rng.Intn(255))
				if _, err := NewBasicRC4(bad); err == nil {
					return fmt.Errorf("a header with a wrong verifier hash is accepted")
				}
			} else {
				d = &rc4Writer{Salt: append([]byte{}, salt...)}
				d.SetPassword([]byte(password))
			}
			rounds := 1 + rng.Intn(2)
			if total > 100000 {
				rounds = 1
			}
			for r := 0; r < rounds; r++ {
				if r > 0 {
					d.Reset()
				}
				in := append([]byte{}, data...)
				pos := 0
				for _, c := range chunks {
					k, err := d.Write(in[pos : pos+c])
					if k != c || err != nil {
						return fmt.Errorf("write of %d bytes at %d returned %d, %v", c, pos, k, err)
					}
					// the caller may reuse its buffer
					for i := pos; i < pos+c; i++ {
						in[i] = 0xEE
					}
					pos += c
				}
				d.Flush()
				if got := d.Bytes(); !bytes.Equal(got, want) {
					i := 0
					for i < len(got) && i < len(want) && got[i] == want[i] {
						i++
					}
					return fmt.Errorf("round %d: %d bytes came out, of %d; the first difference is at position %d", r, len(got), total, i)
				}
			}
			return nil
		})
	}
	fmt.Println("VERIF-EVALS", n)
}
