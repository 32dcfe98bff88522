//go:build go1.22

// C04: keys, key versions and signatures.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"golang.org/x/crypto/blake2b"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

func msg(r *rand.Rand) []byte {
	n := []int{0, 1, 31, 32, 33, 64, 127, 128, 129, 1000, 70000}[r.Intn(11)]
	b := make([]byte, n)
	r.Read(b)
	return b
}

func main() {
	kit.Main("C04", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		if k.Args["mode"] == "concurrent" {
			concurrent(k)
			return
		}
		var prev *fcrcrypto.KeyPair
		var prevPub string
		for it := 0; it < k.N(300, 10000); it++ {
			r := k.Sub("key", it)
			kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
			if it%10 == 0 {
				kp, err = fcrcrypto.GenerateBlockchainKeyPair()
			}
			if err != nil {
				k.Violate("generate", nil, "%v", err)
				return
			}
			if it%7 == 3 { // keys with leading zero bytes
				sk := make([]byte, 32)
				r.Read(sk[1+r.Intn(31):])
				sk[31] |= 1
				if kp, err = fcrcrypto.DecodeRawPrivateKey(hex.EncodeToString(sk)); err != nil {
					k.Violate("decode-raw-private", hex.EncodeToString(sk), "%v", err)
					return
				}
			}
			priv := kp.EncodePrivateKey()
			if !k.NoPanic("panic", priv, func() { one(k, r, kp, priv, prev, prevPub) }) {
				return
			}
			prev = kp
			prevPub, _ = kp.EncodePublicKey()
			k.Eval("key/" + prevPub)
			k.Sample("public key", prevPub)
		}
		versions(k)
		hashes(k)
		malformed(k)
		k.Floor("signatures accepted", 500)
		k.Floor("signatures rejected", 2000)
		k.Floor("malformed keys rejected", 400)
	})
}

func one(k *kit.K, r *rand.Rand, kp *fcrcrypto.KeyPair, priv string, prev *fcrcrypto.KeyPair, prevPub string) {
	pubStr, err := kp.EncodePublicKey()
	if err != nil || len(pubStr) != 2*66 || len(priv) != 2*33 || pubStr[:2] != "01" || priv[:2] != "01" || pubStr[2:4] != "04" {
		k.Violate("encoding", priv, "unexpected key encoding: public %q (%v), private %q", pubStr, err, priv)
		return
	}
	raw, err := kp.EncodeRawPrivateKey()
	if err != nil || "01"+raw != priv {
		k.Violate("raw-encoding", priv, "raw private key %q of %q (%v)", raw, priv, err)
	}
	kp2, err := fcrcrypto.DecodePrivateKey(priv)
	if err != nil {
		k.Violate("decode-private", priv, "%v", err)
		return
	}
	kp3, err := fcrcrypto.DecodeRawPrivateKey(raw)
	if err != nil {
		k.Violate("decode-raw-private", priv, "%v", err)
		return
	}
	pub, err := fcrcrypto.DecodePublicKey(pubStr)
	if err != nil {
		k.Violate("decode-public", pubStr, "%v", err)
		return
	}
	for _, x := range []*fcrcrypto.KeyPair{kp2, kp3, pub} {
		if s, err := x.EncodePublicKey(); err != nil || s != pubStr {
			k.Violate("public-roundtrip", priv, "a decoded key has public key %q (%v), want %q", s, err, pubStr)
		}
	}
	if kp2.EncodePrivateKey() != priv || kp3.EncodePrivateKey() != priv {
		k.Violate("private-roundtrip", priv, "private key does not survive encoding")
	}
	// the JSON form is the public key alone
	j, err := json.Marshal(kp)
	var kj fcrcrypto.KeyPair
	if err != nil || json.Unmarshal(j, &kj) != nil {
		k.Violate("json", priv, "JSON round trip failed: %v %s", err, j)
	} else {
		if strings.Contains(string(j), raw) {
			k.Violate("json-leaks-private", nil, "the JSON form of a key pair contains its private key")
		}
		if s, _ := kj.EncodePublicKey(); s != pubStr {
			k.Violate("json", priv, "JSON round trip gives public key %q, want %q", s, pubStr)
		}
	}
	pb, _ := hex.DecodeString(pubStr)
	want := blake2b.Sum256(pb)
	for _, x := range []*fcrcrypto.KeyPair{kp, pub} {
		if h, err := x.HashPublicKey(); err != nil || !bytes.Equal(h, want[:]) {
			k.Violate("hash-public", pubStr, "hash of public key is %x (%v), want %x", h, err, want)
		}
	}
	// signatures
	m := msg(r)
	keep := append([]byte(nil), m...)
	sig, err := kp2.Sign(m)
	if err != nil {
		k.Violate("sign", priv, "%v", err)
		return
	}
	if !bytes.Equal(m, keep) {
		k.Violate("sign-mutates", priv, "signing changed the message")
	}
	verify := func(x *fcrcrypto.KeyPair, s, mm []byte) bool { ok, err := x.Verify(s, mm); return ok && err == nil }
	rep := map[string]string{"private": priv, "message": hex.EncodeToString(head(m)), "signature": hex.EncodeToString(sig)}
	for i, x := range []*fcrcrypto.KeyPair{kp, kp2, kp3, pub} {
		if !verify(x, sig, m) {
			k.Violate("verify-own", rep, "signature does not verify with form %d of its key", i)
		}
	}
	if ok, err := fcrcrypto.RetrievalV1Verify(sig, m, want[:]); !ok || err != nil {
		k.Violate("verify-hashed", rep, "signature does not verify against the hashed public key: %v", err)
	}
	k.Count("signatures accepted", 4)
	reject := func(what string, ok bool) {
		k.Count("signatures rejected", 1)
		if ok {
			k.Violate("accepts:"+what, rep, "a signature verifies despite %s", what)
		}
	}
	for i := 0; i < 4; i++ {
		mm := append([]byte(nil), m...)
		switch {
		case i == 0 || len(mm) == 0:
			mm = append(mm, byte(r.Intn(256)))
		case i == 1:
			mm = mm[:len(mm)-1]
		default:
			mm[r.Intn(len(mm))] ^= 1 << uint(r.Intn(8))
		}
		reject("another message", verify(pub, sig, mm))
		if ok, _ := fcrcrypto.RetrievalV1Verify(sig, mm, want[:]); ok {
			reject("another message (hashed key)", true)
		}
		s2 := append([]byte(nil), sig...)
		s2[r.Intn(64)] ^= 1 << uint(r.Intn(8))
		reject("a changed signature", verify(pub, s2, m))
		if ok, _ := fcrcrypto.RetrievalV1Verify(s2, m, want[:]); ok {
			reject("a changed signature (hashed key)", true)
		}
	}
	for _, s := range [][]byte{nil, {}, sig[:1], sig[:32], sig[:63], make([]byte, 64), make([]byte, 65), append(append([]byte(nil), sig...), 0)} {
		reject("a malformed signature", verify(pub, s, m))
		if ok, _ := fcrcrypto.RetrievalV1Verify(s, m, want[:]); ok {
			reject("a malformed signature (hashed key)", true)
		}
	}
	i := r.Intn(32)
	near := append([]byte(nil), want[:]...)
	near[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	for _, h := range [][]byte{nil, {}, want[:i], want[i+1:], append(append([]byte(nil), want[:]...), byte(r.Intn(256))), near, make([]byte, 32)} {
		if ok, _ := fcrcrypto.RetrievalV1Verify(sig, m, h); ok {
			reject(fmt.Sprintf("a hashed key of %d bytes that is not its key's", len(h)), true)
		}
	}
	if prev != nil && prevPub != pubStr {
		reject("another key", verify(prev, sig, m))
		oh, _ := prev.HashPublicKey()
		ok, _ := fcrcrypto.RetrievalV1Verify(sig, m, oh)
		reject("another hashed key", ok)
		oth, _ := fcrcrypto.DecodePublicKey(prevPub)
		reject("another key", verify(oth, sig, m))
	}
	if s, err := pub.Sign(m); err == nil && verify(pub, s, m) {
		k.Violate("public-key-signs", rep, "a public key alone produced a valid signature")
	}
	// message signatures carry their key version
	v := fcrcrypto.DecodeKeyVersion(r.Uint32())
	ms, err := fcrcrypto.SignMessage(kp, v, m)
	if err != nil {
		k.Violate("sign-message", rep, "%v", err)
		return
	}
	if ok, err := fcrcrypto.VerifyMessage(pub, ms, m); !ok || err != nil {
		k.Violate("verify-message", rep, "signed message does not verify: %v", err)
	}
	if x, err := fcrcrypto.ExtractKeyVersionFromMessage(ms); err != nil || !x.Equals(v) {
		k.Violate("message-key-version", rep, "key version %d is read back as %v (%v)", v.EncodeKeyVersion(), x, err)
	}
	if ok, _ := fcrcrypto.VerifyMessage(pub, ms, append(m, 1)); ok {
		reject("another message (message form)", true)
	}
	for _, s := range []string{"", "0", "01", "xyz", ms[:2], ms[:6], ms[:8], ms[:len(ms)-3], ms + "00", ms[8:]} {
		ok, _ := fcrcrypto.VerifyMessage(pub, s, m)
		reject("a malformed message signature", ok)
		x, err := fcrcrypto.ExtractKeyVersionFromMessage(s)
		if b, e := hex.DecodeString(s); e != nil || len(b) < 4 {
			if err == nil {
				k.Violate("key-version-of-short-signature", s, "signature %q has key version %v", s, x)
			}
		} else if err != nil || x.EncodeKeyVersion() != binary.BigEndian.Uint32(b) {
			k.Violate("message-key-version", s, "key version of %q is %v (%v)", s, x, err)
		}
	}
}

func head(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func versions(k *kit.K) {
	v := fcrcrypto.InitialKeyVersion()
	if v.EncodeKeyVersion() != 1 {
		k.Violate("version:initial", nil, "initial key version is %d", v.EncodeKeyVersion())
	}
	for it := 0; it < k.N(500, 5000); it++ {
		r := k.Sub("ver", it)
		n := r.Uint32()
		a := fcrcrypto.DecodeKeyVersion(n)
		b, err := fcrcrypto.DecodeKeyVersionFromBytes(a.EncodeKeyVersionAsBytes())
		if err != nil || b.EncodeKeyVersion() != n || !a.Equals(b) || a.NotEquals(b) || !a.EqualsRaw(n) || a.NotEqualsRaw(n) {
			k.Violate("version:codec", n, "key version %d does not survive encoding", n)
		}
		m := n ^ (1 << uint(r.Intn(32)))
		c := fcrcrypto.DecodeKeyVersion(m)
		if a.Equals(c) || !a.NotEquals(c) || a.EqualsRaw(m) || !a.NotEqualsRaw(m) {
			k.Violate("version:equality", []uint32{n, m}, "key versions %d and %d are equal", n, m)
		}
		if x := a.NextKeyVersion(); x.EncodeKeyVersion() != n+1 || a.EncodeKeyVersion() != n {
			k.Violate("version:next", n, "the version after %d is %d", n, x.EncodeKeyVersion())
		}
		if _, err := fcrcrypto.DecodeKeyVersionFromBytes(make([]byte, r.Intn(4))); err == nil {
			k.Violate("version:short", nil, "a key version of under four bytes was accepted")
		}
		k.Eval(fmt.Sprint("ver/", n))
	}
}

func hashes(k *kit.K) {
	for it := 0; it < k.N(200, 2000); it++ {
		r := k.Sub("hash", it)
		m := msg(r)
		want := blake2b.Sum256(m)
		h1, h2 := fcrcrypto.GetBlockchainHasher(), fcrcrypto.GetRetrievalV1Hasher()
		cut := 0
		if len(m) > 0 {
			cut = r.Intn(len(m))
		}
		h1.Write(m[:cut])
		h1.Write(m[cut:])
		h2.Write(m[:cut])
		h2.Write(m[cut:])
		for i, g := range [][]byte{fcrcrypto.BlockchainHash(m), fcrcrypto.RetrievalV1Hash(m), h1.Sum(nil), h2.Sum(nil)} {
			if !bytes.Equal(g, want[:]) {
				k.Violate(fmt.Sprint("hash:", i), hex.EncodeToString(head(m)), "hash %d of a %d byte message is %x, want %x", i, len(m), g, want)
			}
		}
		k.Eval(fmt.Sprintf("hash/%x", want))
	}
}

func malformed(k *kit.K) {
	// numbers that are no private keys: zero, the order of the curve and beyond
	order, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	for it := 0; it < k.N(60, 600); it++ {
		r := k.Sub("range", it)
		v := new(big.Int)
		good := false
		switch it % 6 {
		case 0:
		case 1:
			v.Set(order)
		case 2:
			v.Add(order, big.NewInt(1+int64(r.Intn(1000))))
		case 3:
			v.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1+int64(r.Intn(1000))))
		case 4:
			v.Sub(order, big.NewInt(1+int64(r.Intn(1000))))
			good = true
		default:
			v.SetInt64(1 + int64(r.Intn(1000)))
			good = true
		}
		s := hex.EncodeToString(v.FillBytes(make([]byte, 32)))
		k.NoPanic("range-key-panic", s, func() {
			a, e1 := fcrcrypto.DecodePrivateKey("01" + s)
			b, e2 := fcrcrypto.DecodeRawPrivateKey(s)
			if (e1 == nil) != good || (e2 == nil) != good {
				k.Violate("range-key", s, "private key %s: decoded %v, raw %v", s, e1, e2)
				return
			}
			if !good {
				k.Count("numbers that are no keys refused", 1)
				return
			}
			msg := make([]byte, r.Intn(100))
			r.Read(msg)
			for _, x := range []*fcrcrypto.KeyPair{a, b} {
				sig, err := x.Sign(msg)
				if err != nil {
					k.Violate("range-key-sign", s, "private key %s cannot sign: %v", s, err)
				} else if ok, err := x.Verify(sig, msg); !ok || err != nil {
					k.Violate("range-key-verify", s, "what private key %s signs does not verify: %v", s, err)
				}
			}
		})
		k.Eval("range/" + s)
	}
	for it := 0; it < k.N(600, 6000); it++ {
		r := k.Sub("bad", it)
		n := []int{0, 1, 2, 31, 32, 34, 64, 65, 67, 100}[r.Intn(10)]
		b := make([]byte, n)
		r.Read(b)
		if n > 0 && r.Intn(2) == 0 {
			b[0] = 1
		}
		s := hex.EncodeToString(b)
		if r.Intn(4) == 0 {
			s += "z"
		}
		if n == 33 || n == 66 {
			continue
		}
		k.NoPanic("malformed-key-panic", s, func() {
			if x, err := fcrcrypto.DecodePrivateKey(s); err == nil {
				k.Violate("malformed-private", s, "private key %q accepted: %v", s, x)
			}
			if x, err := fcrcrypto.DecodePublicKey(s); err == nil {
				k.Violate("malformed-public", s, "public key %q accepted: %v", s, x)
			}
			if x, err := fcrcrypto.DecodeRawPrivateKey(s); err == nil && n != 32 {
				k.Violate("malformed-raw", s, "raw private key %q accepted: %v", s, x)
			}
			var kp fcrcrypto.KeyPair
			j, _ := json.Marshal(s)
			if json.Unmarshal(j, &kp) == nil {
				k.Violate("malformed-json", s, "JSON key %q accepted", s)
			}
		})
		// right length, unknown algorithm
		c := make([]byte, []int{33, 66}[r.Intn(2)])
		r.Read(c)
		if c[0] == 1 {
			c[0] = 2
		}
		_, e1 := fcrcrypto.DecodePrivateKey(hex.EncodeToString(c))
		_, e2 := fcrcrypto.DecodePublicKey(hex.EncodeToString(c))
		if e1 == nil || e2 == nil {
			k.Violate("unknown-algorithm", hex.EncodeToString(c), "a key of unknown algorithm %d was accepted", c[0])
		}
		k.Count("malformed keys rejected", 1)
		k.Eval("bad/" + s)
	}
}

// concurrent: one key pair used by everyone at once (race detector on)
func concurrent(k *kit.K) {
	for it := 0; it < k.N(60, 600); it++ {
		r := k.Sub("conc", it)
		kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			k.Violate("generate", nil, "%v", err)
			return
		}
		if it%3 == 1 {
			e, _ := kp.EncodePublicKey()
			_ = e
		}
		m := msg(r)
		k.Parallel("concurrent", 6, func(i int) {
			for n := 0; n < 3; n++ {
				sig, err := fcrcrypto.SignMessage(kp, fcrcrypto.InitialKeyVersion(), m)
				if err != nil {
					k.Violate("concurrent:sign", nil, "%v", err)
					return
				}
				if ok, err := fcrcrypto.VerifyMessage(kp, sig, m); !ok || err != nil {
					k.Violate("concurrent:verify", nil, "signature made concurrently does not verify: %v", err)
				}
				if _, err := kp.EncodePublicKey(); err != nil {
					k.Violate("concurrent:encode", nil, "%v", err)
				}
				if _, err := kp.HashPublicKey(); err != nil {
					k.Violate("concurrent:hash", nil, "%v", err)
				}
				_, _ = json.Marshal(kp)
				k.Count("concurrent uses of one key pair", 4)
			}
		})
		k.Eval(fmt.Sprint("conc/", it, len(m)))
	}
	k.Floor("concurrent uses of one key pair", 1000)
}
