//go:build go1.22

// C01: identifiers. Every constructor, codec, map, ordering and distance answer is checked against the plain
// arithmetic meaning of a 256-bit big-endian number.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/crypto/blake2b"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	cmath "github.com/ConsenSys/fc-retrieval/common/pkg/math"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

// the two kinds of identifier, seen through the same eyes
type ident interface {
	ToString() string
	ToBytes() []byte
	MarshalJSON() ([]byte, error)
}

type kind struct {
	name     string
	fromBig  func(*big.Int) (ident, error)
	fromByte func([]byte) (ident, error)
	fromHex  func(string) (ident, error)
	fromJSON func([]byte) (ident, error)
	random   func() ident
}

func wrapC(c *cid.ContentID, e error) (ident, error) {
	if c == nil {
		return nil, e
	}
	return c, e
}
func wrapN(c *nodeid.NodeID, e error) (ident, error) {
	if c == nil {
		return nil, e
	}
	return c, e
}

var kinds = []kind{
	{"cid", func(b *big.Int) (ident, error) { return wrapC(cid.NewContentID(b)) },
		func(b []byte) (ident, error) { return wrapC(cid.NewContentIDFromBytes(b)) },
		func(s string) (ident, error) { return wrapC(cid.NewContentIDFromHexString(s)) },
		func(p []byte) (ident, error) { var c cid.ContentID; e := json.Unmarshal(p, &c); return &c, e },
		func() ident { return cid.NewRandomContentID() }},
	{"nodeid", func(b *big.Int) (ident, error) { return wrapN(nodeid.NewNodeID(b)) },
		func(b []byte) (ident, error) { return wrapN(nodeid.NewNodeIDFromBytes(b)) },
		func(s string) (ident, error) { return wrapN(nodeid.NewNodeIDFromHexString(s)) },
		func(p []byte) (ident, error) { var c nodeid.NodeID; e := json.Unmarshal(p, &c); return &c, e },
		func() ident { return nodeid.NewRandomNodeID() }},
}

func randBytes(r *rand.Rand) []byte {
	var n int
	switch r.Intn(8) {
	case 0:
		n = r.Intn(3)
	case 1:
		n = 31 + r.Intn(4)
	case 2:
		n = r.Intn(80)
	default:
		n = 1 + r.Intn(32)
	}
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // leading zeros
		r.Read(b)
		for i := 0; i < len(b)/2; i++ {
			b[i] = 0
		}
	default:
		r.Read(b)
	}
	return b
}

func pad(b []byte) []byte { o := make([]byte, 32); copy(o[32-len(b):], b); return o }

func checkID(k *kit.K, kd kind, how string, in interface{}, id ident, err error, want []byte) {
	rep := map[string]interface{}{"kind": kd.name, "from": how, "input": fmt.Sprintf("%x", in)}
	if want == nil {
		if err == nil {
			k.Violate(kd.name+":"+how+":accepts-bad", rep, "%s from %s accepted malformed or oversized input %x", kd.name, how, in)
		}
		return
	}
	if err != nil || id == nil {
		k.Violate(kd.name+":"+how+":rejects-good", rep, "%s from %s rejected %x: %v", kd.name, how, in, err)
		return
	}
	if !bytes.Equal(id.ToBytes(), want) {
		k.Violate(kd.name+":"+how+":value", rep, "%s from %s of %x has bytes %x, want %x", kd.name, how, in, id.ToBytes(), want)
	}
	if id.ToString() != hex.EncodeToString(want) {
		k.Violate(kd.name+":"+how+":string", rep, "%s from %s of %x prints %q", kd.name, how, in, id.ToString())
	}
	// and back, through every representation
	if j, e := json.Marshal(id); e != nil {
		k.Violate(kd.name+":json-encode", rep, "%v", e)
	} else if id2, e := kd.fromJSON(j); e != nil || !bytes.Equal(id2.ToBytes(), want) {
		k.Violate(kd.name+":json-roundtrip", rep, "JSON round trip of %x failed (%v): %s", want, e, j)
	}
	if id2, e := kd.fromHex(id.ToString()); e != nil || !bytes.Equal(id2.ToBytes(), want) {
		k.Violate(kd.name+":string-roundtrip", rep, "string round trip of %x failed (%v)", want, e)
	}
	k.Count("identifiers checked", 1)
}

func main() {
	kit.Main("C01", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		n := k.N(6000, 200000)
		for it := 0; it < n; it++ {
			r := k.Sub("id", it)
			kd := kinds[it%2]
			b := randBytes(r)
			var want []byte
			if len(b) <= 32 {
				want = pad(b)
			}
			ok := k.NoPanic(kd.name+":panic", fmt.Sprintf("%x", b), func() {
				in := append([]byte(nil), b...)
				id, err := kd.fromByte(in)
				checkID(k, kd, "bytes", b, id, err, want)
				if err == nil { // the identifier must not change with the caller's buffer
					for i := range in {
						in[i] ^= 0x5a
					}
					checkID(k, kd, "bytes", b, id, err, want)
				}
				h := hex.EncodeToString(b)
				if r.Intn(3) == 0 {
					h = strings.ToUpper(h)
				}
				id, err = kd.fromHex(h)
				checkID(k, kd, "hex", h, id, err, want)
				v := new(big.Int).SetBytes(b)
				id, err = kd.fromBig(v)
				bigWant := []byte(nil)
				if len(v.Bytes()) <= 32 {
					bigWant = pad(v.Bytes())
				}
				checkID(k, kd, "number", v.Bytes(), id, err, bigWant)
				// malformed hex
				bad := []byte(h)
				switch r.Intn(3) {
				case 0:
					bad = append(bad, "0"...)
				case 1:
					bad = append(bad, "zz"...)
				default:
					if len(bad) > 0 {
						bad[r.Intn(len(bad))] = "ghxZ -\x00"[r.Intn(7)]
					} else {
						bad = []byte("g")
					}
				}
				id, err = kd.fromHex(string(bad))
				checkID(k, kd, "bad hex", string(bad), id, err, nil)
				// JSON: only exactly 32 bytes
				j, _ := json.Marshal(base64.StdEncoding.EncodeToString(b))
				id, err = kd.fromJSON(j)
				jw := want
				if len(b) != 32 {
					jw = nil
				}
				checkID(k, kd, "JSON", string(j), id, err, jw)
			})
			if !ok {
				return
			}
			if len(b) > 0 {
				k.Eval(fmt.Sprintf("%s/%x", kd.name, b))
				k.Sample(kd.name, fmt.Sprintf("%x", b))
			} else {
				k.Eval("")
			}
		}
		lists(k)
		distances(k)
		keys(k)
		equality(k)
		k.Floor("identifiers checked", 10000)
		k.Floor("orderings checked", 200)
		k.Floor("distances checked", 1000)
	})
}

func lists(k *kit.K) {
	for it := 0; it < k.N(800, 30000); it++ {
		r := k.Sub("list", it)
		n := r.Intn(12)
		var raw [][]byte
		base := make([]byte, 32)
		r.Read(base)
		for i := 0; i < n; i++ {
			b := append([]byte(nil), base...)
			switch r.Intn(4) {
			case 0:
				r.Read(b)
			case 1:
				b[31] = byte(r.Intn(4)) // neighbours and duplicates
			case 2:
				b[0] = byte(r.Intn(256))
			default:
				b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			}
			raw = append(raw, b)
		}
		start := append([]byte(nil), base...)
		if r.Intn(2) == 0 {
			r.Read(start)
		} else if n > 0 && r.Intn(2) == 0 {
			start = raw[r.Intn(n)]
		}
		var strs []string
		cs := make([]cid.ContentID, n)
		ns := make([]nodeid.NodeID, n)
		ptrs := make([]*nodeid.NodeID, n)
		for i, b := range raw {
			c, _ := cid.NewContentIDFromBytes(b)
			d, _ := nodeid.NewNodeIDFromBytes(b)
			cs[i], ns[i] = *c, *d
			ptrs[i], _ = nodeid.NewNodeIDFromBytes(b)
			strs = append(strs, hex.EncodeToString(b))
		}
		sid, _ := nodeid.NewNodeIDFromBytes(start)
		k.NoPanic("list:panic", strs, func() {
			if g := cid.MapCIDToString(cs); strings.Join(g, ",") != strings.Join(strs, ",") {
				k.Violate("cid:list", strs, "list of strings of CIDs %v became %v", strs, g)
			}
			if g := nodeid.MapNodeIDToString(ns); strings.Join(g, ",") != strings.Join(strs, ",") {
				k.Violate("nodeid:list", strs, "list of strings of node IDs %v became %v", strs, g)
			}
			// and back: shorter text is padded, and anything malformed spoils the list
			in, spoilt := append([]string(nil), strs...), false
			for i := range in {
				switch r.Intn(8) {
				case 0:
					in[i] = strings.ToUpper(in[i])
				case 1:
					in[i] = in[i][2*r.Intn(32):]
				case 2:
					if r.Intn(3) == 0 {
						in[i], spoilt = []string{"g" + in[i][1:], in[i] + "00", in[i][1:], "0x" + in[i][2:]}[r.Intn(4)], true
					}
				}
			}
			c2, e1 := cid.MapStringToCID(in)
			n2, e2 := nodeid.MapStringToNodeID(in)
			if (e1 != nil) != spoilt || (e2 != nil) != spoilt {
				k.Violate("list:malformed", in, "identifiers of %v: %v, %v", in, e1, e2)
			}
			for i := range in {
				if spoilt {
					k.Count("lists with malformed identifiers", 1)
					break
				}
				if len(c2) != n || len(n2) != n {
					k.Violate("list:length", in, "%d identifiers became %d, %d", n, len(c2), len(n2))
					break
				}
				b, _ := hex.DecodeString(in[i])
				if !bytes.Equal(c2[i].ToBytes(), pad(b)) || !bytes.Equal(n2[i].ToBytes(), pad(b)) {
					k.Violate("list:value", in, "identifier %d of %v is %s, %s", i, in, c2[i].ToString(), n2[i].ToString())
				}
			}
			got := nodeid.SortClockwise(sid, ptrs)
			two := new(big.Int).Lsh(big.NewInt(1), 256)
			off := func(b []byte) *big.Int {
				return new(big.Int).Mod(new(big.Int).Sub(new(big.Int).SetBytes(b), new(big.Int).SetBytes(start)), two)
			}
			want := append([][]byte(nil), raw...)
			sort.SliceStable(want, func(i, j int) bool { return off(want[i]).Cmp(off(want[j])) < 0 })
			bad := len(got) != len(want)
			for i := 0; !bad && i < len(got); i++ {
				bad = got[i] == nil || !bytes.Equal(got[i].ToBytes(), want[i])
			}
			if bad {
				var g []string
				for _, x := range got {
					g = append(g, x.ToString())
				}
				k.Violate("clockwise-order", map[string]interface{}{"start": hex.EncodeToString(start), "ids": strs}, "clockwise order from %x of %v is %v", start, strs, g)
			}
			k.Count("orderings checked", 1)
		})
		if n > 1 {
			k.Eval("order/" + strings.Join(strs, ","))
		}
	}
}

func distances(k *kit.K) {
	for it := 0; it < k.N(3000, 100000); it++ {
		r := k.Sub("dist", it)
		bits := uint(8 * (1 + r.Intn(32)))
		card := new(big.Int).Lsh(big.NewInt(1), bits)
		pick := func() []byte {
			v := new(big.Int).Rand(r, card)
			switch r.Intn(4) {
			case 0:
				v = new(big.Int).SetInt64(int64(r.Intn(3)))
			case 1:
				v = new(big.Int).Sub(card, big.NewInt(int64(1+r.Intn(3))))
			}
			return v.FillBytes(make([]byte, bits/8))
		}
		a, b := pick(), pick()
		x, y := new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)
		cw := new(big.Int).Mod(new(big.Int).Sub(y, x), card)
		ccw := new(big.Int).Mod(new(big.Int).Sub(x, y), card)
		want := cw
		if ccw.Cmp(cw) < 0 {
			want = ccw
		}
		rep := fmt.Sprintf("a=%x b=%x cardinality=2^%d", a, b, bits)
		k.NoPanic("distance:panic", rep, func() {
			d, err := cmath.GetDistance(a, b, card)
			if err != nil || d == nil || d.Cmp(want) != 0 {
				k.Violate("distance", rep, "distance of %s is %v (%v), want %v", rep, d, err, want)
			}
			e, err := cmath.GetDistance(b, a, card)
			if err != nil || e.Cmp(want) != 0 {
				k.Violate("distance-symmetry", rep, "distance is not symmetric for %s", rep)
			}
			if card.Cmp(new(big.Int).Lsh(big.NewInt(1), bits)) != 0 {
				k.Violate("distance-mutates", rep, "GetDistance changed its arguments")
			}
		})
		k.Count("distances checked", 1)
		k.Eval(rep)
	}
}

func keys(k *kit.K) {
	for it := 0; it < k.N(60, 2000); it++ {
		kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			k.Violate("key", nil, "%v", err)
			return
		}
		enc, err := kp.EncodePublicKey()
		if err != nil {
			k.Violate("key", nil, "%v", err)
			return
		}
		raw, _ := hex.DecodeString(enc)
		h := blake2b.Sum256(raw)
		id, err := nodeid.NewNodeIDFromPublicKey(kp)
		if err != nil || !bytes.Equal(id.ToBytes(), h[:]) {
			k.Violate("nodeid-from-key", enc, "node ID of public key %s is %v (%v), want %x", enc, id, err, h)
		}
		pub, _ := fcrcrypto.DecodePublicKey(enc)
		id2, err := nodeid.NewNodeIDFromPublicKey(pub)
		if err != nil || !bytes.Equal(id2.ToBytes(), h[:]) {
			k.Violate("nodeid-from-key", enc, "node ID differs between the key pair and its public half")
		}
		a32 := id.AsBytes32()
		if !bytes.Equal(a32[:], h[:]) {
			k.Violate("nodeid-bytes32", enc, "AsBytes32 gave %x", a32)
		}
		k.Eval("key/" + enc)
		k.Count("node IDs derived from keys", 1)
	}
}

func equality(k *kit.K) {
	for it := 0; it < k.N(1000, 20000); it++ {
		r := k.Sub("eq", it)
		a := make([]byte, 32)
		r.Read(a)
		b := append([]byte(nil), a...)
		same := r.Intn(2) == 0
		if !same {
			b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		}
		x, _ := cid.NewContentIDFromBytes(a)
		y, _ := cid.NewContentIDFromBytes(b)
		k.NoPanic("equals:panic", fmt.Sprintf("%x %x", a, b), func() {
			g, err := x.Equals(y)
			if err != nil || g != same {
				k.Violate("cid-equality", fmt.Sprintf("%x %x", a, b), "Equals(%x,%x)=%v", a, b, g)
			}
		})
		k.Eval(fmt.Sprintf("eq/%x/%x", a, b))
	}
}
