//go:build go1.22

// C03: what an offer's signature and a sub-offer's membership proof do and do not vouch for.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

type content struct {
	provider []byte
	cids     [][]byte
	price    uint64
	expiry   int64
	qos      uint64
}

func (c content) clone() content {
	d := c
	d.provider = append([]byte(nil), c.provider...)
	d.cids = nil
	for _, x := range c.cids {
		d.cids = append(d.cids, append([]byte(nil), x...))
	}
	return d
}

func rb(r *rand.Rand) []byte { b := make([]byte, 32); r.Read(b); return b }

func randContent(r *rand.Rand) content {
	c := content{provider: rb(r), price: r.Uint64(), expiry: int64(r.Uint64()), qos: r.Uint64()}
	switch r.Intn(4) {
	case 0:
		c.price, c.expiry, c.qos = uint64(r.Intn(3)), int64(r.Intn(3))-1, uint64(r.Intn(3))
	case 1:
		c.expiry = time.Now().Add(time.Hour).Unix()
	}
	n := []int{1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 33}[r.Intn(14)]
	for i := 0; i < n; i++ {
		b := rb(r)
		if r.Intn(5) == 0 {
			b = make([]byte, 32)
			binary.BigEndian.PutUint32(b[28:], uint32(i+1)*7919)
		}
		c.cids = append(c.cids, b)
	}
	return c
}

func build(c content) (*cidoffer.CIDOffer, error) {
	p, err := nodeid.NewNodeIDFromBytes(c.provider)
	if err != nil {
		return nil, err
	}
	var cs []cid.ContentID
	for _, b := range c.cids {
		x, err := cid.NewContentIDFromBytes(b)
		if err != nil {
			return nil, err
		}
		cs = append(cs, *x)
	}
	return cidoffer.NewCIDOffer(p, cs, c.price, c.expiry, c.qos)
}

func describe(c content) map[string]interface{} {
	var cs []string
	for _, x := range c.cids {
		cs = append(cs, hex.EncodeToString(x))
	}
	return map[string]interface{}{"provider": hex.EncodeToString(c.provider), "cids": cs, "price": c.price, "expiry": c.expiry, "qos": c.qos}
}

func sameOffer(o *cidoffer.CIDOffer, c content) string {
	if !bytes.Equal(o.GetProviderID().ToBytes(), c.provider) {
		return "provider"
	}
	if len(o.GetCIDs()) != len(c.cids) {
		return "number of CIDs"
	}
	for i, x := range o.GetCIDs() {
		if !bytes.Equal(x.ToBytes(), c.cids[i]) {
			return "CIDs"
		}
	}
	if o.GetPrice() != c.price {
		return "price"
	}
	if o.GetExpiry() != c.expiry {
		return "expiry"
	}
	if o.GetQoS() != c.qos {
		return "QoS"
	}
	return ""
}

// rearranged are offers made of the same amounts and CIDs.
func rearranged(r *rand.Rand, c content) []content {
	var l []content
	amounts := []uint64{c.price, uint64(c.expiry), c.qos}
	for _, p := range [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		d := c.clone()
		d.price, d.expiry, d.qos = amounts[p[0]], int64(amounts[p[1]]), amounts[p[2]]
		l = append(l, d)
	}
	n := uint64(1) << uint(r.Intn(64))
	d := c.clone()
	d.price, d.qos = d.price+n, d.qos-n
	e := c.clone()
	e.price, e.expiry = e.price^n, e.expiry^int64(n)
	f := c.clone()
	f.qos, f.expiry = f.qos+n, f.expiry-int64(n)
	g := c.clone() // the provider's identifier is that of the first CID, and the other way round
	g.provider, g.cids[0] = append([]byte(nil), c.cids[0]...), append([]byte(nil), c.provider...)
	l = append(l, d, e, f, g)
	if len(c.cids) > 1 {
		h := c.clone()
		i, j := r.Intn(len(h.cids)), r.Intn(len(h.cids))
		h.cids[i], h.cids[j] = h.cids[j], h.cids[i]
		l = append(l, h)
	}
	return l
}

// mutate changes one thing an offer says
func mutate(r *rand.Rand, c content) (content, string) {
	d := c.clone()
	for {
		switch r.Intn(9) {
		case 0:
			d.provider[r.Intn(32)] ^= 1 << uint(r.Intn(8))
			return d, "provider"
		case 1:
			d.price ^= 1 << uint(r.Intn(64))
			return d, "price"
		case 2:
			d.expiry ^= 1 << uint(r.Intn(64))
			return d, "expiry"
		case 3:
			d.qos ^= 1 << uint(r.Intn(64))
			return d, "QoS"
		case 4:
			d.cids[r.Intn(len(d.cids))] = rb(r)
			return d, "a CID"
		case 5:
			if len(d.cids) > 1 {
				i := r.Intn(len(d.cids))
				d.cids = append(d.cids[:i], d.cids[i+1:]...)
				return d, "a CID removed"
			}
		case 6:
			i := r.Intn(len(d.cids) + 1)
			d.cids = append(d.cids[:i], append([][]byte{rb(r)}, d.cids[i:]...)...)
			return d, "a CID added"
		case 7:
			if len(d.cids) > 1 {
				i, j := r.Intn(len(d.cids)), r.Intn(len(d.cids))
				if i != j {
					d.cids[i], d.cids[j] = d.cids[j], d.cids[i]
					return d, "the order of CIDs"
				}
			}
		case 8:
			if c.price != c.qos {
				d.price, d.qos = c.qos, c.price
				return d, "price and QoS exchanged"
			}
		}
	}
}

type proofParts struct {
	Path  [][]byte
	Index []int64
}

func parseProof(j []byte) (p proofParts, ok bool) {
	var b []byte
	if json.Unmarshal(j, &b) != nil || len(b) < 8 {
		return p, false
	}
	n := int(binary.BigEndian.Uint32(b))
	if json.Unmarshal(b[4:4+n], &p.Path) != nil {
		return p, false
	}
	return p, json.Unmarshal(b[8+n:], &p.Index) == nil
}
func (p proofParts) json() []byte {
	a, _ := json.Marshal(p.Path)
	b, _ := json.Marshal(p.Index)
	buf := binary.BigEndian.AppendUint32(nil, uint32(len(a)))
	buf = append(buf, a...)
	buf = binary.BigEndian.AppendUint32(buf, uint32(len(b)))
	buf = append(buf, b...)
	j, _ := json.Marshal(buf)
	return j
}

type subJSON struct {
	ProviderID  string          `json:"provider_id"`
	SubCID      string          `json:"sub_cid"`
	MerkleRoot  string          `json:"merkle_root"`
	MerkleProof json.RawMessage `json:"merkle_proof"`
	Price       uint64          `json:"price"`
	Expiry      int64           `json:"expiry"`
	QoS         uint64          `json:"qos"`
	Signature   string          `json:"signature"`
}

func decodeSub(s subJSON) (*cidoffer.SubCIDOffer, error) {
	b, _ := json.Marshal(s)
	var o cidoffer.SubCIDOffer
	err := json.Unmarshal(b, &o)
	return &o, err
}

// accepted: would a client keep this sub-offer?
func accepted(o *cidoffer.SubCIDOffer, pub *fcrcrypto.KeyPair) bool {
	return o.Verify(pub) == nil && o.VerifyMerkleProof() == nil
}

func main() {
	kit.Main("C03", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		conc := k.Args["mode"] == "concurrent"
		var keys []*fcrcrypto.KeyPair
		var pubs []*fcrcrypto.KeyPair
		for i := 0; i < 4; i++ {
			kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
			if err != nil {
				k.Inconclusive("no key: %v", err)
				return
			}
			e, _ := kp.EncodePublicKey()
			pub, err := fcrcrypto.DecodePublicKey(e)
			if err != nil {
				k.Inconclusive("no key: %v", err)
				return
			}
			keys, pubs = append(keys, kp), append(pubs, pub)
		}
		if conc {
			concurrent(k, keys, pubs)
			return
		}
		for it := 0; it < k.N(500, 20000); it++ {
			r := k.Sub("offer", it)
			c := randContent(r)
			if it%250 == 249 {
				for n := 255 + r.Intn(200); len(c.cids) < n; {
					c.cids = append(c.cids, rb(r))
				}
				k.Count("offers of very many CIDs", 1)
			}
			if !k.NoPanic("panic", describe(c), func() { one(k, r, c, keys, pubs) }) {
				return
			}
			k.Eval(fmt.Sprint(c))
		}
		for _, bad := range []int{0} {
			if o, err := build(content{provider: make([]byte, 32)}); err == nil || o != nil {
				k.Violate("offer-without-cids", nil, "an offer for no CID was created (%d)", bad)
			}
		}
		k.Floor("offers accepted", 400)
		k.Floor("tampered offers rejected", 1000)
		k.Floor("sub-offers accepted", 1000)
		k.Floor("forged sub-offers rejected", 2000)
		k.Floor("interior nodes tried", 50)
		k.Floor("offers of very many CIDs", 2)
	})
}

func one(k *kit.K, r *rand.Rand, c content, keys, pubs []*fcrcrypto.KeyPair) {
	rep := describe(c)
	ki := r.Intn(len(keys))
	key, pub := keys[ki], pubs[ki]
	other := pubs[(ki+1+r.Intn(len(keys)-1))%len(keys)]
	o, err := build(c)
	if err != nil {
		k.Violate("create", rep, "creating the offer failed: %v", err)
		return
	}
	if w := sameOffer(o, c); w != "" {
		k.Violate("create:"+w, rep, "the created offer has another %s", w)
		return
	}
	ver := fcrcrypto.DecodeKeyVersion(r.Uint32())
	if err := o.Sign(key, ver); err != nil {
		k.Violate("sign", rep, "%v", err)
		return
	}
	if o.Verify(pub) != nil || o.Verify(key) != nil {
		k.Violate("verify-own", rep, "a freshly signed offer does not verify")
		return
	}
	if got, err := fcrcrypto.ExtractKeyVersionFromMessage(o.GetSignature()); err != nil || !got.Equals(ver) {
		k.Violate("key-version", rep, "the signature does not name the key version it was made with")
	}
	if o.Verify(other) == nil {
		k.Violate("verify-other-key", rep, "an offer verifies under another provider's key")
	}
	// codec
	j, err := json.Marshal(o)
	if err != nil {
		k.Violate("encode", rep, "%v", err)
		return
	}
	var o2 cidoffer.CIDOffer
	if err := json.Unmarshal(j, &o2); err != nil {
		k.Violate("decode", rep, "an encoded offer does not decode: %v", err)
		return
	}
	if w := sameOffer(&o2, c); w != "" {
		k.Violate("codec:"+w, rep, "the decoded offer has another %s", w)
	}
	if o2.GetSignature() != o.GetSignature() || o2.Verify(pub) != nil {
		k.Violate("codec:signature", rep, "the decoded offer does not verify")
	}
	if o2.GetMessageDigest() != o.GetMessageDigest() {
		k.Violate("codec:digest", rep, "the decoded offer has another digest")
	}
	k.Count("offers accepted", 1)
	dg := o.GetMessageDigest()
	if cidoffer.DecodeMessageDigest(cidoffer.EncodeMessageDigest(dg)) != dg {
		k.Violate("digest-codec", rep, "digest %x does not survive encoding", dg)
	}
	// tampering
	for i := 0; i < 6; i++ {
		d, what := mutate(r, c)
		t, err := build(d)
		if err != nil {
			k.Violate("create", describe(d), "%v", err)
			continue
		}
		t.SetSignature(o.GetSignature())
		if t.Verify(pub) == nil {
			k.Violate("tampered:"+what, map[string]interface{}{"signed": rep, "shown": describe(d)}, "an offer with %s changed still verifies", what)
		}
		if t.GetMessageDigest() == dg {
			k.Violate("digest-collision:"+what, map[string]interface{}{"one": rep, "other": describe(d)}, "two offers that differ in %s have the same digest", what)
		}
		// through the wire form too
		tj, _ := json.Marshal(t)
		var t2 cidoffer.CIDOffer
		if json.Unmarshal(tj, &t2) == nil && t2.Verify(pub) == nil {
			k.Violate("tampered:"+what, map[string]interface{}{"signed": rep, "shown": describe(d)}, "an offer with %s changed still verifies after decoding", what)
		}
		k.Count("tampered offers rejected", 1)
	}
	if sb, err := hex.DecodeString(o.GetSignature()); err == nil && len(sb) >= 68 {
		for i := 0; i < 3; i++ {
			b := append([]byte(nil), sb...)
			b[4+r.Intn(64)] ^= 1 << uint(r.Intn(8))
			o2.SetSignature(hex.EncodeToString(b))
			if o2.Verify(pub) == nil {
				k.Violate("tampered:signature", rep, "a changed signature verifies")
			}
		}
		for _, s := range []string{"", "00", "zz", o.GetSignature()[:8], o.GetSignature()[:20], o.GetSignature() + "0011"} {
			o2.SetSignature(s)
			if o2.Verify(pub) == nil {
				k.Violate("tampered:signature-length", s, "a cut or extended signature verifies")
			}
		}
	}
	// expiry
	now := time.Now().Unix()
	for _, e := range []int64{now - 5 - int64(r.Intn(1000000)), now + 60 + int64(r.Intn(1000000)), 0, 1 << 40, 1 << uint(r.Intn(63)), now - 1, now - 2, now + 3, math.MaxInt64 - int64(r.Intn(2)), math.MinInt64 + int64(r.Intn(2)), math.MaxInt64 - int64(r.Intn(1<<40))} {
		d := c.clone()
		d.expiry = e
		x, err := build(d)
		if err != nil {
			continue
		}
		a, b, late := time.Now().Unix(), false, false
		sub, err := x.GenerateSubCIDOffer(&x.GetCIDs()[0])
		if err == nil {
			b = sub.HasExpired()
		} else {
			k.Violate("expiry:sub", e, "no sub-offer of an offer expiring at %d: %v", e, err)
		}
		h := x.HasExpired()
		late = e >= a && time.Now().Unix() >= e // it expires meanwhile, or about now
		if !late && (h != (e < a) || err == nil && b != (e < a)) {
			k.Violate("expiry", e, "an offer expiring at %d is expired=%v, its sub-offer %v, at %d", e, h, b, a)
		}
		k.Count("expiries judged", 1)
	}
	// offers that differ in which amount is where
	for _, d := range rearranged(r, c) {
		if x, err := build(d); err == nil && sameOffer(o, d) != "" && x.GetMessageDigest() == o.GetMessageDigest() {
			k.Violate("digest:rearranged", []interface{}{rep, describe(d)}, "two different offers have the same digest")
		}
	}
	// sub-offers
	var honest []subJSON
	for i, b := range c.cids {
		id, _ := cid.NewContentIDFromBytes(b)
		s, err := o.GenerateSubCIDOffer(id)
		if err != nil || s == nil {
			k.Violate("sub:create", rep, "no sub-offer for CID %d of the offer: %v", i, err)
			continue
		}
		sj, err := json.Marshal(s)
		if err != nil {
			k.Violate("sub:encode", rep, "%v", err)
			continue
		}
		var s2 cidoffer.SubCIDOffer
		if err := json.Unmarshal(sj, &s2); err != nil {
			k.Violate("sub:decode", rep, "%v", err)
			continue
		}
		for _, x := range []*cidoffer.SubCIDOffer{s, &s2} {
			if !bytes.Equal(x.GetSubCID().ToBytes(), b) || !bytes.Equal(x.GetProviderID().ToBytes(), c.provider) || x.GetPrice() != c.price || x.GetExpiry() != c.expiry || x.GetQoS() != c.qos || x.GetSignature() != o.GetSignature() {
				k.Violate("sub:fields", rep, "a sub-offer differs from its offer")
			}
			if x.Verify(pub) != nil {
				k.Violate("sub:verify", rep, "an honest sub-offer (CID %d of %d) fails signature verification", i, len(c.cids))
			}
			if x.VerifyMerkleProof() != nil {
				k.Violate("sub:proof", rep, "an honest sub-offer (CID %d of %d) fails membership verification", i, len(c.cids))
			}
			if x.Verify(other) == nil {
				k.Violate("sub:verify-other-key", rep, "a sub-offer verifies under another key")
			}
			if x.HasExpired() != (c.expiry < now) && (c.expiry < now-5 || c.expiry > now+5) {
				k.Violate("sub:expiry", rep, "a sub-offer expiring at %d is expired=%v at %d", c.expiry, x.HasExpired(), now)
			}
		}
		var raw subJSON
		_ = json.Unmarshal(sj, &raw)
		honest = append(honest, raw)
		k.Count("sub-offers accepted", 1)
	}
	if len(honest) == 0 {
		return
	}
	outside := rb(r)
	oid, _ := cid.NewContentIDFromBytes(outside)
	if s, err := o.GenerateSubCIDOffer(oid); err == nil && s != nil {
		k.Violate("sub:non-member-created", rep, "a sub-offer was generated for %x, which is not in the offer", outside)
	}
	// forgeries: nothing but the offer's own CIDs and terms may be accepted
	for i := 0; i < 8; i++ {
		f := honest[r.Intn(len(honest))]
		what := ""
		pp, ok := parseProof(f.MerkleProof)
		switch r.Intn(10) {
		case 0:
			f.SubCID, what = hex.EncodeToString(outside), "another CID"
		case 1:
			f.SubCID, what = hex.EncodeToString(outside), "another CID and an empty proof"
			f.MerkleProof = proofParts{}.json()
		case 2:
			f.SubCID, what = hex.EncodeToString(outside), "another CID and its own root"
			root := sha256.Sum256(append(append([]byte(nil), outside...), outside...))
			f.MerkleRoot = hex.EncodeToString(root[:])
			f.MerkleProof = proofParts{[][]byte{outside}, []int64{1}}.json()
		case 3:
			f.SubCID, what = hex.EncodeToString(outside), "another CID as its own root"
			f.MerkleRoot = hex.EncodeToString(outside)
			f.MerkleProof = proofParts{}.json()
		case 4:
			f.Price, what = f.Price^(1<<uint(r.Intn(64))), "price"
		case 5:
			f.Expiry, what = f.Expiry^(1<<uint(r.Intn(64))), "expiry"
		case 6:
			f.QoS, what = f.QoS^(1<<uint(r.Intn(64))), "QoS"
		case 7:
			f.ProviderID, what = hex.EncodeToString(rb(r)), "provider"
		case 8:
			if !ok || len(pp.Path) == 0 {
				continue
			}
			f.SubCID, what = hex.EncodeToString(outside), "another CID and more hashes than positions"
			pp.Index = pp.Index[:r.Intn(len(pp.Index))]
			f.MerkleProof = pp.json()
		case 9:
			if !ok || len(pp.Path) == 0 {
				continue
			}
			what = "a changed sibling"
			pp.Path[r.Intn(len(pp.Path))] = rb(r)
			f.MerkleProof = pp.json()
		}
		s, err := decodeSub(f)
		if err == nil && accepted(s, pub) {
			k.Violate("sub:forged:"+what, map[string]interface{}{"offer": rep, "forged": f}, "a forged sub-offer (%s) is accepted", what)
		}
		k.Count("forged sub-offers rejected", 1)
	}
	// a hash inside the tree, passed off as a CID
	if pp, ok := parseProof(honest[0].MerkleProof); ok && len(pp.Path) > 0 && len(pp.Index) == len(pp.Path) {
		h := append([]byte(nil), c.cids[0]...)
		cut := 1 + r.Intn(len(pp.Path))
		for i := 0; i < cut; i++ {
			var s [32]byte
			if pp.Index[i] == 1 {
				s = sha256.Sum256(append(h, pp.Path[i]...))
			} else {
				s = sha256.Sum256(append(append([]byte(nil), pp.Path[i]...), h...))
			}
			h = append([]byte(nil), s[:]...)
		}
		f := honest[0]
		f.SubCID = hex.EncodeToString(h)
		f.MerkleProof = proofParts{pp.Path[cut:], pp.Index[cut:]}.json()
		if s, err := decodeSub(f); err == nil && accepted(s, pub) {
			k.Violate("sub:interior-node-as-cid", map[string]interface{}{"offer": rep, "forged": f}, "a hash from inside the offer's tree is accepted as one of its CIDs")
		}
		k.Count("interior nodes tried", 1)
	}
	k.Sample("offer", rep)
}

// concurrent: one offer, its key and its sub-offers shared by several goroutines (run under the race detector)
func concurrent(k *kit.K, keys, pubs []*fcrcrypto.KeyPair) {
	for it := 0; it < k.N(40, 600); it++ {
		r := k.Sub("conc", it)
		c := randContent(r)
		o, err := build(c)
		if err != nil {
			k.Violate("create", describe(c), "%v", err)
			return
		}
		kp, _ := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err := o.Sign(kp, fcrcrypto.InitialKeyVersion()); err != nil {
			k.Violate("sign", describe(c), "%v", err)
			return
		}
		id, _ := cid.NewContentIDFromBytes(c.cids[r.Intn(len(c.cids))])
		s, err := o.GenerateSubCIDOffer(id)
		if err != nil {
			k.Violate("sub:create", describe(c), "%v", err)
			return
		}
		k.Parallel("concurrent", 6, func(i int) {
			for n := 0; n < 4; n++ {
				switch (i + n) % 6 {
				case 0:
					if o.Verify(kp) != nil {
						k.Violate("concurrent:verify", describe(c), "verification fails when done concurrently")
					}
				case 1:
					if s.Verify(kp) != nil || s.VerifyMerkleProof() != nil {
						k.Violate("concurrent:sub-verify", describe(c), "sub-offer verification fails when done concurrently")
					}
				case 2:
					if x, err := o.GenerateSubCIDOffer(id); err != nil || x.VerifyMerkleProof() != nil {
						k.Violate("concurrent:sub-create", describe(c), "sub-offer creation fails when done concurrently")
					}
				case 3:
					o.GetMessageDigest()
				case 4:
					if _, err := json.Marshal(o); err != nil {
						k.Violate("concurrent:encode", describe(c), "%v", err)
					}
				case 5:
					if _, err := kp.EncodePublicKey(); err != nil {
						k.Violate("concurrent:key", describe(c), "%v", err)
					}
				}
				k.Count("concurrent operations on a shared offer", 1)
			}
		})
		k.Eval(fmt.Sprint(c))
	}
	k.Floor("concurrent operations on a shared offer", 500)
}
