//go:build go1.22

// C07: no bytes crash a decoder, and what a decoder accepts can be used.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

var key, pub *fcrcrypto.KeyPair

// use does with a decoded value what nodes do with it
func use(k *kit.K, kind string, v interface{}, depth int) (bad string) {
	switch x := v.(type) {
	case *cid.ContentID:
		if x == nil {
			return "nil CID"
		}
		if len(x.ToBytes()) != 32 {
			return fmt.Sprintf("CID of %d bytes", len(x.ToBytes()))
		}
		_ = x.ToString()
		return ""
	case cid.ContentID:
		return use(k, kind, &x, depth)
	case *nodeid.NodeID:
		if x == nil {
			return "nil node ID"
		}
		if len(x.ToBytes()) != 32 {
			return fmt.Sprintf("node ID of %d bytes", len(x.ToBytes()))
		}
		return ""
	case nodeid.NodeID:
		return use(k, kind, &x, depth)
	case *fcrcrypto.KeyPair:
		if x == nil {
			return "nil key"
		}
		_, _ = x.EncodePublicKey()
		_, _ = x.HashPublicKey()
		if x.EncodePrivateKey() != "01" {
			if s, err := x.Sign([]byte("x")); err == nil {
				_, _ = x.Verify(s, []byte("x"))
			}
		}
		return ""
	case *fcrcrypto.KeyVersion:
		if x == nil {
			return "nil key version"
		}
		return ""
	case *cidoffer.CIDOffer:
		if x == nil || x.GetProviderID() == nil {
			return "offer without provider"
		}
		if len(x.GetCIDs()) == 0 {
			return "offer without CIDs"
		}
		for _, c := range x.GetCIDs() {
			if b := use(k, kind, c, depth); b != "" {
				return b
			}
		}
		_ = x.Verify(pub)
		x.GetMessageDigest()
		x.HasExpired()
		if s, err := x.GenerateSubCIDOffer(&x.GetCIDs()[0]); err == nil {
			_ = s.VerifyMerkleProof()
		}
		_, _ = json.Marshal(x)
		return ""
	case cidoffer.CIDOffer:
		return use(k, kind, &x, depth)
	case *cidoffer.SubCIDOffer:
		if x == nil || x.GetProviderID() == nil || x.GetSubCID() == nil || x.GetMerkleProof() == nil {
			return "incomplete sub-offer"
		}
		_ = x.Verify(pub)
		_ = x.VerifyMerkleProof()
		x.HasExpired()
		_, _ = json.Marshal(x)
		return ""
	case cidoffer.SubCIDOffer:
		return use(k, kind, &x, depth)
	case *fcrmerkletree.FCRMerkleProof:
		if x == nil {
			return "nil proof"
		}
		c := fakes.RandCID(rand.New(rand.NewSource(1)))
		x.VerifyContent(c, "00")
		_, _ = json.Marshal(x)
		return ""
	case *fcrmessages.FCRMessage:
		if x == nil {
			return "nil message"
		}
		_ = x.Verify(pub)
		_, _ = x.FCRMsgToBytes()
		x.DumpMessage()
		_, _ = fcrcrypto.ExtractKeyVersionFromMessage(x.GetSignature())
		if depth > 0 {
			for _, kd := range fakes.MessageKinds {
				if res, err := fakes.DecodeKind(kd, x); err == nil {
					for _, y := range res {
						if b := use(k, kd.Name, y, depth-1); b != "" {
							return kd.Name + ": " + b
						}
					}
				}
			}
		}
		return ""
	case fcrmessages.FCRMessage:
		return use(k, kind, &x, depth)
	}
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Kind() == reflect.Slice {
		for i := 0; i < rv.Len(); i++ {
			if b := use(k, kind, rv.Index(i).Interface(), depth); b != "" {
				return b
			}
		}
	}
	return ""
}

func main() {
	kit.Main("C07", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		r0 := k.Sub("keys", 0)
		key = fakes.KeyFrom(r0)
		pub = fakes.Pub(key)
		for _, kind := range fakes.MessageKinds {
			kind := kind
			for it := 0; it < k.N(400, 20000); it++ {
				r := k.Sub(kind.Name, it)
				m, _, err := fakes.RandKind(r, key, kind, 1)
				if err != nil {
					k.Violate("encode:"+kind.Name, nil, "%v", err)
					break
				}
				body := fakes.Mutate(r, m.GetMessageBody())
				k.NoPanic("panic:decode "+kind.Name, string(body), func() {
					x := fcrmessages.CreateFCRMessage(m.GetMessageType(), body)
					res, err := fakes.DecodeKind(kind, x)
					if err != nil {
						k.Count("hostile bodies refused", 1)
						return
					}
					k.Count("altered bodies accepted and used", 1)
					for _, v := range res {
						if b := use(k, kind.Name, v, 1); b != "" {
							k.Violate("unusable:"+kind.Name+": "+b, string(body), "%s accepted a body that decodes to a %s", kind.Name, b)
						}
					}
				})
				k.Eval(kind.Name + string(body))
				if it == 0 {
					k.Sample("body", string(body[:min(len(body), 200)]))
				}
			}
		}
		// whole messages and the other things that arrive as bytes
		type target struct {
			name string
			gen  func(r *rand.Rand) interface{}
			dec  func(b []byte) (interface{}, error)
		}
		targets := []target{
			{"message", func(r *rand.Rand) interface{} { return fakes.RandMessage(r, key, 1) }, func(b []byte) (interface{}, error) { return fcrmessages.FCRMsgFromBytes(b) }},
			{"offer", func(r *rand.Rand) interface{} { return fakes.RandOffer(r, key) }, func(b []byte) (interface{}, error) {
				var o cidoffer.CIDOffer
				err := json.Unmarshal(b, &o)
				return &o, err
			}},
			{"sub-offer", func(r *rand.Rand) interface{} {
				o := fakes.RandOffer(r, key)
				s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
				fakes.Must(err)
				return s
			}, func(b []byte) (interface{}, error) {
				var o cidoffer.SubCIDOffer
				err := json.Unmarshal(b, &o)
				return &o, err
			}},
			{"proof", func(r *rand.Rand) interface{} { return fakes.RandProof(r) }, func(b []byte) (interface{}, error) {
				var o fcrmerkletree.FCRMerkleProof
				err := json.Unmarshal(b, &o)
				return &o, err
			}},
			{"CID", func(r *rand.Rand) interface{} { return fakes.RandCID(r) }, func(b []byte) (interface{}, error) {
				var o cid.ContentID
				err := json.Unmarshal(b, &o)
				return &o, err
			}},
			{"node ID", func(r *rand.Rand) interface{} { return fakes.RandNode(r) }, func(b []byte) (interface{}, error) {
				var o nodeid.NodeID
				err := json.Unmarshal(b, &o)
				return &o, err
			}},
			{"public key", func(r *rand.Rand) interface{} { return fakes.KeyFrom(r) }, func(b []byte) (interface{}, error) {
				var o fcrcrypto.KeyPair
				err := json.Unmarshal(b, &o)
				return &o, err
			}},
		}
		for _, t := range targets {
			t := t
			for it := 0; it < k.N(3000, 150000); it++ {
				r := k.Sub(t.name, it)
				doc, err := json.Marshal(t.gen(r))
				fakes.Must(err)
				b := fakes.Mutate(r, doc)
				k.NoPanic("panic:"+t.name, string(b), func() {
					v, err := t.dec(b)
					if err != nil {
						k.Count("hostile bytes refused", 1)
						return
					}
					if bad := use(k, t.name, v, 1); bad != "" {
						k.Violate("unusable:"+t.name+": "+bad, string(b), "a %s was decoded from bytes that make it a %s", t.name, bad)
					}
					k.Count("altered bytes accepted and used", 1)
				})
				k.Eval(t.name + string(b))
			}
		}
		// register entries: bad keys and identifiers in them are reported, not crashed on
		for it := 0; it < k.N(2000, 50000); it++ {
			r := k.Sub("register", it)
			id, pk := fakes.RandNode(r).ToString(), fakes.PubHex(key)
			g := register.NewGatewayRegister(id, "f0"+id[:6], pk, pk, "US", "http://x", "http://x", "http://x", "http://x")
			doc, _ := json.Marshal(g)
			b := fakes.Mutate(r, doc)
			k.NoPanic("panic:register", string(b), func() {
				var x register.GatewayRegister
				if json.Unmarshal(b, &x) == nil {
					if p, err := x.GetRootSigningKey(); err == nil {
						use(k, "register", p, 0)
					}
					if p, err := x.GetSigningKey(); err == nil {
						use(k, "register", p, 0)
					}
				}
				var y register.ProviderRegister
				if json.Unmarshal(b, &y) == nil {
					if p, err := y.GetRootSigningKey(); err == nil {
						use(k, "register", p, 0)
					}
					if p, err := y.GetSigningKey(); err == nil {
						use(k, "register", p, 0)
					}
				}
				k.Count("register entries", 1)
			})
			k.Eval("register" + string(b))
		}
		digest(k)
		k.Floor("hostile bodies refused", 5000)
		k.Floor("altered bodies accepted and used", 2000)
		k.Floor("hostile bytes refused", 2000)
		k.Floor("altered bytes accepted and used", 500)

	})
}

func digest(k *kit.K) {
	for it := 0; it < k.N(500, 5000); it++ {
		r := k.Sub("digest", it)
		s := fakes.RandString(r)
		k.NoPanic("panic:digest", s, func() { cidoffer.DecodeMessageDigest(s) })
		k.Eval("digest" + s)
	}
}
