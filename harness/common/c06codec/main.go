//go:build go1.22

// C06: every kind of message carries its fields unchanged, through the signed envelope too, and is never taken for
// another kind.
package main

import (
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

func main() {
	kit.Main("C06", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		r0 := k.Sub("key", 0)
		key := fakes.KeyFrom(r0)
		pub := fakes.Pub(key)
		seenTypes := map[int32]string{}
		for ki, kind := range fakes.MessageKinds {
			for it := 0; it < k.N(12, 400); it++ {
				r := k.Sub(kind.Name, it)
				ok := k.NoPanic("panic:"+kind.Name, fmt.Sprint(kind.Name, " case ", it), func() {
					m, args, err := fakes.RandKind(r, key, kind, 1)
					if err != nil {
						k.Violate("encode:"+kind.Name, fakes.Canon(args), "encoding failed: %v", err)
						return
					}
					want := fakes.Canon(args)
					check := func(how string, x *fcrmessages.FCRMessage) {
						got, err := fakes.DecodeKind(kind, x)
						if err != nil {
							k.Violate("decode:"+kind.Name, want, "decoding (%s) failed: %v", how, err)
							return
						}
						if g := fakes.Canon(got); g != want {
							k.Violate("fields:"+kind.Name, map[string]string{"sent": want, "received": g}, "%s: fields changed (%s)", kind.Name, how)
						}
						k.Count("messages decoded", 1)
					}
					check("direct", m)
					if it == 0 {
						if o, dup := seenTypes[m.GetMessageType()]; dup {
							k.Violate("same-type:"+o+"="+kind.Name, m.GetMessageType(), "%s and %s share message type %d", o, kind.Name, m.GetMessageType())
						}
						seenTypes[m.GetMessageType()] = kind.Name
					}
					if err := m.Sign(key, fcrcrypto.InitialKeyVersion()); err != nil {
						k.Violate("sign:"+kind.Name, want, "%v", err)
						return
					}
					b, err := m.FCRMsgToBytes()
					if err != nil {
						k.Violate("bytes:"+kind.Name, want, "%v", err)
						return
					}
					x, err := fcrmessages.FCRMsgFromBytes(b)
					if err != nil {
						k.Violate("bytes:"+kind.Name, string(b), "a message does not survive the wire: %v", err)
						return
					}
					if x.Verify(pub) != nil {
						k.Violate("wire-signature:"+kind.Name, string(b), "a signed message does not verify after the wire")
					}
					check("after the wire", x)
					// never taken for another kind
					for oi, other := range fakes.MessageKinds {
						if oi == ki {
							continue
						}
						if it >= 3 && (it+oi)%8 != 0 {
							continue
						}
						if _, err := fakes.DecodeKind(other, x); err == nil {
							k.Violate("confusion:"+kind.Name+"->"+other.Name, string(b), "a %s is decoded as a %s", kind.Name, other.Name)
						}
						k.Count("foreign kinds refused", 1)
					}
					k.Eval(kind.Name + want)
					if ki%17 == 0 {
						k.Sample(kind.Name, want)
					}
				})
				if !ok {
					break
				}
			}
		}
		groupInSingle(k, key)
		k.Floor("messages decoded", 1000)
		k.Floor("foreign kinds refused", 5000)
	})
}

// groupInSingle: the publication of single offers refuses an offer of several CIDs wherever it stands in the list
func groupInSingle(k *kit.K, key *fcrcrypto.KeyPair) {
	for it := 0; it < k.N(60, 1000); it++ {
		r := k.Sub("group", it)
		var l []cidoffer.CIDOffer
		group := 0
		for i := 1 + r.Intn(4); i > 0; i-- {
			o := fakes.RandOffer(r, key)
			if len(o.GetCIDs()) > 1 {
				group++
			}
			l = append(l, *o)
		}
		m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(fakes.RandNode(r), 1, l)
		if err != nil {
			k.Violate("encode:ProviderPublishDHTOfferRequest", nil, "%v", err)
			return
		}
		_, _, got, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		if (err == nil) != (group == 0) || (err == nil && len(got) != len(l)) {
			k.Violate("group-offer-among-single-offers", fakes.Canon(l), "a publication of %d offers, %d of them for several CIDs, is decoded with error %v", len(l), group, err)
		}
		k.Eval("group" + fakes.Canon(l))
	}
}
