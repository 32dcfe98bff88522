//go:build go1.22

// Package fakes holds what the harnesses share: generators of protocol values, and stand-ins for the services
// around a node (register, chain, peers).
package fakes

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/cbergoon/merkletree"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
)

// Must panics on a harness mistake.
func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// RandCID draws a CID.
func RandCID(r *rand.Rand) *cid.ContentID {
	b := make([]byte, 32)
	r.Read(b)
	switch r.Intn(12) {
	case 0:
		b = make([]byte, 32)
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	}
	c, err := cid.NewContentIDFromBytes(b)
	Must(err)
	return c
}

// RandNode draws a node ID.
func RandNode(r *rand.Rand) *nodeid.NodeID {
	b := make([]byte, 32)
	r.Read(b)
	if r.Intn(12) == 0 {
		b = make([]byte, 32)
	}
	c, err := nodeid.NewNodeIDFromBytes(b)
	Must(err)
	return c
}

// NewNode draws a node ID that no other draw gives.
func NewNode(r *rand.Rand) *nodeid.NodeID {
	b := make([]byte, 32)
	r.Read(b)
	c, err := nodeid.NewNodeIDFromBytes(b)
	Must(err)
	return c
}

// NewCID draws a CID that no other draw gives.
func NewCID(r *rand.Rand) *cid.ContentID {
	b := make([]byte, 32)
	r.Read(b)
	c, err := cid.NewContentIDFromBytes(b)
	Must(err)
	return c
}

// KeyFrom makes a key pair out of a seeded generator.
func KeyFrom(r *rand.Rand) *fcrcrypto.KeyPair {
	b := make([]byte, 32)
	r.Read(b)
	b[0] &= 0x7f
	b[31] |= 1
	k, err := fcrcrypto.DecodeRawPrivateKey(hex.EncodeToString(b))
	Must(err)
	return k
}

// Pub is the public half.
func Pub(k *fcrcrypto.KeyPair) *fcrcrypto.KeyPair {
	e, err := k.EncodePublicKey()
	Must(err)
	p, err := fcrcrypto.DecodePublicKey(e)
	Must(err)
	return p
}

// PubHex is the encoded public half.
func PubHex(k *fcrcrypto.KeyPair) string {
	e, err := k.EncodePublicKey()
	Must(err)
	return e
}

// RandString draws a string with the characters encoders get wrong.
func RandString(r *rand.Rand) string {
	alpha := []string{"a", "Z", "0", " ", "\"", "\\", "<", ">", "&", "/", "\n", "\t", "\u0000", "é", "世", "\u2028", "😀", "=", "+", "%"}
	n := []int{0, 1, 5, 40}[r.Intn(4)]
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alpha[r.Intn(len(alpha))])
	}
	return b.String()
}

// RandInt64 draws numbers at the borders.
func RandInt64(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return math.MaxInt64 - int64(r.Intn(3))
	case 2:
		return math.MinInt64 + int64(r.Intn(3))
	case 3:
		return int64(r.Intn(100)) - 50
	case 4:
		return 1<<53 + int64(r.Intn(9)) - 4
	}
	return int64(r.Uint64())
}

// RandOffer draws a signed offer.
func RandOffer(r *rand.Rand, key *fcrcrypto.KeyPair) *cidoffer.CIDOffer {
	n := 1 + r.Intn(5)
	var cs []cid.ContentID
	for i := 0; i < n; i++ {
		cs = append(cs, *RandCID(r))
	}
	expiry := time.Now().Add(time.Hour).Unix()
	if r.Intn(3) == 0 {
		expiry = RandInt64(r)
	}
	o, err := cidoffer.NewCIDOffer(RandNode(r), cs, r.Uint64(), expiry, r.Uint64())
	Must(err)
	if r.Intn(8) > 0 {
		Must(o.Sign(key, fcrcrypto.DecodeKeyVersion(r.Uint32())))
	}
	return o
}

// RandProof draws a membership proof.
func RandProof(r *rand.Rand) *fcrmerkletree.FCRMerkleProof {
	n := 1 + r.Intn(9)
	var l []merkletree.Content
	var c []*cid.ContentID
	for i := 0; i < n; i++ {
		x := RandCID(r)
		c = append(c, x)
		l = append(l, *x)
	}
	t, err := fcrmerkletree.CreateMerkleTree(l)
	Must(err)
	p, err := t.GenerateMerkleProof(c[r.Intn(n)])
	Must(err)
	return p
}

// RandMessage draws a message of any kind.
func RandMessage(r *rand.Rand, key *fcrcrypto.KeyPair, depth int) *fcrmessages.FCRMessage {
	for {
		k := MessageKinds[r.Intn(len(MessageKinds))]
		m, _, err := RandKind(r, key, k, depth)
		Must(err)
		if m != nil {
			if r.Intn(4) > 0 {
				Must(m.Sign(key, fcrcrypto.DecodeKeyVersion(r.Uint32())))
			}
			return m
		}
	}
}

// RandKind draws arguments for the encoder of kind k and encodes them.
func RandKind(r *rand.Rand, key *fcrcrypto.KeyPair, k MessageKind, depth int) (*fcrmessages.FCRMessage, []interface{}, error) {
	f := reflect.ValueOf(k.Encode)
	var in []reflect.Value
	var args []interface{}
	for i := 0; i < f.Type().NumIn(); i++ {
		t := f.Type().In(i)
		v := reflect.ValueOf(randValue(r, key, t, depth))
		if k.Name == "ProviderPublishDHTOfferRequest" && t == reflect.TypeOf([]cidoffer.CIDOffer{}) {
			v = reflect.ValueOf(singleOffers(r, key)) // this kind carries offers of one CID each
		}
		in = append(in, v)
		args = append(args, v.Interface())
	}
	out := f.Call(in)
	if e := out[1].Interface(); e != nil {
		return nil, args, e.(error)
	}
	return out[0].Interface().(*fcrmessages.FCRMessage), args, nil
}

func singleOffers(r *rand.Rand, key *fcrcrypto.KeyPair) []cidoffer.CIDOffer {
	var l []cidoffer.CIDOffer
	for i := r.Intn(4); i > 0; i-- {
		o, err := cidoffer.NewCIDOffer(RandNode(r), []cid.ContentID{*RandCID(r)}, r.Uint64(), RandInt64(r), r.Uint64())
		Must(err)
		Must(o.Sign(key, fcrcrypto.InitialKeyVersion()))
		l = append(l, *o)
	}
	return l
}

func randValue(r *rand.Rand, key *fcrcrypto.KeyPair, t reflect.Type, depth int) interface{} {
	switch t {
	case reflect.TypeOf(&cid.ContentID{}):
		return RandCID(r)
	case reflect.TypeOf(cid.ContentID{}):
		return *RandCID(r)
	case reflect.TypeOf(&nodeid.NodeID{}):
		return RandNode(r)
	case reflect.TypeOf(nodeid.NodeID{}):
		return *RandNode(r)
	case reflect.TypeOf(&fcrcrypto.KeyPair{}):
		return KeyFrom(r)
	case reflect.TypeOf(&fcrcrypto.KeyVersion{}):
		return fcrcrypto.DecodeKeyVersion(r.Uint32())
	case reflect.TypeOf(&cidoffer.CIDOffer{}):
		return RandOffer(r, key)
	case reflect.TypeOf(cidoffer.CIDOffer{}):
		return *RandOffer(r, key)
	case reflect.TypeOf(cidoffer.SubCIDOffer{}):
		o := RandOffer(r, key)
		s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[r.Intn(len(o.GetCIDs()))])
		Must(err)
		return *s
	case reflect.TypeOf(&fcrmerkletree.FCRMerkleProof{}):
		return RandProof(r)
	case reflect.TypeOf(&fcrmessages.FCRMessage{}), reflect.TypeOf(fcrmessages.FCRMessage{}):
		var m *fcrmessages.FCRMessage
		if depth <= 0 {
			b := make([]byte, r.Intn(50))
			r.Read(b)
			m = fcrmessages.CreateFCRMessage(int32(r.Uint32()), b)
		} else {
			m = RandMessage(r, key, depth-1)
		}
		if t.Kind() == reflect.Ptr {
			return m
		}
		return *m
	}
	switch t.Kind() {
	case reflect.String:
		return RandString(r)
	case reflect.Bool:
		return r.Intn(2) == 0
	case reflect.Int64:
		return RandInt64(r)
	case reflect.Int32:
		return int32(RandInt64(r))
	case reflect.Uint64:
		return uint64(RandInt64(r))
	case reflect.Slice:
		n := []int{0, 1, 2, 5}[r.Intn(4)]
		s := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			s = reflect.Append(s, reflect.ValueOf(randValue(r, key, t.Elem(), depth)))
		}
		return s.Interface()
	}
	panic("harness: no generator for " + t.String())
}

// Canon describes a protocol value so that two can be compared: nil and empty lists are alike.
func Canon(v interface{}) string {
	switch x := v.(type) {
	case *cid.ContentID:
		if x == nil {
			return "nil"
		}
		return "cid:" + x.ToString()
	case cid.ContentID:
		return "cid:" + x.ToString()
	case *nodeid.NodeID:
		if x == nil {
			return "nil"
		}
		return "node:" + x.ToString()
	case nodeid.NodeID:
		return "node:" + x.ToString()
	case *fcrcrypto.KeyPair:
		if x == nil {
			return "nil"
		}
		p, err := x.EncodePublicKey()
		return fmt.Sprint("key:", x.EncodePrivateKey(), p, err)
	case *fcrcrypto.KeyVersion:
		if x == nil {
			return "nil"
		}
		return fmt.Sprint("ver:", x.EncodeKeyVersion())
	case *cidoffer.CIDOffer:
		if x == nil {
			return "nil"
		}
		return canonOffer(x)
	case cidoffer.CIDOffer:
		return canonOffer(&x)
	case *cidoffer.SubCIDOffer:
		if x == nil {
			return "nil"
		}
		return canonSub(x)
	case cidoffer.SubCIDOffer:
		return canonSub(&x)
	case *fcrmerkletree.FCRMerkleProof:
		if x == nil {
			return "nil"
		}
		j, err := json.Marshal(x)
		return fmt.Sprint("proof:", string(j), err)
	case *fcrmessages.FCRMessage:
		if x == nil {
			return "nil"
		}
		return canonMsg(x)
	case fcrmessages.FCRMessage:
		return canonMsg(&x)
	}
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Kind() == reflect.Slice {
		var p []string
		for i := 0; i < rv.Len(); i++ {
			p = append(p, Canon(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(p, ";") + "]"
	}
	return fmt.Sprintf("%T:%q", v, fmt.Sprint(v))
}

func canonMsg(m *fcrmessages.FCRMessage) string {
	return fmt.Sprintf("msg:%d/%d/%v/%x/%s", m.GetMessageType(), m.GetProtocolVersion(), m.GetProtocolSupported(), m.GetMessageBody(), m.GetSignature())
}

func canonOffer(o *cidoffer.CIDOffer) string {
	d := o.GetMessageDigest()
	return fmt.Sprintf("offer:%s/%s/%d/%d/%d/%s/%x", Canon(o.GetProviderID()), Canon(o.GetCIDs()), o.GetPrice(), o.GetExpiry(), o.GetQoS(), o.GetSignature(), d)
}

func canonSub(o *cidoffer.SubCIDOffer) string {
	return fmt.Sprintf("sub:%s/%s/%s/%s/%d/%d/%d/%s", Canon(o.GetProviderID()), Canon(o.GetSubCID()), o.GetMerkleRoot(), Canon(o.GetMerkleProof()), o.GetPrice(), o.GetExpiry(), o.GetQoS(), o.GetSignature())
}

// DecodeKind runs the decoder of kind k: results, and its error.
func DecodeKind(k MessageKind, m *fcrmessages.FCRMessage) ([]interface{}, error) {
	out := reflect.ValueOf(k.Decode).Call([]reflect.Value{reflect.ValueOf(m)})
	var res []interface{}
	for _, o := range out[:len(out)-1] {
		res = append(res, o.Interface())
	}
	if e := out[len(out)-1].Interface(); e != nil {
		return res, e.(error)
	}
	return res, nil
}
