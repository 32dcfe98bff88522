//go:build go1.22

// C05: a message's signature covers everything the message says, and checking it leaves the message as it was.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

type wire struct {
	MessageType       int32   `json:"message_type"`
	ProtocolVersion   int32   `json:"protocol_version"`
	ProtocolSupported []int32 `json:"protocol_supported"`
	MessageBody       []byte  `json:"message_body"`
	Signature         string  `json:"message_signature"`
}

func parse(w wire) *fcrmessages.FCRMessage {
	b, _ := json.Marshal(w)
	m, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		return nil
	}
	return m
}

func state(m *fcrmessages.FCRMessage) string { return fakes.Canon(m) }

// watchVerify verifies and sees to it that the message stays as it was
func watchVerify(k *kit.K, m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair) bool {
	before := state(m)
	err := m.Verify(key)
	if after := state(m); after != before {
		k.Violate("verify-changes-message", map[string]string{"before": before, "after": after}, "verification (result: %v) changed the message", err)
	}
	k.Count("verifications watched", 1)
	return err == nil
}

func main() {
	kit.Main("C05", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		r0 := k.Sub("keys", 0)
		key, other := fakes.KeyFrom(r0), fakes.KeyFrom(r0)
		pub, opub := fakes.Pub(key), fakes.Pub(other)
		if k.Args["mode"] == "concurrent" {
			concurrent(k, key, pub)
			return
		}
		v0, s0 := fcrmessages.GetCurrentProtocolVersion()
		for it := 0; it < k.N(500, 20000); it++ {
			r := k.Sub("msg", it)
			if it%50 == 49 { // protocol numbers are part of what is signed
				fcrmessages.SetCurrentProtocolVersion(int32(r.Intn(9)), []int32{int32(r.Intn(9)), int32(r.Intn(9)), int32(r.Intn(9))}[:r.Intn(4)])
			} else if it%50 == 0 {
				fcrmessages.SetCurrentProtocolVersion(v0, s0)
			}
			if !k.NoPanic("panic", it, func() { one(k, r, key, pub, other, opub) }) {
				return
			}
		}
		k.Floor("verifications watched", 5000)
		k.Floor("altered messages refused", 3000)
		k.Floor("very long messages", 10)
	})
}

func one(k *kit.K, r *rand.Rand, key, pub, other, opub *fcrcrypto.KeyPair) {
	var m *fcrmessages.FCRMessage
	if r.Intn(2) == 0 {
		m = fakes.RandMessage(r, key, 1)
	} else {
		b := make([]byte, []int{0, 1, 10, 300, 5000}[r.Intn(5)])
		if r.Intn(25) == 0 {
			b = make([]byte, []int{66000, 140000, 300000}[r.Intn(3)]+r.Intn(1000))
			k.Count("very long messages", 1)
		}
		r.Read(b)
		m = fcrmessages.CreateFCRMessage(int32(r.Uint32()), b)
		if m.GetSignature() != "" {
			k.Violate("born-signed", state(m), "a new message carries a signature")
		}
		if watchVerify(k, m, pub) {
			k.Violate("accepts:unsigned", state(m), "an unsigned message verifies")
		}
	}
	pv, ps := fcrmessages.GetCurrentProtocolVersion()
	if m.GetProtocolVersion() != pv || fmt.Sprint(m.GetProtocolSupported()) != fmt.Sprint(ps) {
		k.Violate("protocol-version", state(m), "a new message names protocol %d %v, current is %d %v", m.GetProtocolVersion(), m.GetProtocolSupported(), pv, ps)
	}
	typ, body := m.GetMessageType(), hex.EncodeToString(m.GetMessageBody())
	ver := fcrcrypto.DecodeKeyVersion(r.Uint32())
	if err := m.Sign(key, ver); err != nil {
		k.Violate("sign", state(m), "%v", err)
		return
	}
	if m.GetMessageType() != typ || hex.EncodeToString(m.GetMessageBody()) != body {
		k.Violate("sign-changes-message", state(m), "signing changed the message")
	}
	if x, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature()); err != nil || !x.Equals(ver) {
		k.Violate("key-version", state(m), "the signature does not name its key version: %v %v", x, err)
	}
	if !watchVerify(k, m, pub) || !watchVerify(k, m, key) || !watchVerify(k, m, pub) {
		k.Violate("verify-own", state(m), "a freshly signed message does not verify")
		return
	}
	if watchVerify(k, m, opub) || watchVerify(k, m, other) {
		k.Violate("accepts:another key", state(m), "a message verifies under another key")
	}
	if !watchVerify(k, m, pub) {
		k.Violate("verify-after-failure", state(m), "a genuine message no longer verifies after a check with the wrong key")
	}
	// wire
	b, err := m.FCRMsgToBytes()
	if err != nil {
		k.Violate("encode", state(m), "%v", err)
		return
	}
	x, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		k.Violate("decode", string(b), "%v", err)
		return
	}
	if state(x) != state(m) {
		k.Violate("wire-changes-message", map[string]string{"sent": state(m), "received": state(x)}, "a message changed on the wire")
	}
	if !watchVerify(k, x, pub) {
		k.Violate("verify-after-wire", string(b), "a genuine message does not verify after the wire")
	}
	var w wire
	if err := json.Unmarshal(b, &w); err != nil {
		k.Violate("wire-form", string(b), "the wire form is not the documented one: %v", err)
		return
	}
	// any change is noticed
	for i := 0; i < 8; i++ {
		a := w
		a.MessageBody = append([]byte(nil), w.MessageBody...)
		a.ProtocolSupported = append([]int32(nil), w.ProtocolSupported...)
		what := ""
		switch i {
		case 0:
			a.MessageType, what = a.MessageType^(1<<uint(r.Intn(31))), "type"
		case 1:
			a.ProtocolVersion, what = a.ProtocolVersion^(1<<uint(r.Intn(31))), "protocol version"
		case 2:
			what = "supported protocols"
			if len(a.ProtocolSupported) > 0 && r.Intn(2) == 0 {
				a.ProtocolSupported[r.Intn(len(a.ProtocolSupported))] ^= 1 << uint(r.Intn(31))
			} else {
				a.ProtocolSupported = append(a.ProtocolSupported, int32(r.Intn(9)))
			}
		case 3:
			what = "body"
			if len(a.MessageBody) > 0 {
				a.MessageBody[r.Intn(len(a.MessageBody))] ^= 1 << uint(r.Intn(8))
			} else {
				a.MessageBody = []byte{1}
			}
		case 4:
			a.MessageBody, what = append(a.MessageBody, byte(r.Intn(256))), "body (longer)"
		case 5:
			if len(a.MessageBody) == 0 {
				continue
			}
			a.MessageBody, what = a.MessageBody[:len(a.MessageBody)-1], "body (shorter)"
		case 6:
			sb, _ := hex.DecodeString(a.Signature)
			if len(sb) < 68 {
				continue
			}
			sb[4+r.Intn(64)] ^= 1 << uint(r.Intn(8))
			a.Signature, what = hex.EncodeToString(sb), "signature"
		case 7:
			a.Signature, what = []string{"", "00", "zz", a.Signature[:8], a.Signature[:30], a.Signature + "00"}[r.Intn(6)], "signature (malformed)"
		}
		y := parse(a)
		if y == nil {
			continue
		}
		if watchVerify(k, y, pub) {
			k.Violate("accepts:changed "+what, a, "a message with its %s changed still verifies", what)
		}
		k.Count("altered messages refused", 1)
	}
	// re-signing replaces the signature
	if err := m.Sign(other, ver); err != nil || !watchVerify(k, m, opub) || watchVerify(k, m, pub) {
		k.Violate("re-sign", state(m), "a message signed again does not carry the new signature alone (%v)", err)
	}
	if m.DumpMessage() == "" {
		k.Violate("dump", state(m), "empty dump")
	}
	k.Eval(state(m))
	k.Sample("message", map[string]interface{}{"type": typ, "body": base64.StdEncoding.EncodeToString(m.GetMessageBody()[:min(len(m.GetMessageBody()), 60)])})
}

// concurrent: one received message checked and read by several goroutines
func concurrent(k *kit.K, key, pub *fcrcrypto.KeyPair) {
	for it := 0; it < k.N(60, 600); it++ {
		r := k.Sub("conc", it)
		m := fakes.RandMessage(r, key, 1)
		if err := m.Sign(key, fcrcrypto.InitialKeyVersion()); err != nil {
			k.Violate("sign", state(m), "%v", err)
			return
		}
		want := state(m)
		wrong := fakes.Pub(fakes.KeyFrom(r))
		k.Parallel("concurrent", 5, func(i int) {
			for n := 0; n < 4; n++ {
				switch (i + n) % 3 {
				case 0:
					if m.Verify(pub) != nil {
						k.Violate("concurrent:verify", want, "a genuine message fails verification while others check it")
					}
				case 1:
					if m.Verify(wrong) == nil {
						k.Violate("concurrent:wrong-key", want, "a message verifies under another key")
					}
				case 2:
					if b, err := m.FCRMsgToBytes(); err != nil {
						k.Violate("concurrent:encode", want, "%v", err)
					} else if x, err := fcrmessages.FCRMsgFromBytes(b); err != nil || state(x) != want {
						k.Violate("concurrent:encode", want, "a message encoded while others check it changed")
					}
				}
				k.Count("concurrent uses of one message", 1)
			}
		})
		k.Eval(want)
	}
	k.Floor("concurrent uses of one message", 1000)
}
