//go:build go1.22

// C23: the client library and a provider that shows, or pretends to show, that a gateway acknowledged an offer.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/client/pkg/verif_clkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/svc"
)

var wrongs = []string{
	"request of another cid", "request without offers", "offer without cids", "request unsigned", "request by a stranger", "request by the gateway", "request altered",
	"ack unsigned", "ack by the provider", "ack by another gateway", "ack altered",
	"acknowledges another request", "acknowledged by another gateway", "acknowledged by the provider", "no acknowledging signature", "garbage for a signature",
	"request of another kind", "ack of another kind", "swapped", "nothing",
	"request under the old key", "acknowledged under the old key", "ack under the old key",
}

type world struct {
	k        *kit.K
	reg      *fakes.Register
	mgr      *fcrregistermgr.FCRRegisterMgr
	cl       *fcrclient.FilecoinRetrievalClient
	prov     *clkit.Server
	gate     *svc.Party
	other    *svc.Party
	stranger *svc.Party
	oldProv  *svc.Party // before they changed their keys
	oldGate  *svc.Party
}

// rekey: the provider and the gateway register again with other keys.
func (w *world) rekey(r *rand.Rand) {
	if r.Intn(2) == 0 || w.oldProv == nil {
		w.oldProv = w.prov.Rekey(r)
		w.enterProvider()
	}
	if r.Intn(2) == 0 || w.oldGate == nil {
		w.oldGate = w.gate.Rekey(r)
		w.enterGateway(w.gate)
	}
	w.k.Count("other keys", 1)
}

func (w *world) enterProvider() {
	w.reg.SetProvider(fakes.ProviderEntry(w.prov.ID.ToString(), w.prov.Key, "127.0.0.1:1", w.prov.Addr, "127.0.0.1:1"))
}

func (w *world) enterGateway(g *svc.Party) {
	w.reg.SetGateway(fakes.GatewayEntry(g.ID.ToString(), g.Key, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1"))
}

func (w *world) pair(r *rand.Rand, c *cid.ContentID, wrong string) (req, ack *svc.Msg) {
	is := func(s string) bool { return wrong == s }
	other := func() *svc.Msg {
		return w.prov.Sign(fcrmessages.EncodeProviderPublishDHTOfferRequest(w.prov.ID, 1, w.offers(r, c)))
	}
	offers := w.offers(r, c)
	if is("request of another cid") {
		offers = w.offers(r, fakes.NewCID(r))
	}
	if is("request without offers") {
		offers = []cidoffer.CIDOffer{}
	}
	nonce := fakes.RandInt64(r)
	req, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(w.prov.ID, nonce, offers)
	fakes.Must(err)
	by := w.prov.Party
	switch wrong {
	case "request by a stranger":
		by = w.stranger
	case "request under the old key":
		by = w.oldProv
	case "request by the gateway":
		by = w.gate
	case "request of another kind":
		req, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(w.prov.ID, nonce, w.prov.Offer(r, c))
	}
	if is("offer without cids") {
		var v map[string]interface{}
		d := json.NewDecoder(strings.NewReader(string(req.GetMessageBody())))
		d.UseNumber()
		fakes.Must(d.Decode(&v))
		for _, x := range v["single_offers"].([]interface{}) {
			x.(map[string]interface{})["cids"] = []interface{}{}
		}
		b, err := json.Marshal(v)
		fakes.Must(err)
		req = fcrmessages.CreateFCRMessage(req.GetMessageType(), b)
	}
	if !is("request unsigned") {
		by.Sign(req, err)
	}
	if is("request altered") {
		req = svc.Resigned(req, other().GetSignature())
	}
	over := req
	if is("acknowledges another request") {
		over = other()
	}
	who := w.gate
	switch wrong {
	case "acknowledged by another gateway":
		who = w.other
	case "acknowledged under the old key":
		who = w.oldGate
	case "acknowledged by the provider":
		who = w.prov.Party
	}
	sig, err := fcrcrypto.SignMessage(who.Key, who.Ver, over.GetMessageBody())
	fakes.Must(err)
	switch wrong {
	case "no acknowledging signature":
		sig = ""
	case "garbage for a signature":
		sig = []string{"00", "zz", sig[:10], sig + "00", strings.Repeat("0", len(sig))}[r.Intn(5)]
	}
	ack, err = fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
	signer := w.gate
	switch wrong {
	case "ack under the old key":
		signer = w.oldGate
	case "ack by the provider":
		signer = w.prov.Party
	case "ack by another gateway":
		signer = w.other
	case "ack of another kind":
		d := offers[0].GetMessageDigest()
		ack, err = fcrmessages.EncodeProviderPublishGroupOfferResponse(*w.gate.ID, cidoffer.EncodeMessageDigest(d))
	}
	fakes.Must(err)
	if !is("ack unsigned") {
		signer.Sign(ack, err)
	}
	if is("ack altered") {
		x, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce+1, sig)
		fakes.Must(err)
		ack = svc.Resigned(x, ack.GetSignature())
	}
	switch wrong {
	case "swapped":
		req, ack = ack, req
	case "nothing":
		req, ack = &svc.Msg{}, &svc.Msg{}
	}
	return
}

// offers with one for the CID among them.
func (w *world) offers(r *rand.Rand, c *cid.ContentID) []cidoffer.CIDOffer {
	n := 1 + r.Intn(5)
	at := r.Intn(n)
	var l []cidoffer.CIDOffer
	for i := 0; i < n; i++ {
		x := fakes.NewCID(r)
		if i == at {
			x = c
		}
		l = append(l, *w.prov.Offer(r, x))
	}
	return l
}

func run(k *kit.K, r *rand.Rand, steps int) {
	w := &world{k: k, reg: fakes.NewRegister(), prov: clkit.NewServer(r), gate: svc.NewParty(r), other: svc.NewParty(r), stranger: svc.NewParty(r)}
	defer w.reg.Close()
	defer w.prov.Close()
	b := fcrclient.CreateSettings()
	b.SetLogging("disabled", "STDOUT", "verif")
	b.SetBlockchainPrivateKey(fakes.KeyFrom(r))
	b.SetRegisterURL(w.reg.URL)
	set := *b.Build()
	w.enterProvider()
	w.enterGateway(w.gate)
	w.enterGateway(w.other)
	w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL, true, true, time.Hour)
	fakes.Must(w.mgr.Start())
	defer w.mgr.ShutdownAndWait()
	w.reg.Junk(r, r.Intn(3)*r.Intn(5))
	w.mgr.Refresh()
	var err error
	w.cl, err = fcrclient.NewFilecoinRetrievalClient(set, w.mgr)
	fakes.Must(err)
	for i := 0; i < steps && k.Violations() < 20; i++ {
		c := fakes.NewCID(r)
		gate, prov := w.gate.ID, w.prov.ID
		what, wrong, outer := "", "", ""
		found, hostile := true, false
		if i == 100 || i > 100 && r.Intn(50) == 0 {
			w.rekey(r)
			w.mgr.Refresh()
		}
		var req, ack *svc.Msg
		switch x := r.Intn(10); {
		case x < 2:
			what = "genuine"
		case x < 6:
			wrong = wrongs[r.Intn(len(wrongs))]
			if strings.HasSuffix(wrong, "the old key") && w.oldProv == nil {
				wrong = wrongs[0]
			}
			what = wrong
		case x == 6:
			outer = clkit.Faults[r.Intn(len(clkit.Faults))]
			if outer == "nonce" || outer == "cid" {
				outer = "unsigned"
			}
			what = "answer " + outer
		case x == 7:
			found, what = false, "not found"
		case x == 8:
			hostile, what = true, "hostile"
		default:
			what = "unknown party"
			if r.Intn(2) == 0 {
				gate = w.stranger.ID
			} else {
				prov = w.stranger.ID
			}
		}
		asked := 0
		w.prov.Answer(func(m *svc.Msg) *clkit.Reply {
			asked++
			gc, gid, err := fcrmessages.DecodeClientDHTOfferAckRequest(m)
			if err != nil || gc.ToString() != c.ToString() || gid.ToString() != gate.ToString() {
				k.Violate("request", svc.Text(m), "the provider was not asked what the client was: %v", err)
			}
			req, ack = w.pair(r, c, wrong)
			if hostile {
				switch r.Intn(4) {
				case 0:
					req = clkit.Mutated(r, w.prov.Party, req)
					sig, err := fcrcrypto.SignMessage(w.gate.Key, w.gate.Ver, req.GetMessageBody())
					fakes.Must(err)
					ack = w.gate.Sign(fcrmessages.EncodeProviderPublishDHTOfferResponse(1, sig))
				case 1:
					ack = clkit.Mutated(r, w.gate, ack)
				case 2:
					m, err := fcrmessages.EncodeClientDHTOfferAckResponse(c, gate, found, req, ack)
					fakes.Must(err)
					return &clkit.Reply{Msg: clkit.Mutated(r, w.prov.Party, m)}
				case 3:
					m, err := fcrmessages.EncodeClientDHTOfferAckResponse(c, gate, found, req, ack)
					m = w.prov.Sign(m, err)
					b, err := m.FCRMsgToBytes()
					fakes.Must(err)
					return &clkit.Reply{Raw: fakes.Mutate(r, b)}
				}
			}
			stranger := w.gate
			if w.oldProv != nil && r.Intn(2) == 0 {
				stranger = w.oldProv
			}
			return clkit.Spoil(r, outer, w.prov.Party, stranger, func(bool, int64) (*svc.Msg, error) {
				gc := c
				if outer == "altered" {
					gc = fakes.NewCID(r)
				}
				return fcrmessages.EncodeClientDHTOfferAckResponse(gc, gate, found, req, ack)
			})
		})
		var ok bool
		rep := fmt.Sprintf("%d %s", i, what)
		if !k.NoPanic("panic:"+what, rep, func() { ok, err = w.cl.FindDHTOfferAck(c, gate, prov) }) {
			continue
		}
		k.Count(what, 1)
		k.Eval(rep + c.ToString())
		switch {
		case hostile:
			if !ok {
				k.Count("hostile refused", 1)
				continue
			}
			// what was believed must be true of what was sent
			if req.Verify(w.prov.Pub) != nil || !strings.Contains(string(req.GetMessageBody()), c.ToString()) {
				k.Violate("hostile", svc.Text(req), "a gateway is said to have acknowledged an offer for %s: %s", c.ToString(), svc.Text(req))
			}
			k.Count("hostile believed", 1)
		case what == "genuine":
			if !ok || err != nil {
				k.Violate("genuine-refused", rep, "a genuine acknowledgement is refused: %v %s / %s", err, svc.Text(req), svc.Text(ack))
			}
		default:
			if ok {
				k.Violate("believed:"+what, rep, "a gateway is said to have acknowledged an offer on false evidence (%s): %s / %s", what, svc.Text(req), svc.Text(ack))
			}
			if found && err == nil && wrong == "" {
				k.Violate("no-error:"+what, rep, "no error says that the evidence is false (%s)", what)
			}
			if !found && err != nil {
				k.Violate("not-found", rep, "an offer the provider does not know of gives the error %v", err)
			}
		}
		if prov == w.stranger.ID && asked > 0 {
			k.Violate("asked", rep, "a provider was asked about another")
		}
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C23", func(k *kit.K) {
		for _, x := range wrongs {
			k.Floor(x, 10)
		}
		k.Floor("genuine", 100)
		k.Floor("other keys", 8)
		k.Floor("hostile refused", 20)
		k.Floor("not found", 20)
		k.Floor("unknown party", 20)
		run(k, k.Sub("run", 0), k.N(1500, 20000))
	})
}
