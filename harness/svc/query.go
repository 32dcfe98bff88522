//go:build go1.22

package svc

import (
	"fmt"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

// The ways a gateway is asked about offers.
const (
	Client1      = "client"         // by a client, free of charge
	Client2      = "client-v2"      // by a client, for digests
	ClientOffers = "client-offers"  // by a client, for offers by digest
	GW1          = "gateway"        // by a gateway, free of charge
	GW2          = "gateway-v2"     // by a gateway, for digests
	GWOffers     = "gateway-offers" // by a gateway, for offers by digest
	DHT1         = "dht"            // by a client, to be relayed to gateways near the CID, free of charge
	DHT2         = "dht-v2"         // the same, for digests
	DHTOffers    = "dht-offers"     // by a client, to be relayed to named gateways, for offers by digest
)

// Kinds lists them.
var Kinds = []string{Client1, Client2, ClientOffers, GW1, GW2, GWOffers}

// Query is a question.
type Query struct {
	Kind    string
	C       *cid.ContentID
	Nonce   int64
	TTL     int64 // relative to now; 0 is 100 s
	Digests []string
	Chan    string
	Voucher string
	Num     int64                 // of gateways to relay to
	Targets []nodeid.NodeID       // gateways to relay to
	Lists   [][]string            // digests for each of them
	By      *Party                // the gateway that asks
	Signer  *Party                // who signs, if another
	Alter   func(m *Msg) *Msg     // what becomes of the message afterwards
	Conn    func() (*Conn, error) // a connection to use; else its own
}

// Reply is the answer.
type Reply struct {
	Refused    bool
	Msg        *Msg
	C          *cid.ContentID
	Nonce      int64
	Found      bool
	Subs       []cidoffer.SubCIDOffer
	Digests    []string
	Funded     []bool
	PayReq     bool
	PayChan    string
	Contacted  []nodeid.NodeID
	Responses  []Msg
	Failed     []nodeid.NodeID
	From, To   int64 // on the clock of the market
	T0, T1     time.Time
	Status     string
	Unverified string
}

// ByClient tells whether clients ask so.
func (q *Query) ByClient() bool { return q.Kind != GW1 && q.Kind != GW2 && q.Kind != GWOffers }

// Relayed tells whether the gateway has to ask others.
func (q *Query) Relayed() bool { return q.Kind == DHT1 || q.Kind == DHT2 || q.Kind == DHTOffers }

// Paid tells whether it costs something.
func (q *Query) Paid() bool { return q.Kind != Client1 && q.Kind != GW1 && q.Kind != DHT1 }

// ForOffers tells whether it names digests.
func (q *Query) ForOffers() bool { return q.Kind == ClientOffers || q.Kind == GWOffers }

func (q *Query) String() string {
	if q.Relayed() {
		return fmt.Sprintf("%s for %s nonce %d ttl %+d to %d gateways %v lists %d channel %s voucher %.60s", q.Kind, q.C.ToString(), q.Nonce, q.TTL, q.Num, len(q.Targets), len(q.Lists), q.Chan, q.Voucher)
	}
	return fmt.Sprintf("%s for %s nonce %d ttl %+d digests %d channel %s voucher %.60s", q.Kind, q.C.ToString(), q.Nonce, q.TTL, len(q.Digests), q.Chan, q.Voucher)
}

// Message makes it.
func (q *Query) Message() *Msg {
	ttl := q.TTL
	if ttl == 0 {
		ttl = 100
	}
	ttl += time.Now().Unix()
	var m *Msg
	var err error
	switch q.Kind {
	case Client1:
		m, err = fcrmessages.EncodeClientStandardDiscoverRequest(q.C, q.Nonce, ttl, q.Chan, q.Voucher)
	case Client2:
		m, err = fcrmessages.EncodeClientStandardDiscoverRequestV2(q.C, q.Nonce, ttl, q.Chan, q.Voucher)
	case ClientOffers:
		m, err = fcrmessages.EncodeClientStandardDiscoverOfferRequest(q.C, q.Nonce, ttl, q.Digests, q.Chan, q.Voucher)
	case GW1:
		m, err = fcrmessages.EncodeGatewayDHTDiscoverRequest(q.By.ID, q.C, q.Nonce, ttl, q.Chan, q.Voucher)
	case GW2:
		m, err = fcrmessages.EncodeGatewayDHTDiscoverRequestV2(q.By.ID, q.C, q.Nonce, ttl, q.Chan, q.Voucher)
	case GWOffers:
		m, err = fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(q.C, q.Nonce, q.Digests, q.Chan, q.Voucher)
	case DHT1:
		m, err = fcrmessages.EncodeClientDHTDiscoverRequest(q.C, q.Nonce, ttl, q.Num, false, q.Chan, q.Voucher)
	case DHT2:
		m, err = fcrmessages.EncodeClientDHTDiscoverRequestV2(q.C, q.Nonce, ttl, q.Num, false, q.Chan, q.Voucher)
	case DHTOffers:
		m, err = fcrmessages.EncodeClientDHTDiscoverOfferRequest(q.C, q.Nonce, q.Lists, q.Targets, q.Chan, q.Voucher)
	}
	fakes.Must(err)
	if !q.ByClient() {
		s := q.Signer
		if s == nil {
			s = q.By
		}
		if s != nil && s.Key != nil {
			fakes.Must(m.Sign(s.Key, s.Ver))
		}
	}
	if q.Alter != nil {
		m = q.Alter(m)
	}
	return m
}

// Ask asks the gateway; an answer that is not the gateway's, or cannot be read, is a violation.
func (n *Node) Ask(mk *Market, q *Query) *Reply {
	m := q.Message()
	p := &Reply{From: mk.Tick(), T0: time.Now()}
	if q.ByClient() {
		a := n.Post(n.REST, m)
		p.Msg, p.Refused = a.Msg, a.Msg == nil
		p.Status = fmt.Sprintf("%d %.300s %v", a.Status, a.Body, a.Err)
		if a.Msg == nil && strings.Contains(a.Body, "message_type") {
			n.K.Violate("answer:refused-and-served:"+q.Kind, q.String(), "a question (%s) was refused with status %d, and answered all the same: %.2000s", q, a.Status, a.Body)
		}
	} else {
		var c *Conn
		var err error
		if q.Conn != nil {
			c, err = q.Conn()
		} else if c, err = Dial(n.GW); err == nil {
			defer c.C.Close()
		}
		var a *Msg
		if err == nil {
			if err = c.Send(m); err == nil {
				a, err = c.Recv(60 * time.Second)
			}
		}
		p.Refused = IsRefusal(a, err)
		if !p.Refused {
			p.Msg = a
		}
		p.Status = fmt.Sprintf("%.300s %v", Text(a), err)
	}
	p.To, p.T1 = mk.Tick(), time.Now()
	if p.Msg == nil {
		return p
	}
	if err := p.Msg.Verify(n.Pub); err != nil {
		n.K.Violate("answer:unsigned:"+q.Kind, q.String(), "the answer to a question (%s) is not signed by the gateway: %v\n%s", q, err, Text(p.Msg))
	}
	var err error
	switch q.Kind {
	case Client1:
		p.C, p.Nonce, p.Found, p.Subs, p.Funded, err = fcrmessages.DecodeClientStandardDiscoverResponse(p.Msg)
	case Client2:
		p.C, p.Nonce, p.Found, p.Digests, p.Funded, p.PayReq, p.PayChan, err = fcrmessages.DecodeClientStandardDiscoverResponseV2(p.Msg)
	case ClientOffers:
		p.C, p.Nonce, p.Found, p.Subs, p.Funded, p.PayReq, p.PayChan, err = fcrmessages.DecodeClientStandardDiscoverOfferResponse(p.Msg)
	case GW1:
		p.C, p.Nonce, p.Found, p.Subs, p.Funded, err = fcrmessages.DecodeGatewayDHTDiscoverResponse(p.Msg)
	case GW2:
		p.C, p.Nonce, p.Found, p.Digests, p.Funded, p.PayReq, p.PayChan, err = fcrmessages.DecodeGatewayDHTDiscoverResponseV2(p.Msg)
	case GWOffers:
		p.C, p.Nonce, p.Found, p.Subs, p.Funded, p.PayReq, p.PayChan, err = fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(p.Msg)
	case DHT1:
		p.C = q.C
		p.Contacted, p.Responses, p.Failed, p.Nonce, p.PayReq, p.PayChan, err = fcrmessages.DecodeClientDHTDiscoverResponse(p.Msg)
	case DHT2:
		p.C = q.C
		p.Contacted, p.Responses, p.Failed, p.Nonce, p.PayReq, p.PayChan, err = fcrmessages.DecodeClientDHTDiscoverResponseV2(p.Msg)
	case DHTOffers:
		p.C, p.Nonce, p.Contacted, p.Responses, p.PayReq, p.PayChan, err = fcrmessages.DecodeClientDHTDiscoverOfferResponse(p.Msg)
	}
	if err != nil {
		n.K.Violate("answer:undecodable:"+q.Kind, q.String(), "the answer to a question (%s) cannot be read: %v\n%s", q, err, Text(p.Msg))
		p.Msg, p.Refused = nil, true
		return p
	}
	if p.C.ToString() != q.C.ToString() || p.Nonce != q.Nonce {
		n.K.Violate("answer:mixed-up:"+q.Kind, q.String(), "asked for %s nonce %d, answered for %s nonce %d", q.C.ToString(), q.Nonce, p.C.ToString(), p.Nonce)
	}
	return p
}

// CheckServed demands that the answer to a genuine and paid question has just what the gateway must know.
func (n *Node) CheckServed(mk *Market, q *Query, p *Reply) {
	k := n.K
	key := "served:" + q.Kind
	if p.Msg == nil || p.PayReq {
		if n.Alive() {
			k.Violate(key+":refused", q.String(), "a genuine and paid question (%s) was refused: %s", q, p.Status)
		}
		return
	}
	must, may := mk.expected(q.C, p.From, p.To, p.T0, p.T1)
	if q.ForOffers() {
		want := map[string]bool{}
		for _, d := range q.Digests {
			want[d] = true
		}
		for d := range must {
			if !want[d] {
				delete(must, d)
			}
		}
		for d := range may {
			if !want[d] {
				delete(may, d)
			}
		}
	}
	items := len(p.Subs) + len(p.Digests)
	if p.Found != (items > 0) || len(p.Funded) != items {
		k.Violate(key+":inconsistent", q.String(), "found is %v with %d offers and %d payment channel flags (%s)", p.Found, items, len(p.Funded), q)
	}
	if q.Kind == Client2 || q.Kind == GW2 {
		mk.CheckDigests(k, key, q.String(), p.Digests, must, may)
	} else {
		mk.CheckSubs(k, key, q.String(), q.C, p.Subs, must, may)
	}
	k.Count("lookups", 1)
	k.Count("offers served", items)
}
