//go:build go1.22

package fakes

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

// OfferStore is what both offer managers offer.
type OfferStore interface {
	AddGroupOffer(*cidoffer.CIDOffer) error
	AddDHTOffer(*cidoffer.CIDOffer) error
	GetGroupOffers(*cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetDHTOffers(*cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetOffers(*cid.ContentID) ([]cidoffer.CIDOffer, bool)
	GetDHTOffersWithinRange(a, b *cid.ContentID, max int) ([]cidoffer.CIDOffer, bool)
	GetOfferByDigest([cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool)
}

// StoreRules says where the two differ.
type StoreRules struct {
	Kinds       bool // group and DHT offers are kept apart, and counts of CIDs are enforced
	RefuseStale bool // expired offers are refused
	Wrap        bool // ranges wrap around
	MayRefuse   bool // an addition may fail under contention
}

// StoreEntry is an offer the model holds.
type StoreEntry struct {
	Group  bool
	Offer  *cidoffer.CIDOffer
	Canon  string
	Digest [cidoffer.CIDOfferDigestSize]byte
	CIDs   map[string]bool
	Expiry int64
}

func newEntry(group bool, o *cidoffer.CIDOffer) *StoreEntry {
	e := &StoreEntry{Group: group, Offer: o, Canon: Canon(o), Digest: o.GetMessageDigest(), CIDs: map[string]bool{}, Expiry: o.GetExpiry()}
	for _, c := range o.GetCIDs() {
		c := c
		e.CIDs[c.ToString()] = true
	}
	return e
}

// StoreModel is the set of accepted offers.
type StoreModel struct {
	Rules   StoreRules
	entries []*StoreEntry
}

func (m *StoreModel) find(group bool, d [cidoffer.CIDOfferDigestSize]byte) *StoreEntry {
	for _, e := range m.entries {
		if e.Digest == d && (e.Group == group || !m.Rules.Kinds) {
			return e
		}
	}
	return nil
}

// fresh gives the offers that must and those that may be returned for an operation that ran from t0 to t1.
func (m *StoreModel) fresh(t0, t1 time.Time, pred func(*StoreEntry) bool) (must, may map[string]*StoreEntry) {
	must, may = map[string]*StoreEntry{}, map[string]*StoreEntry{}
	for _, e := range m.entries {
		if !pred(e) {
			continue
		}
		if e.Expiry >= t0.Unix() {
			may[e.Canon] = e
		}
		if e.Expiry > t1.Unix()+1 {
			must[e.Canon] = e
		}
	}
	return
}

func inRange(lo, hi, c string, wrap bool) bool {
	if lo <= hi {
		return lo <= c && c <= hi
	}
	return wrap && (c >= lo || c <= hi)
}

// StorePool makes offers over a few CIDs so that they overlap.
type StorePool struct {
	R    *rand.Rand
	Key  *fcrcrypto.KeyPair
	CIDs []*cid.ContentID
	Prov []*nodeid.NodeID
	n    uint64
	mu   sync.Mutex
}

// NewStorePool draws the pool.
func NewStorePool(r *rand.Rand, ncids int) *StorePool {
	p := &StorePool{R: r, Key: KeyFrom(r)}
	for i := 0; i < ncids; i++ {
		p.CIDs = append(p.CIDs, RandCID(r))
	}
	for i := 0; i < 3; i++ {
		p.Prov = append(p.Prov, RandNode(r))
	}
	return p
}

// Offer draws a signed offer of n CIDs; it differs from every other one.
func (p *StorePool) Offer(n int, expiry int64, repeat bool) *cidoffer.CIDOffer {
	var cs []cid.ContentID
	perm := p.R.Perm(len(p.CIDs))
	for i := 0; i < n && i < len(perm); i++ {
		cs = append(cs, *p.CIDs[perm[i]])
	}
	if repeat && len(cs) > 1 {
		cs = append(cs, cs[0])
	}
	p.n++
	o, err := cidoffer.NewCIDOffer(p.Prov[p.R.Intn(3)], cs, p.n|uint64(p.R.Intn(2))<<63, expiry, []uint64{0, 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}[p.R.Intn(6)])
	Must(err)
	Must(o.Sign(p.Key, fcrcrypto.InitialKeyVersion()))
	return o
}

func canonSet(l []cidoffer.CIDOffer) map[string]int {
	m := map[string]int{}
	for i := range l {
		m[Canon(&l[i])]++
	}
	return m
}

// RunStoreHistory drives one store with a random history and compares every answer with the model.
func RunStoreHistory(k *kit.K, tag string, s OfferStore, rules StoreRules, r *rand.Rand, ops int, reopen func() OfferStore) {
	m := &StoreModel{Rules: rules}
	p := NewStorePool(r, 3+r.Intn(8))
	var trace []string
	log := func(f string, a ...interface{}) {
		trace = append(trace, fmt.Sprintf(f, a...))
		if len(trace) > 400 {
			trace = trace[1:]
		}
	}
	fail := func(key, f string, a ...interface{}) { k.Violate(tag+":"+key, append([]string{}, trace...), f, a...) }
	var all []*cidoffer.CIDOffer
	short := func(c *cid.ContentID) string { return c.ToString()[:8] }
	checkList := func(key string, got []cidoffer.CIDOffer, find bool, must, may map[string]*StoreEntry, max int) {
		set := canonSet(got)
		for c, n := range set {
			if may[c] == nil {
				fail(key+":stray", "returned an offer that should not be there: %s\nmay be returned: %d", c, len(may))
				return
			}
			if n > 1 {
				fail(key+":duplicate", "returned one offer %d times: %s", n, c)
			}
		}
		if max <= 0 || len(got) < max {
			for c := range must {
				if set[c] == 0 {
					fail(key+":lost", "an accepted, unexpired offer is missing from the answer (%d returned, %d expected, max %d): %s", len(got), len(must), max, c)
					return
				}
			}
		}
		if max > 0 && len(got) > max {
			fail(key+":toomany", "returned %d offers although at most %d were asked for", len(got), max)
		}
		if find != (len(got) > 0) {
			fail(key+":found", "says found=%v with %d offers", find, len(got))
		}
		k.Eval(fmt.Sprintf("%s/%s/%d/%d/%d", tag, key, len(got), len(m.entries), r.Int63()))
	}
	for i := 0; i < ops; i++ {
		switch x := r.Intn(20); {
		case x < 7: // add
			now := time.Now().Unix()
			expiry := now + 3600
			switch r.Intn(8) {
			case 0:
				expiry = now - int64(r.Intn(100)) - 2
			case 1:
				expiry = now + int64(r.Intn(3))
			case 2:
				expiry = []int64{1<<62 - 1, 1<<63 - 1, 253402300800, 1 << 40, 1 << 32, 1<<31 - 1 + 1<<20}[r.Intn(6)]
			case 3:
				expiry = []int64{0, -1, 10, -1 << 62}[r.Intn(4)]
			}
			n := 1
			group := r.Intn(2) == 0
			if group {
				n = 2 + r.Intn(4)
				if n > len(p.CIDs) {
					n = len(p.CIDs)
				}
			}
			if r.Intn(10) == 0 { // the wrong number
				group = !group
			}
			var o *cidoffer.CIDOffer
			if len(all) > 0 && r.Intn(5) == 0 {
				o = all[r.Intn(len(all))]
				group = len(o.GetCIDs()) > 1
				cp := *o
				o = &cp
			} else {
				o = p.Offer(n, expiry, r.Intn(6) == 0)
			}
			n = len(o.GetCIDs())
			expiry = o.GetExpiry()
			known := m.find(group, o.GetMessageDigest())
			t0 := time.Now()
			var err error
			if group {
				err = s.AddGroupOffer(o)
			} else {
				err = s.AddDHTOffer(o)
			}
			t1 := time.Now()
			log("add group=%v cids=%d price=%d expiry=now%+d known=%v -> %v", group, n, o.GetPrice(), expiry-now, known != nil, err)
			k.Count("additions", 1)
			wrong := rules.Kinds && (group && n <= 1 || !group && n != 1)
			switch {
			case wrong:
				if err == nil {
					fail("add:wrong-count", "an offer of %d CIDs was accepted as group=%v", n, group)
					return
				}
				k.Count("wrong_count_refused", 1)
			case rules.RefuseStale && known == nil && expiry < t0.Unix():
				if err == nil {
					fail("add:expired", "an offer that expired %d s ago was accepted", t0.Unix()-expiry)
					return
				}
				k.Count("expired_refused", 1)
			case err != nil && rules.RefuseStale && expiry <= t1.Unix():
			case err != nil:
				fail("add:refused", "a valid offer was refused: %v", err)
				return
			default:
				if known == nil {
					m.entries = append(m.entries, newEntry(group, o))
				}
				all = append(all, o)
			}
		case x < 15: // by CID
			c := p.CIDs[r.Intn(len(p.CIDs))]
			if r.Intn(8) == 0 {
				c = RandCID(r)
			}
			which := r.Intn(3)
			t0 := time.Now()
			var got []cidoffer.CIDOffer
			var find bool
			switch which {
			case 0:
				got, find = s.GetGroupOffers(c)
			case 1:
				got, find = s.GetDHTOffers(c)
			case 2:
				got, find = s.GetOffers(c)
			}
			t1 := time.Now()
			log("get %s which=%d -> %d", short(c), which, len(got))
			must, may := m.fresh(t0, t1, func(e *StoreEntry) bool {
				return e.CIDs[c.ToString()] && (!rules.Kinds || which == 2 || (which == 0) == e.Group)
			})
			k.Count("lookups", 1)
			if len(must) > 0 {
				k.Count("lookups_with_offers", 1)
			}
			for _, e := range m.entries {
				if e.CIDs[c.ToString()] && e.Expiry < t0.Unix() {
					k.Count("expired_offers_hidden", 1)
				}
			}
			checkList("get", got, find, must, may, 0)
			// the answer belongs to the caller
			for j := range got {
				if r.Intn(20) == 0 {
					got[j].SetSignature("scribbled")
				}
			}
		case x < 18: // range
			a, b := p.CIDs[r.Intn(len(p.CIDs))], p.CIDs[r.Intn(len(p.CIDs))]
			if r.Intn(3) == 0 {
				a = RandCID(r)
			}
			if r.Intn(3) == 0 {
				b = RandCID(r)
			}
			if a.ToString() > b.ToString() && !rules.Wrap {
				a, b = b, a
			}
			max := 1 + r.Intn(12)
			if r.Intn(3) == 0 {
				max = 100000
			}
			t0 := time.Now()
			got, find := s.GetDHTOffersWithinRange(a, b, max)
			t1 := time.Now()
			log("range %s..%s max=%d -> %d", short(a), short(b), max, len(got))
			must, may := m.fresh(t0, t1, func(e *StoreEntry) bool {
				if rules.Kinds && e.Group {
					return false
				}
				for c := range e.CIDs {
					if inRange(a.ToString(), b.ToString(), c, rules.Wrap) {
						return true
					}
				}
				return false
			})
			k.Count("range_lookups", 1)
			if len(must) > max {
				k.Count("range_lookups_limited", 1)
			}
			if len(must) > 0 && len(got) < max && len(got) < len(must) {
				fail("range:lost", "%d of %d offers in range returned, at most %d were asked for", len(got), len(must), max)
				return
			}
			checkList("range", got, find, must, may, max)
		case x < 19: // digest
			var d [cidoffer.CIDOfferDigestSize]byte
			r.Read(d[:])
			if len(all) > 0 && r.Intn(6) > 0 {
				d = all[r.Intn(len(all))].GetMessageDigest()
			}
			t0 := time.Now()
			o, ok := s.GetOfferByDigest(d)
			t1 := time.Now()
			log("digest %x -> %v", d[:4], ok)
			k.Count("digest_lookups", 1)
			must, may := m.fresh(t0, t1, func(e *StoreEntry) bool { return e.Digest == d })
			if ok {
				if o == nil {
					fail("digest:nil", "found, but no offer")
					return
				}
				checkList("digest", []cidoffer.CIDOffer{*o}, true, nil, may, 0)
			} else if len(must) > 0 {
				fail("digest:lost", "an accepted, unexpired offer is not found by its digest")
				return
			} else {
				k.Eval(fmt.Sprintf("%s/nodigest/%d", tag, r.Int63()))
			}
		default:
			if reopen != nil {
				s = reopen()
				log("reopen")
				k.Count("reopened", 1)
			} else if r.Intn(12) == 0 {
				time.Sleep(time.Duration(300+r.Intn(900)) * time.Millisecond)
			}
		}
		if k.Violations() > 0 {
			return
		}
	}
	if len(trace) > 12 {
		k.Sample(tag+" history", trace[len(trace)-12:])
	}
}

// RunStoreConcurrent lets writers and readers share a store. No accepted offer may get lost, each is visible to its
// writer under all of its CIDs as soon as the addition returned, and nothing else is ever returned.
func RunStoreConcurrent(k *kit.K, tag string, s OfferStore, rules StoreRules, r *rand.Rand, writers, each int) {
	p := NewStorePool(r, 6)
	type item struct {
		o     *cidoffer.CIDOffer
		group bool
	}
	plans := make([][]item, writers)
	known := map[string]*StoreEntry{}
	var stale []*cidoffer.CIDOffer
	for w := range plans {
		for i := 0; i < each; i++ {
			group := r.Intn(2) == 0
			n := 1
			if group {
				n = 2 + r.Intn(3)
			}
			expiry := time.Now().Unix() + 3600
			if r.Intn(8) == 0 {
				expiry = time.Now().Unix() + 1
			}
			o := p.Offer(n, expiry, false)
			plans[w] = append(plans[w], item{o, group})
			known[Canon(o)] = newEntry(group, o)
		}
	}
	_ = stale
	var mu sync.Mutex
	accepted := map[string]*StoreEntry{}
	refused := 0
	var order kit.Interleavings
	check := func(key string, c *cid.ContentID, got []cidoffer.CIDOffer) map[string]bool {
		set := map[string]bool{}
		for i := range got {
			cn := Canon(&got[i])
			e := known[cn]
			if e == nil {
				k.Violate(tag+":"+key+":stray", cn, "returned an offer nobody added: %s", cn)
			} else if c != nil && !e.CIDs[c.ToString()] {
				k.Violate(tag+":"+key+":wrong-cid", cn, "returned an offer that does not contain the CID asked for")
			}
			if set[cn] {
				k.Violate(tag+":"+key+":duplicate", cn, "returned one offer twice")
			}
			set[cn] = true
		}
		return set
	}
	stop := make(chan struct{})
	var readers sync.WaitGroup
	for i := 0; i < 4; i++ {
		readers.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer readers.Done()
			defer func() {
				if e := recover(); e != nil {
					k.Violate(tag+":reader:panic", nil, "panic in a reader: %v", e)
				}
			}()
			for {
				select {
				case <-stop:
					return
				default:
				}
				c := p.CIDs[rr.Intn(len(p.CIDs))]
				switch rr.Intn(4) {
				case 0:
					got, _ := s.GetOffers(c)
					check("get", c, got)
				case 1:
					got, _ := s.GetDHTOffers(c)
					check("get", c, got)
				case 2:
					d := p.CIDs[rr.Intn(len(p.CIDs))]
					max := 1 + rr.Intn(9)
					got, _ := s.GetDHTOffersWithinRange(c, d, max)
					check("range", nil, got)
					if len(got) > max {
						k.Violate(tag+":range:toomany", nil, "%d offers returned, at most %d were asked for", len(got), max)
					}
				case 3:
					it := plans[rr.Intn(writers)][rr.Intn(each)]
					o, ok := s.GetOfferByDigest(it.o.GetMessageDigest())
					if ok && Canon(o) != Canon(it.o) {
						k.Violate(tag+":digest:stray", Canon(o), "another offer returned for a digest")
					}
				}
				k.Count("concurrent_reads", 1)
			}
		}()
	}
	k.Parallel(tag+":writer", writers, func(w int) {
		for _, it := range plans[w] {
			var err error
			if it.group {
				err = s.AddGroupOffer(it.o)
			} else {
				err = s.AddDHTOffer(it.o)
			}
			order.Add(fmt.Sprint(w))
			mu.Lock()
			if err == nil {
				accepted[Canon(it.o)] = known[Canon(it.o)]
			} else {
				refused++
				if it.o.GetExpiry() > time.Now().Unix()+2 && !rules.MayRefuse {
					k.Violate(tag+":add:refused", nil, "a valid offer was refused: %v", err)
				}
			}
			mu.Unlock()
			if err != nil {
				continue
			}
			// read your writes
			for _, c := range it.o.GetCIDs() {
				c := c
				got, _ := s.GetOffers(&c)
				set := check("own", &c, got)
				if !set[Canon(it.o)] && it.o.GetExpiry() > time.Now().Unix()+2 {
					k.Violate(tag+":own:lost", Canon(it.o), "an offer is missing right after its addition returned (%d others returned)", len(got))
				}
			}
		}
	})
	close(stop)
	readers.Wait()
	for _, c := range p.CIDs {
		got, _ := s.GetOffers(c)
		set := check("final", c, got)
		for cn, e := range accepted {
			if e.CIDs[c.ToString()] && e.Expiry > time.Now().Unix()+2 && !set[cn] {
				k.Violate(tag+":final:lost", cn, "an accepted offer got lost among %d concurrent additions", len(accepted))
			}
		}
	}
	for cn, e := range accepted {
		if e.Expiry > time.Now().Unix()+2 {
			if _, ok := s.GetOfferByDigest(e.Digest); !ok {
				k.Violate(tag+":final:digest", cn, "an accepted offer is not found by its digest after concurrent additions")
			}
		}
	}
	k.Count("concurrent_additions", len(accepted))
	k.Count("concurrent_refusals", refused)
	k.Eval(tag + "/order/" + order.Key())
	if o := order.Key(); len(o) > 120 {
		k.Sample(tag+" writer order", o[:120])
	}
}

// RunStoreExpiry lets many offers expire in the same second, while goroutines look all of them up and others add offers under
// the same CIDs: none that expired is served, and none that did not expire gets lost.
func RunStoreExpiry(k *kit.K, tag string, s OfferStore, rules StoreRules, r *rand.Rand, cids int) {
	p := NewStorePool(r, cids)
	type item struct {
		e   *StoreEntry
		new bool // added once the others expire
	}
	due := time.Now().Unix() + 3
	var items []*item
	byCID := map[string][]*item{}
	draw := func(c *cid.ContentID, group bool, expiry int64, late bool) {
		list := []cid.ContentID{*c}
		if group {
			list = append(list, *p.CIDs[r.Intn(len(p.CIDs))])
			if list[1].ToString() == c.ToString() {
				list[1] = *RandCID(r)
			}
		}
		p.n++
		o, err := cidoffer.NewCIDOffer(p.Prov[r.Intn(3)], list, p.n, expiry, 1)
		Must(err)
		Must(o.Sign(p.Key, fcrcrypto.DecodeKeyVersion(1)))
		it := &item{newEntry(group, o), late}
		items = append(items, it)
		for _, c := range list {
			byCID[c.ToString()] = append(byCID[c.ToString()], it)
		}
	}
	for i, c := range p.CIDs {
		// Some CIDs have nothing but what expires, some have an offer that stays
		for j := 0; j <= i%3; j++ {
			draw(c, r.Intn(2) == 0, due, false)
		}
		if i%2 == 0 {
			draw(c, r.Intn(2) == 0, due+3600, false)
		}
		draw(c, r.Intn(2) == 0, due+3600, true)
	}
	// Nobody asks for these by a CID
	for i := 0; i < 6; i++ {
		for _, e := range []int64{due, due + 3600} {
			list := []cid.ContentID{*NewCID(r), *NewCID(r)}[:1+i%2]
			p.n++
			o, err := cidoffer.NewCIDOffer(p.Prov[r.Intn(3)], list, p.n, e, 1)
			Must(err)
			Must(o.Sign(p.Key, fcrcrypto.DecodeKeyVersion(1)))
			items = append(items, &item{newEntry(i%2 == 1, o), false})
		}
	}
	add := func(it *item) bool {
		var err error
		if it.e.Group {
			err = s.AddGroupOffer(it.e.Offer)
		} else {
			err = s.AddDHTOffer(it.e.Offer)
		}
		return err == nil
	}
	for _, it := range items {
		if !it.new && !add(it) {
			if time.Now().Unix()+1 >= due {
				k.Count("expiry waves that began too late", 1)
				return
			}
			k.Violate(tag+":wave:refused", it.e.Canon, "an offer that expires in %d s was refused", it.e.Expiry-time.Now().Unix())
			return
		}
	}
	time.Sleep(time.Until(time.Unix(due, 0)) + 20*time.Millisecond)
	lookup := func(c *cid.ContentID, settled bool) {
		t0 := time.Now().Unix()
		got, _ := s.GetOffers(c)
		set := map[string]bool{}
		for i := range got {
			set[Canon(&got[i])] = true
			if got[i].GetExpiry() < t0 {
				k.Violate(tag+":wave:expired", Canon(&got[i]), "an offer that expired at %d was served at %d", got[i].GetExpiry(), t0)
			}
		}
		for _, it := range byCID[c.ToString()] {
			if it.e.Expiry > due && (!it.new || settled) && !set[it.e.Canon] {
				k.Violate(tag+":wave:lost", it.e.Canon, "an offer that has not expired is missing, after others of its CID expired (%d are there)", len(got))
			}
		}
		k.Count("lookups while offers expire", 1)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		// Half of them go over the CIDs in the same order, so that they meet
		order := make([]int, cids)
		for i := range order {
			order[i] = i
		}
		if g%2 == 1 {
			order = r.Perm(cids)
		}
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					k.Violate(tag+":wave:panic", nil, "panic in a lookup while offers expire: %v", e)
				}
			}()
			<-start
			for _, i := range order {
				lookup(p.CIDs[i], false)
			}
		}()
	}
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for i, it := range items {
				if it.new && i%4 == g && !add(it) && !rules.MayRefuse {
					k.Violate(tag+":wave:refused", it.e.Canon, "an offer was refused while others expire")
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if rules.MayRefuse {
		for _, it := range items {
			if it.new && !add(it) {
				k.Violate(tag+":wave:refused", it.e.Canon, "an offer was refused though nobody else uses the store")
			}
		}
	}
	for _, c := range p.CIDs {
		lookup(c, true)
	}
	time.Sleep(time.Until(time.Unix(due+1, 0)) + 20*time.Millisecond)
	for _, it := range items {
		if _, ok := s.GetOfferByDigest(it.e.Digest); ok != (it.e.Expiry > due) && time.Now().Unix() > due {
			k.Violate(tag+":wave:digest", it.e.Canon, "after the others expired, an offer that expires at %d is found by its digest: %v", it.e.Expiry, ok)
		}
		k.Eval(tag + "/wave/" + it.e.Canon)
	}
	k.Count("offers that expired among lookups", len(items))
}

// SortedKeys helps to print maps.
func SortedKeys(m map[string]bool) string {
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// RunStoreLarge fills a store with far more of everything than a test does: m offers of one CID, and an offer of m CIDs.
func RunStoreLarge(k *kit.K, tag string, s OfferStore, rules StoreRules, r *rand.Rand, m int) {
	exp := time.Now().Unix() + 3600
	// No CID of the one may turn up in the other by chance, as the lowest and the highest CID would.
	plain := func() *cid.ContentID {
		b := make([]byte, 32)
		r.Read(b)
		c, err := cid.NewContentIDFromBytes(b)
		Must(err)
		return c
	}
	hot := plain()
	one := NewStorePool(r, 1)
	one.CIDs[0] = hot
	want := map[string]int{}
	var last *cidoffer.CIDOffer
	for i := 0; i < m; i++ {
		last = one.Offer(1, exp, false)
		if err := s.AddDHTOffer(last); err != nil {
			k.Violate(tag+":large:add", i, "offer %d of one CID was refused: %v", i, err)
			return
		}
		want[Canon(last)]++
	}
	wide := NewStorePool(r, m)
	for i := range wide.CIDs {
		wide.CIDs[i] = plain()
	}
	group := wide.Offer(m, exp, false)
	if err := s.AddGroupOffer(group); err != nil {
		k.Violate(tag+":large:group", m, "a group offer of %d CIDs was refused: %v", m, err)
		return
	}
	same := func(what string, got []cidoffer.CIDOffer, ok bool, want map[string]int, limit int) {
		k.Count("lookups among very many offers", 1)
		have := canonSet(got)
		n := len(want)
		if limit > 0 && limit < n {
			n = limit
		}
		if len(got) != n || ok != (n > 0) {
			k.Violate(tag+":large:"+what, m, "%s gave %d offers (%v), of %d there are", what, len(got), ok, n)
			return
		}
		for c, x := range have {
			if want[c] == 0 || x != 1 {
				k.Violate(tag+":large:"+what, c, "%s gave an offer %d times that was stored %d times", what, x, want[c])
				return
			}
		}
	}
	got, ok := s.GetOffers(hot)
	same("GetOffers", got, ok, want, 0)
	got, ok = s.GetDHTOffers(hot)
	same("GetDHTOffers", got, ok, want, 0)
	for _, limit := range []int{1, m / 2, m - 1, m, m + 1, 10 * m} {
		got, ok = s.GetDHTOffersWithinRange(hot, hot, limit)
		same(fmt.Sprintf("GetDHTOffersWithinRange of at most %d", limit), got, ok, want, limit)
	}
	whole := map[string]int{Canon(group): 1}
	for _, i := range []int{0, 1, m / 2, m - 1, r.Intn(m), r.Intn(m)} {
		got, ok = s.GetGroupOffers(wide.CIDs[i])
		same("GetGroupOffers of a wide offer", got, ok, whole, 0)
	}
	for _, o := range []*cidoffer.CIDOffer{last, group} {
		if g, ok := s.GetOfferByDigest(o.GetMessageDigest()); !ok || Canon(g) != Canon(o) {
			k.Violate(tag+":large:digest", m, "GetOfferByDigest of a stored offer gave %v", ok)
		}
	}
	k.Eval(fmt.Sprint(tag, "large", m))
}
