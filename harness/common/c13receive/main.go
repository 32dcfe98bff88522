//go:build go1.22

// C13: the receiving side of payment channels: honest and hostile payers submit vouchers in every order and at once, a
// ledger decides what each is worth, and in the end everything credited is redeemed on the chain.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-state-types/abi"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	paych0 "github.com/filecoin-project/specs-actors/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
)

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

type laneModel struct {
	next  uint64
	total *big.Int
}

// book is what the receiver should believe about a channel.
type book struct {
	c        *lotus.Channel
	balance  *big.Int
	credited *big.Int
	lanes    map[uint64]*laneModel
	accepted map[uint64][]string
}

func newBook(c *lotus.Channel, b *big.Int) *book {
	return &book{c, new(big.Int).Set(b), new(big.Int), map[uint64]*laneModel{}, map[uint64][]string{}}
}

// worth decides a voucher that is genuine.
func (b *book) worth(lane, nonce uint64, amount *big.Int) *big.Int {
	l := b.lanes[lane]
	if l == nil {
		l = &laneModel{0, new(big.Int)}
	}
	if nonce < l.next || amount.Cmp(l.total) <= 0 {
		return nil
	}
	v := new(big.Int).Sub(amount, l.total)
	if new(big.Int).Add(b.credited, v).Cmp(b.balance) > 0 {
		return nil
	}
	return v
}

func (b *book) credit(lane, nonce uint64, amount *big.Int, text string) {
	v := b.worth(lane, nonce, amount)
	b.credited.Add(b.credited, v)
	b.lanes[lane] = &laneModel{nonce + 1, new(big.Int).Set(amount)}
	b.accepted[lane] = append(b.accepted[lane], text)
}

func other(s string) string {
	if s[0] == 'f' {
		return "t" + s[1:]
	}
	return "f" + s[1:]
}

type world struct {
	n           *lotus.Node
	me, stanger *lotus.Account
	payers      []*lotus.Account
	books       []*book
	foreign     *lotus.Channel // to somebody else
	weird       *lotus.Channel
}

func newWorld(r *rand.Rand) *world {
	w := &world{n: lotus.New(r)}
	w.me, w.stanger = w.n.NewAccount(), w.n.NewAccount()
	for i := 0; i < 2; i++ {
		p := w.n.NewAccount()
		w.payers = append(w.payers, p)
		bal := big.NewInt(int64(200 + r.Intn(2000)))
		if r.Intn(4) == 0 {
			bal.Mul(bal, new(big.Int).Lsh(big.NewInt(1), 90))
		}
		w.books = append(w.books, newBook(w.n.Open(p, w.me, bal), bal))
	}
	w.foreign = w.n.Open(w.payers[0], w.stanger, big.NewInt(100000))
	w.weird = w.n.Open(w.payers[0], w.me, big.NewInt(100000))
	return w
}

func (w *world) voucher(c *lotus.Channel, by *lotus.Account, lane, nonce uint64, amount *big.Int, f func(*paych.SignedVoucher)) string {
	sv := &paych.SignedVoucher{ChannelAddr: c.Addr, Lane: lane, Nonce: nonce, Amount: types.BigInt{Int: new(big.Int).Set(amount)}}
	if f != nil {
		f(sv)
	}
	by.SignVoucher(sv)
	return lotus.Encode(sv)
}

func history(k *kit.K, seq int) {
	r := k.Sub("history", seq)
	w := newWorld(r)
	defer w.n.Close()
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(w.me.Hex, w.n.URL, "tok")
	must(err)
	var trace []string
	type old struct {
		b  *book
		ch string
		v  string
	}
	var used []old
	ops := 25 + r.Intn(40)
	refuse := func(key, what, ch, v string) {
		trace = append(trace, "hostile: "+what)
		var got *big.Int
		var err error
		if !k.NoPanic("receive:"+key+":panic", trace, func() { got, err = mgr.Receive(ch, v) }) {
			return
		}
		k.Eval(fmt.Sprintf("%d/%d/%s", k.Seed, seq, strings.Join(trace, "|")))
		k.Count("hostile "+key, 1)
		if err == nil {
			k.Violate("receive:"+key, trace, "%s: credited %s", what, got)
		}
	}
	for o := 0; o < ops && k.Violations() == 0; o++ {
		bi := r.Intn(len(w.books))
		b := w.books[bi]
		payer := w.payers[bi]
		lane := []uint64{0, 0, 1, 1 << 62}[r.Intn(4)]
		l := b.lanes[lane]
		next, total := uint64(0), new(big.Int)
		if l != nil {
			next, total = l.next, l.total
		}
		left := new(big.Int).Sub(b.balance, b.credited)
		ch := b.c.Addr.String()
		good := func() (uint64, *big.Int) { // a voucher that would be credited
			v := big.NewInt(1)
			if left.Sign() > 1 {
				v.Rand(r, left).Add(v, big.NewInt(1))
			}
			return next, new(big.Int).Add(total, v)
		}
		switch x := r.Intn(22); {
		case x < 7: // any voucher, in or out of order, above or below
			nonce := next + uint64(r.Intn(3))
			if r.Intn(4) == 0 && next > 0 {
				nonce = uint64(r.Int63n(int64(next)))
			}
			amt := new(big.Int).Add(total, big.NewInt(int64(r.Intn(100))))
			switch r.Intn(6) {
			case 0:
				amt.Sub(amt, big.NewInt(int64(r.Intn(100))))
				if amt.Sign() < 0 {
					amt.SetInt64(0)
				}
			case 1: // exactly the rest, or one more
				amt.Add(total, left)
				amt.Add(amt, big.NewInt(int64(r.Intn(2))))
			case 2:
				amt.Set(total)
			}
			want := b.worth(lane, nonce, amt)
			v := w.voucher(b.c, payer, lane, nonce, amt, nil)
			trace = append(trace, fmt.Sprintf("channel %d lane %d nonce %d amount %s: worth %v", bi, lane, nonce, amt, want))
			name := ch
			if r.Intn(5) == 0 {
				name = other(ch)
			}
			got, err := mgr.Receive(name, v)
			k.Eval(fmt.Sprintf("%d/%d/%s", k.Seed, seq, strings.Join(trace, "|")))
			switch {
			case want == nil && err == nil:
				k.Violate("receive:credited", trace, "a voucher that is worth nothing was credited with %s", got)
			case want != nil && err != nil:
				k.Violate("receive:refused", trace, "a voucher worth %s was refused: %v", want, err)
			case want != nil && got.Cmp(want) != 0:
				k.Violate("receive:amount", trace, "a voucher worth %s was credited with %s", want, got)
			case want != nil:
				b.credit(lane, nonce, amt, v)
				used = append(used, old{b, ch, v})
				k.Count("credited", 1)
				got.Neg(got) // the caller's
			default:
				k.Count("refused", 1)
			}
		case x == 7 && len(used) > 0: // again
			u := used[r.Intn(len(used))]
			name := []string{u.ch, other(u.ch), u.b.c.ID.String()}[r.Intn(3)]
			refuse("again", "a voucher credited before, channel named "+name, name, u.v)
		case x == 8: // the balance grows
			add := big.NewInt(int64(r.Intn(500)))
			w.n.Do(func() { b.c.Balance.Add(b.c.Balance, add) })
			b.balance.Add(b.balance, add)
			trace = append(trace, fmt.Sprintf("channel %d topped up by %s", bi, add))
		case x == 9:
			n, a := good()
			refuse("signer", "signed by a stranger", ch, w.voucher(b.c, w.stanger, lane, n, a, nil))
		case x == 10:
			n, a := good()
			refuse("signer", "signed by the other payer", ch, w.voucher(b.c, w.payers[1-bi], lane, n, a, nil))
		case x == 11: // names this channel, meant for another one of the same payer
			c2 := w.n.Open(payer, w.me, big.NewInt(5))
			n, a := good()
			refuse("channel", "a voucher for another channel of the payer", ch, w.voucher(c2, payer, lane, n, a, nil))
		case x == 12:
			refuse("recipient", "a channel to somebody else", w.foreign.Addr.String(), w.voucher(w.foreign, w.payers[0], 0, uint64(o), big.NewInt(10), nil))
		case x == 13: // altered after signing
			n, a := good()
			sv, err := paych.DecodeSignedVoucher(w.voucher(b.c, payer, lane, n, a, nil))
			must(err)
			what := ""
			switch r.Intn(4) {
			case 0:
				what = "amount"
				sv.Amount = types.BigInt{Int: new(big.Int).Add(a, big.NewInt(1))}
			case 1:
				what = "nonce"
				sv.Nonce++
			case 2:
				what = "lane"
				sv.Lane += 5
			case 3:
				what = "settle height"
				sv.MinSettleHeight += 5
			}
			refuse("altered", what+" altered after signing", ch, lotus.Encode(sv))
		case x == 14: // signature missing or damaged
			n, a := good()
			sv, err := paych.DecodeSignedVoucher(w.voucher(b.c, payer, lane, n, a, nil))
			must(err)
			switch r.Intn(5) {
			case 0:
				sv.Signature = nil
			case 1:
				sv.Signature.Data = sv.Signature.Data[:r.Intn(65)]
			case 2:
				sv.Signature.Data[r.Intn(64)] ^= 1 << uint(r.Intn(8))
			case 3:
				sv.Signature = &crypto2.Signature{Type: crypto2.SigTypeBLS, Data: make([]byte, 96)}
			case 4:
				sv.Signature.Data = make([]byte, 65)
			}
			refuse("signature", "no proper signature", ch, lotus.Encode(sv))
		case x == 15: // cannot be redeemed as it stands
			n, a := good()
			what := ""
			v := w.voucher(b.c, payer, lane, n, a, func(sv *paych.SignedVoucher) {
				switch r.Intn(5) {
				case 0:
					what = "can only be redeemed after some time"
					sv.TimeLockMin = []abi.ChainEpoch{1 << 40, 1 << 62, 1001, 999, 1}[r.Intn(5)]
				case 1:
					what = "can only be redeemed before some time"
					sv.TimeLockMax = []abi.ChainEpoch{1, 999, 1001, 1 << 40, -1}[r.Intn(5)]
				case 2:
					what = "needs a secret"
					sv.SecretPreimage = []byte("0123456789abcdef0123456789abcdef")[:[]int{32, 32, 1, 31}[r.Intn(4)]]
				case 3:
					what = "needs the consent of another actor"
					sv.Extra = &paych.ModVerifyParams{Actor: w.stanger.Addr, Method: abi.MethodNum(r.Intn(3)), Data: []byte{1}[:r.Intn(2)]}
				case 4:
					what = "takes back other lanes"
					sv.Merges = []paych0.Merge{{Lane: lane + uint64(r.Intn(2)), Nonce: []uint64{1 << 40, 0, 1}[r.Intn(3)]}}
				}
			})
			refuse("condition", "a voucher that "+what, ch, v)
		case x == 16: // not payment channels
			a := []string{w.payers[0].Addr.String(), w.me.ID.String(), "f099999", "f2aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "", "x", "f"}[r.Intn(7)]
			n, am := good()
			refuse("no-channel", "for "+a, a, w.voucher(b.c, payer, lane, n, am, nil))
		case x == 17: // state of another shape
			st := []interface{}{map[string]interface{}{"To": 5, "From": 6}, map[string]interface{}{"To": w.me.ID.String()}, map[string]interface{}{"From": w.payers[0].ID.String()}, map[string]interface{}{}, []string{"x"}, "x", map[string]interface{}{"To": "x", "From": "y"}, map[string]interface{}{"To": w.me.ID.String(), "From": nil}}[r.Intn(8)]
			w.n.Do(func() { w.weird.State = st })
			refuse("state", fmt.Sprintf("actor with state %v", st), w.weird.Addr.String(), w.voucher(w.weird, w.payers[0], 0, uint64(o), big.NewInt(int64(o+1)), nil))
		case x == 18: // garbage
			n, a := good()
			v := w.voucher(b.c, payer, lane, n, a, nil)
			switch r.Intn(5) {
			case 0:
				v = v[:r.Intn(len(v))]
			case 1:
				v = ""
			case 2:
				v = "!!" + v
			case 3:
				v = strings.Repeat("A", r.Intn(300))
			case 4:
				x := []byte(v)
				i := 30 + r.Intn(len(x)-30)
				if x[i] == 'A' {
					x[i] = 'B'
				} else {
					x[i] = 'A'
				}
				if i >= len(x)-2 {
					x = x[:i] // the last characters hold unused bits
				}
				v = string(x)
			}
			refuse("garbage", "not a voucher", ch, v)
		case x == 19: // names the channel by its number: the same channel, not another one
			n, a := good()
			v := w.voucher(b.c, payer, lane, n, a, func(sv *paych.SignedVoucher) { sv.ChannelAddr = b.c.ID })
			want := b.worth(lane, n, a)
			trace = append(trace, fmt.Sprintf("channel %d by number: lane %d nonce %d amount %s", bi, lane, n, a))
			got, err := mgr.Receive(b.c.ID.String(), v)
			if err == nil { // if it is taken at all it counts in the same account
				if want == nil || got.Cmp(want) != 0 {
					k.Violate("receive:by-number", trace, "a voucher worth %v was credited with %s", want, got)
					break
				}
				b.credit(lane, n, a, v)
			}
			k.Count("by number", 1)
		case x == 20: // negative
			v := w.voucher(b.c, payer, lane, next, big.NewInt(-5), nil)
			refuse("negative", "a negative voucher", ch, v)
		case x == 21: // the chain cannot be asked
			m := []string{"StateReadState", "StateAccountKey"}[r.Intn(2)]
			w.n.Fail(m, fmt.Errorf("injected"))
			n, a := good()
			refuse("chain-down", "chain down: "+m, ch, w.voucher(b.c, payer, lane, n, a, nil))
			w.n.Fail(m, nil)
		}
	}
	if k.Violations() == 0 {
		finish(k, w, trace)
	}
	if seq < 2 {
		k.Sample("history", trace)
	}
}

// finish redeems everything that was credited.
func finish(k *kit.K, w *world, rep interface{}) {
	for _, b := range w.books {
		for _, l := range b.accepted {
			if err := w.n.Redeem(b.c.Addr.String(), l[len(l)-1]); err != nil {
				k.Violate("redeem", rep, "a credited voucher cannot be redeemed: %v", err)
				return
			}
		}
		if got := w.n.Redeemed(b.c); got.Cmp(b.credited) != 0 {
			k.Violate("redeem:total", rep, "credited %s, redeemed %s", b.credited, got)
			return
		}
		k.Count("redemptions", 1)
	}
}

// concurrent: the same vouchers are submitted many times at once, from the very first one of a channel on, while the
// channel is topped up.
func concurrent(k *kit.K, seq int) {
	r := k.Sub("concurrent", seq)
	w := newWorld(r)
	defer w.n.Close()
	w.n.Slow(time.Duration(r.Intn(3)) * time.Millisecond)
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(w.me.Hex, w.n.URL, "tok")
	must(err)
	type sub struct {
		b      *book
		ch, v  string
		lane   uint64
		amount *big.Int
	}
	var subs []sub
	top := map[*book]map[uint64]string{}
	final := map[*book]*big.Int{}
	for i, b := range w.books {
		top[b] = map[uint64]string{}
		final[b] = new(big.Int)
		for lane := uint64(0); lane < 2; lane++ {
			total := new(big.Int)
			for n := uint64(0); n < 4; n++ {
				total.Add(total, big.NewInt(int64(1+r.Intn(25))))
				v := w.voucher(b.c, w.payers[i], lane, n, total, nil)
				top[b][lane] = v
				for j := 0; j < 3; j++ {
					name := b.c.Addr.String()
					if r.Intn(3) == 0 {
						name = other(name)
					}
					subs = append(subs, sub{b, name, v, lane, new(big.Int).Set(total)})
				}
			}
			final[b].Add(final[b], total)
		}
	}
	r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
	var mu sync.Mutex
	credits := map[*book]*big.Int{}
	count := map[string]int{}
	order := &kit.Interleavings{}
	workers := 8
	var refused []string
	k.Parallel("receive", workers+1, func(g int) {
		if g == workers {
			for j := 0; j < 30; j++ {
				w.n.Do(func() {
					for _, b := range w.books {
						b.c.Balance.Add(b.c.Balance, big.NewInt(1))
					}
				})
				time.Sleep(time.Duration(j%3) * 300 * time.Microsecond)
			}
			return
		}
		for i := g; i < len(subs); i += workers {
			s := subs[i]
			got, err := mgr.Receive(s.ch, s.v)
			mu.Lock()
			if err == nil {
				if credits[s.b] == nil {
					credits[s.b] = new(big.Int)
				}
				credits[s.b].Add(credits[s.b], got)
				count[s.v]++
			} else {
				refused = append(refused, err.Error())
			}
			mu.Unlock()
			if err == nil {
				order.Add(fmt.Sprint(i))
			}
		}
	})
	if k.Violations() > 0 {
		return
	}
	for v, n := range count {
		if n > 1 {
			k.Violate("concurrent:again", seq, "voucher %s was credited %d times", v, n)
			return
		}
	}
	for _, b := range w.books {
		if credits[b] == nil || credits[b].Cmp(final[b]) != 0 {
			k.Violate("concurrent:total", map[string]interface{}{"seq": seq, "refusals": refused}, "vouchers over %s in all were credited with %s", final[b], credits[b])
			return
		}
		for lane, v := range top[b] {
			if count[v] != 1 {
				k.Violate("concurrent:last", seq, "the highest voucher of lane %d was credited %d times", lane, count[v])
				return
			}
		}
	}
	// the state left behind: nothing of it counts again, a next voucher does
	for i, b := range w.books {
		for lane := uint64(0); lane < 2; lane++ {
			if got, err := mgr.Receive(b.c.Addr.String(), top[b][lane]); err == nil {
				k.Violate("concurrent:again", seq, "afterwards the highest voucher was credited again with %s", got)
				return
			}
			sv, err := paych.DecodeSignedVoucher(top[b][lane])
			must(err)
			v := w.voucher(b.c, w.payers[i], lane, sv.Nonce+1, new(big.Int).Add(sv.Amount.Int, big.NewInt(2)), nil)
			if got, err := mgr.Receive(b.c.Addr.String(), v); err != nil || got.Cmp(big.NewInt(2)) != 0 {
				k.Violate("concurrent:next", seq, "afterwards a voucher worth 2 was credited with %v, %v", got, err)
				return
			}
		}
	}
	k.Count("concurrent submissions", len(subs))
	k.Eval(fmt.Sprintf("order/%d/%s", seq, order.Key()))
}

// overtaken: the state of the channel is read, then the channel is topped up and another voucher credited, then the
// first goes on.
func overtaken(k *kit.K, seq int) {
	r := k.Sub("overtaken", seq)
	w := newWorld(r)
	defer w.n.Close()
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(w.me.Hex, w.n.URL, "tok")
	must(err)
	b, p := w.books[0], w.payers[0]
	ch := b.c.Addr.String()
	if _, err := mgr.Receive(ch, w.voucher(b.c, p, 0, 0, big.NewInt(1), nil)); err != nil {
		k.Violate("overtaken:first", seq, "refused: %v", err)
		return
	}
	var once int32
	var err2 error
	w.n.OnState(func(string) {
		if atomic.AddInt32(&once, 1) == 1 {
			w.n.Do(func() { b.c.Balance.Add(b.c.Balance, big.NewInt(50)) })
			_, err2 = mgr.Receive(ch, w.voucher(b.c, p, 1, 0, big.NewInt(3), nil))
		}
	})
	got, err := mgr.Receive(ch, w.voucher(b.c, p, 0, 1, big.NewInt(4), nil))
	if err != nil || err2 != nil || got.Cmp(big.NewInt(3)) != 0 {
		k.Violate("overtaken", seq, "a voucher overtaken by a top up and another voucher: %v %v, the other one: %v", got, err, err2)
	}
	k.Count("overtaken", 1)
	k.Eval(fmt.Sprintf("overtaken/%d", seq))
}

func main() {
	address.CurrentNetwork = address.Mainnet
	kit.Main("C13", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		c, h := k.N(8, 80), k.N(60, 1500)
		if k.Args["mode"] == "concurrent" {
			c, h = k.N(6, 60), 0
		}
		for i := 0; i < c && k.Violations() == 0; i++ {
			k.Guard("concurrent", i, 120*time.Second, func() { concurrent(k, i) })
		}
		if h == 0 {
			return
		}
		for i := 0; i < h && k.Violations() == 0; i += 6 {
			k.Guard("history", i, 120*time.Second, func() {
				k.Parallel("history", 6, func(g int) { history(k, i+g) })
			})
		}
		for i := 0; i < k.N(4, 20) && k.Violations() == 0; i++ {
			k.Guard("overtaken", i, 60*time.Second, func() { overtaken(k, i) })
		}
		k.Floor("credited", int64(h))
		k.Floor("refused", int64(h))
		k.Floor("redemptions", int64(h))
	})
}
