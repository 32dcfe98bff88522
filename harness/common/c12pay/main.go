//go:build go1.22

// C12: the paying side of payment channels, against a chain that knows the rules: every voucher is decoded, compared with
// a ledger of what was paid in and out, and in the end redeemed.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/lotus"
)

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// amount makes numbers as settings files and arithmetic make them.
func amount(r *rand.Rand) *big.Int {
	switch r.Intn(5) {
	case 0:
		return big.NewInt(int64(r.Intn(50) + 1))
	case 1:
		x, _ := new(big.Int).SetString(fmt.Sprintf("%d", r.Int63n(1e18)+1), 10)
		return x
	case 2:
		x, _ := new(big.Int).SetString("1"+strings.Repeat("0", r.Intn(60)), 10)
		return x
	case 3:
		x := big.NewInt(r.Int63n(1000) + 1)
		return x.Mul(x, big.NewInt(r.Int63n(1000)+1))
	default:
		x := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(200)))
		return x.Sub(x, big.NewInt(0)).Set(x)
	}
}

// caller remembers the numbers given to the code under test, which belong to the caller.
type caller struct {
	mu   sync.Mutex
	nums []*big.Int
	was  []string
}

func (c *caller) give(x *big.Int) *big.Int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nums = append(c.nums, x)
	c.was = append(c.was, x.String())
	return x
}

func (c *caller) changed() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, x := range c.nums {
		if x.String() != c.was[i] {
			return fmt.Sprintf("%s became %s", c.was[i], x)
		}
	}
	return ""
}

type voucher struct {
	sv   *paych.SignedVoucher
	text string
	paid *big.Int
}

// examine checks what one voucher says by itself.
func examine(k *kit.K, payer *lotus.Account, c *lotus.Channel, ch, text string, lane uint64, paid *big.Int, rep interface{}) *voucher {
	sv, err := paych.DecodeSignedVoucher(text)
	if err != nil {
		k.Violate("voucher:decode", rep, "the voucher cannot be decoded: %v", err)
		return nil
	}
	sig := sv.Signature
	vb, err := sv.SigningBytes()
	must(err)
	if err := lotus.Verify(sig, payer.Addr, vb); err != nil {
		k.Violate("voucher:signature", rep, "the voucher is not signed by the payer: %v", err)
		return nil
	}
	if ch != c.Addr.String() || sv.ChannelAddr != c.Addr {
		k.Violate("voucher:channel", rep, "paid over channel %s with a voucher for channel %s, the channel to the recipient is %s", ch, sv.ChannelAddr, c.Addr)
		return nil
	}
	if sv.Lane != lane {
		k.Violate("voucher:lane", rep, "paid in lane %d, the voucher says %d", lane, sv.Lane)
		return nil
	}
	if sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || len(sv.SecretPreimage) != 0 || sv.Extra != nil || len(sv.Merges) != 0 {
		k.Violate("voucher:conditions", rep, "the voucher has conditions: %+v", sv)
		return nil
	}
	return &voucher{sv, text, paid}
}

// settle submits vouchers on the chain: what the recipient gets is what was paid.
func settle(k *kit.K, n *lotus.Node, r *rand.Rand, c *lotus.Channel, lanes map[uint64][]*voucher, want *big.Int, rep interface{}) {
	all := r.Intn(2) == 0
	for _, l := range lanes {
		for i, v := range l {
			if all || i == len(l)-1 {
				if err := n.Redeem(c.Addr.String(), v.text); err != nil {
					k.Violate("settle:refused", rep, "the chain refuses voucher %d of lane %d, amount %s: %v", v.sv.Nonce, v.sv.Lane, v.sv.Amount, err)
					return
				}
			}
		}
	}
	if got := n.Redeemed(c); got.Cmp(want) != 0 {
		k.Violate("settle:total", rep, "%s was paid, the vouchers redeem %s", want, got)
	}
	k.Count("settlements", 1)
}

type ledger struct {
	deposit, spent *big.Int
	total          map[uint64]*big.Int
	lanes          map[uint64][]*voucher
}

func history(k *kit.K, seq int) {
	r := k.Sub("history", seq)
	n := lotus.New(r)
	defer n.Close()
	payer := n.NewAccount()
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(payer.Hex, n.URL, "tok")
	must(err)
	var rcpt []*lotus.Account
	led := map[*lotus.Account]*ledger{}
	for i := 0; i < 3; i++ {
		a := n.NewAccount()
		rcpt = append(rcpt, a)
		led[a] = &ledger{new(big.Int), new(big.Int), map[uint64]*big.Int{}, map[uint64][]*voucher{}}
	}
	cl := &caller{}
	topup := cl.give(amount(r)) // used again and again, as the setting is
	var trace []string
	ops := 20 + r.Intn(40)
	for o := 0; o < ops && k.Violations() == 0; o++ {
		a := rcpt[r.Intn(len(rcpt))]
		l := led[a]
		switch x := r.Intn(10); {
		case x < 2: // top up
			amt := topup
			if r.Intn(3) == 0 {
				amt = cl.give(amount(r))
			}
			before := new(big.Int).Set(amt)
			fault := ""
			switch r.Intn(6) {
			case 0:
				fault = []string{"MpoolGetNonce", "GasEstimateGasLimit", "GasEstimateGasPremium", "GasEstimateFeeCap", "MpoolPush"}[r.Intn(5)]
				n.Fail(fault, errors.New("injected"))
			case 1:
				fault = "exit"
				n.Exit(1 + r.Intn(30))
			}
			trace = append(trace, fmt.Sprintf("topup %s %s fault=%s", a.Addr, before, fault))
			err := mgr.Topup(a.Addr.String(), amt)
			if fault != "" {
				n.Fail(fault, nil)
				n.Exit(0)
			}
			if (err == nil) != (fault == "") {
				k.Violate("topup:result", trace, "top up with fault %q: error %v", fault, err)
				return
			}
			if fault == "" {
				l.deposit.Add(l.deposit, before)
			}
			k.Eval(fmt.Sprintf("%d/%d/topup/%s", k.Seed, seq, strings.Join(trace, "|")))
			k.Count("topups", 1)
		case x == 2 && r.Intn(3) == 0:
			bad := []string{"", "x", "f1abc", a.Addr.String() + "q", "t2"}[r.Intn(5)]
			if err := mgr.Topup(bad, topup); err == nil {
				k.Violate("topup:bad-recipient", bad, "a top up for %q succeeded", bad)
				return
			}
		case x == 2:
			neg := big.NewInt(-1 - r.Int63n(100))
			if r.Intn(2) == 0 {
				neg.Lsh(neg, uint(r.Intn(100)))
			}
			trace = append(trace, "pay "+neg.String())
			if _, v, _, _ := mgr.Pay(a.Addr.String(), 0, neg); v != "" {
				k.Violate("pay:negative", trace, "paying %s gave a voucher", neg)
				return
			}
		default:
			lane := []uint64{0, 0, 0, 1, 7, 1 << 63}[r.Intn(6)]
			left := new(big.Int).Sub(l.deposit, l.spent)
			amt := amount(r)
			switch {
			case left.Sign() > 0 && r.Intn(8) == 0:
				amt = left // to the last coin
			case left.Sign() > 0 && r.Intn(8) == 0:
				amt = new(big.Int).Add(left, big.NewInt(1))
			case left.Sign() > 0 && amt.Cmp(left) > 0 && r.Intn(4) > 0:
				amt = new(big.Int).Rand(r, left)
				amt.Add(amt, big.NewInt(1))
			case l.deposit.Sign() > 0 && r.Intn(10) == 0: // what costs nothing
				amt = new(big.Int)
				k.Count("payments of nothing", 1)
			}
			cl.give(amt)
			paid := new(big.Int).Set(amt)
			trace = append(trace, fmt.Sprintf("pay %s lane %d amount %s (left %s)", a.Addr, lane, paid, left))
			ch, v, need, err := mgr.Pay(a.Addr.String(), lane, amt)
			k.Eval(fmt.Sprintf("%d/%d/pay/%s", k.Seed, seq, strings.Join(trace, "|")))
			if err != nil {
				k.Violate("pay:error", trace, "paying failed: %v", err)
				return
			}
			if enough := paid.Cmp(left) <= 0; need == enough {
				k.Violate("pay:balance", trace, "paying %s with %s left in the channel: needs top up = %v", paid, left, need)
				return
			}
			if need {
				k.Count("asked for top up", 1)
				if v != "" || ch != "" {
					k.Violate("pay:voucher-and-topup", trace, "a voucher was issued although a top up is needed")
					return
				}
				continue
			}
			chs := n.Between(payer, a)
			if len(chs) != 1 {
				k.Violate("channels", trace, "%d channels to one recipient", len(chs))
				return
			}
			vo := examine(k, payer, chs[0], ch, v, lane, paid, trace)
			if vo == nil {
				return
			}
			if l.total[lane] == nil {
				l.total[lane] = new(big.Int)
			}
			l.total[lane].Add(l.total[lane], paid)
			l.spent.Add(l.spent, paid)
			if vo.sv.Amount.Int.Cmp(l.total[lane]) != 0 {
				k.Violate("voucher:amount", trace, "the voucher says %s, paid in lane %d so far: %s", vo.sv.Amount, lane, l.total[lane])
				return
			}
			if h := l.lanes[lane]; len(h) > 0 && vo.sv.Nonce <= h[len(h)-1].sv.Nonce {
				k.Violate("voucher:nonce", trace, "voucher number %d after %d in lane %d", vo.sv.Nonce, h[len(h)-1].sv.Nonce, lane)
				return
			}
			l.lanes[lane] = append(l.lanes[lane], vo)
			k.Count("vouchers", 1)
		}
		if c := cl.changed(); c != "" {
			k.Violate("caller-amount", trace, "an amount that belongs to the caller was changed: %s", c)
			return
		}
	}
	for _, a := range rcpt {
		chs := n.Between(payer, a)
		if len(chs) > 1 || len(chs) == 0 && led[a].deposit.Sign() > 0 {
			k.Violate("channels", trace, "%d channels to one recipient, deposit %s", len(chs), led[a].deposit)
			return
		}
		if len(chs) == 1 {
			if b := n.BalanceOf(chs[0]); b.Cmp(led[a].deposit) != 0 {
				k.Violate("chain-balance", trace, "%s was confirmed as topped up, the channel holds %s", led[a].deposit, b)
				return
			}
			settle(k, n, r, chs[0], led[a].lanes, led[a].spent, trace)
		}
	}
	if w := n.Wrong(); len(w) > 0 {
		k.Violate("chain-message", trace, "sent to the chain: %v", w)
	}
	if seq < 2 {
		k.Sample("history", trace)
	}
}

// concurrent: several goroutines top up and pay the same recipients.
func concurrent(k *kit.K, seq int) {
	r := k.Sub("concurrent", seq)
	n := lotus.New(r)
	defer n.Close()
	n.Slow(time.Duration(r.Intn(3)) * time.Millisecond)
	payer := n.NewAccount()
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(payer.Hex, n.URL, "tok")
	must(err)
	rcpt := []*lotus.Account{n.NewAccount(), n.NewAccount()}
	cl := &caller{}
	topup, _ := new(big.Int).SetString(fmt.Sprintf("%d", 1000+r.Intn(3000)), 10)
	cl.give(topup)
	top0 := new(big.Int).Set(topup)
	type got struct {
		a    *lotus.Account
		lane uint64
		ch   string
		v    string
		paid *big.Int
	}
	type refusal struct {
		a    *lotus.Account
		amt  *big.Int
		tops int
	}
	var mu sync.Mutex
	var all []got
	var refused []refusal
	tops := map[*lotus.Account]int{}
	order := &kit.Interleavings{}
	phase := func(label string, workers int, withTopups bool) {
		k.Parallel(label, workers, func(w int) {
			rr := k.Sub(label, seq*100+w)
			for j := 0; j < 12; j++ {
				a := rcpt[rr.Intn(2)]
				lane := uint64(rr.Intn(2))
				amt := big.NewInt(int64(1 + rr.Intn(120)))
				ch, v, need, err := mgr.Pay(a.Addr.String(), lane, amt)
				if err != nil {
					k.Violate("concurrent:pay", seq, "paying failed: %v", err)
					return
				}
				if need {
					mu.Lock()
					refused = append(refused, refusal{a, amt, tops[a]})
					mu.Unlock()
					if !withTopups {
						continue
					}
					if err := mgr.Topup(a.Addr.String(), topup); err != nil {
						k.Violate("concurrent:topup", seq, "a top up failed although nothing is wrong: %v", err)
						return
					}
					mu.Lock()
					tops[a]++
					mu.Unlock()
					continue
				}
				mu.Lock()
				all = append(all, got{a, lane, ch, v, amt})
				mu.Unlock()
				order.Add(fmt.Sprint(w))
			}
		})
	}
	// all want the same new channels at once
	k.Parallel("create", 6, func(w int) {
		a := rcpt[w%2]
		if err := mgr.Topup(a.Addr.String(), topup); err != nil {
			k.Violate("concurrent:topup", seq, "a top up failed although nothing is wrong: %v", err)
			return
		}
		mu.Lock()
		tops[a]++
		mu.Unlock()
	})
	phase("pay", 6, false)
	afterFixed := len(refused)
	spentFixed := map[*lotus.Account]*big.Int{}
	for _, a := range rcpt {
		spentFixed[a] = new(big.Int)
	}
	for _, g := range all {
		spentFixed[g.a].Add(spentFixed[g.a], g.paid)
	}
	topsFixed := map[*lotus.Account]int{rcpt[0]: tops[rcpt[0]], rcpt[1]: tops[rcpt[1]]}
	phase("pay and top up", 6, true)
	if k.Violations() > 0 {
		return
	}
	for i, f := range refused[:afterFixed] {
		dep := new(big.Int).Mul(top0, big.NewInt(int64(topsFixed[f.a])))
		if x := new(big.Int).Add(spentFixed[f.a], f.amt); x.Cmp(dep) <= 0 {
			k.Violate("concurrent:refusal", seq, "refusal %d of %s although only %s of %s was ever spent", i, f.amt, spentFixed[f.a], dep)
			return
		}
	}
	for _, a := range rcpt {
		chs := n.Between(payer, a)
		if len(chs) != 1 {
			k.Violate("concurrent:channels", seq, "%d channels to one recipient: only the last can be used, the money in the others is lost", len(chs))
			return
		}
		dep := new(big.Int).Mul(top0, big.NewInt(int64(tops[a])))
		if b := n.BalanceOf(chs[0]); b.Cmp(dep) != 0 {
			k.Violate("concurrent:chain-balance", seq, "%d top ups of %s, the channel holds %s", tops[a], top0, b)
			return
		}
		lanes := map[uint64][]*voucher{}
		spent := new(big.Int)
		for _, g := range all {
			if g.a == a {
				v := examine(k, payer, chs[0], g.ch, g.v, g.lane, g.paid, seq)
				if v == nil {
					return
				}
				lanes[g.lane] = append(lanes[g.lane], v)
				spent.Add(spent, g.paid)
			}
		}
		for lane, l := range lanes {
			sort.Slice(l, func(i, j int) bool { return l[i].sv.Nonce < l[j].sv.Nonce })
			total := new(big.Int)
			for i, v := range l {
				total.Add(total, v.paid)
				if i > 0 && v.sv.Nonce == l[i-1].sv.Nonce {
					k.Violate("concurrent:nonce", seq, "two vouchers of lane %d have number %d", lane, v.sv.Nonce)
					return
				}
				if v.sv.Amount.Int.Cmp(total) != 0 {
					k.Violate("concurrent:amount", seq, "voucher %d of lane %d says %s, up to it was paid %s", v.sv.Nonce, lane, v.sv.Amount, total)
					return
				}
			}
		}
		k.Count("concurrent vouchers", len(lanes[0])+len(lanes[1]))
		settle(k, n, r, chs[0], lanes, spent, seq)
	}
	if w := n.Wrong(); len(w) > 0 {
		k.Violate("chain-message", seq, "sent to the chain: %v", w)
	}
	if c := cl.changed(); c != "" {
		k.Violate("caller-amount", seq, "an amount that belongs to the caller was changed: %s", c)
	}
	k.Count("concurrent top ups", tops[rcpt[0]]+tops[rcpt[1]])
	k.Eval(fmt.Sprintf("order/%d/%s", seq, order.Key()))
}

func main() {
	kit.Main("C12", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		c, h := k.N(6, 60), k.N(60, 1500)
		if k.Args["mode"] == "concurrent" {
			c, h = k.N(5, 40), 0
		}
		for i := 0; i < c && k.Violations() == 0; i++ {
			k.Guard("concurrent", i, 120*time.Second, func() { concurrent(k, i) })
		}
		for i := 0; i < h && k.Violations() == 0; i += 6 {
			k.Guard("history", i, 120*time.Second, func() {
				k.Parallel("history", 6, func(w int) { history(k, i+w) })
			})
		}
		if h == 0 {
			return
		}
		k.Floor("vouchers", int64(h*2))
		k.Floor("asked for top up", int64(h))
		k.Floor("settlements", int64(h))
		// a receipt that takes its time
		k.Guard("pending", nil, 120*time.Second, func() {
			n := lotus.New(k.Sub("pending", 0))
			defer n.Close()
			a, b := n.NewAccount(), n.NewAccount()
			mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(a.Hex, n.URL, "tok")
			must(err)
			n.Pending(1)
			if err := mgr.Topup(b.Addr.String(), big.NewInt(10)); err != nil {
				k.Violate("pending:topup", nil, "a top up whose receipt came late failed: %v", err)
			}
			if _, v, need, err := mgr.Pay(b.Addr.String(), 0, big.NewInt(10)); v == "" || need || err != nil {
				k.Violate("pending:pay", nil, "after a top up whose receipt came late: %v %v", need, err)
			}
		})
	})
}
