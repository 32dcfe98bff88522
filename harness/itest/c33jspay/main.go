//go:build go1.22

// C33: the payments of the JavaScript client: vouchers are good and covered by what is in the channel, and what is topped up
// is in the books exactly if it is on the chain.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/js"
)

// account is what the monitor knows of one recipient.
type account struct {
	who   string
	has   bool // there is a channel
	money *big.Int
	spent *big.Int
	lost  bool // a top up landed that the client was never told about
}

type world struct {
	k     *kit.K
	js    *js.Worker
	c     *chain
	h     int
	accs  []*account
	trail []string
}

func newWorld(k *kit.K, w *js.Worker, seq int, label string) *world {
	r := k.Sub(label, seq)
	x := &world{k: k, js: w, c: newChain(k, k.Sub(label+" chain", seq))}
	key, b64 := randPriv(r)
	x.c.priv = b64
	if err := w.Do("address", js.Args{"priv": key}, &x.c.addr); err != nil {
		panic("harness: " + err.Error())
	}
	if err := w.Do("manager", js.Args{"priv": key, "url": x.c.srv.URL, "token": x.c.token}, &x.h); err != nil {
		panic("harness: " + err.Error())
	}
	for i := 2 + r.Intn(4); i > 0; i-- {
		x.accs = append(x.accs, &account{who: randRecipient(r), money: new(big.Int), spent: new(big.Int)})
	}
	return x
}

func (w *world) close() { w.c.srv.CloseClientConnections(); w.c.srv.Close() }

func (w *world) note(f string, a ...interface{}) {
	w.trail = append(w.trail, fmt.Sprintf(f, a...))
	if len(w.trail) > 14 {
		w.trail = w.trail[1:]
	}
}

func (w *world) rep() string { return strings.Join(w.trail, "; ") }

type paid struct {
	PaychAddr string `json:"paychAddr"`
	Voucher   string `json:"voucher"`
	Topup     bool   `json:"topup"`
	Error     int    `json:"error"`
}

// pay asks for a payment and checks it; amount and lane are any.
func (w *world) pay(a *account, lane uint64, amount *big.Int, refuse bool) {
	k := w.k
	var p paid
	if err := w.js.Do("pay", js.Args{"h": w.h, "to": a.who, "lane": lane, "amount": amount.String(), "refuse": refuse}, &p); err != nil {
		if !errors.Is(err, js.ErrLost) {
			k.Violate("threw:pay", w.rep(), "a payment threw %v: %s", err, w.rep())
		}
		return
	}
	left := new(big.Int).Sub(a.money, a.spent)
	need := !a.has || left.Cmp(amount) < 0
	if p.Topup != need {
		k.Violate("topup-asked", w.rep(), "of %v there is %v left (a channel: %v), the client is told to top up: %v: %s", amount, left, a.has, p.Topup, w.rep())
		return
	}
	if need {
		k.Count("too little", 1)
		if p.Voucher != "" {
			k.Violate("voucher-and-topup", w.rep(), "a voucher was given that is not covered: %s", w.rep())
		}
		return
	}
	if refuse {
		k.Count("not signed", 1)
		if p.Voucher != "" || p.Error == 0 {
			k.Violate("unsigned", w.rep(), "a voucher that was not signed passes as paid: %s", w.rep())
		}
		return
	}
	var d *big.Int
	var why string
	w.c.do(func() { d, why = w.c.take(a.who, p.PaychAddr, p.Voucher, lane) })
	if d == nil || p.Error != 0 {
		k.Violate("voucher", w.rep(), "the voucher is no good: %s (error %d): %s", why, p.Error, w.rep())
		return
	}
	if d.Cmp(amount) != 0 {
		k.Violate("amount", w.rep(), "a voucher for %v adds %v: %s", amount, d, w.rep())
	}
	a.spent.Add(a.spent, amount)
	k.Count("vouchers", 1)
}

func history(k *kit.K, jw *js.Worker, seq, steps int) {
	r := k.Sub("history", seq)
	w := newWorld(k, jw, seq, "world")
	defer w.close()
	unit := big.NewInt(1)
	if seq%2 == 1 { // as much as there is
		unit.Exp(big.NewInt(10), big.NewInt(18), nil)
		unit.Add(unit, big.NewInt(r.Int63n(1<<50)|1))
	}
	for i := 0; i < steps && k.Violations() < 20; i++ {
		a := w.accs[r.Intn(len(w.accs))]
		if r.Intn(3) > 0 {
			lane := uint64([]int{0, 0, 1, 2, 7, 1 << 30}[r.Intn(6)])
			amount := new(big.Int).Mul(unit, big.NewInt(int64(r.Intn(60))))
			if r.Intn(6) == 0 { // all that is left, or one more
				amount.Sub(a.money, a.spent)
				amount.Add(amount, big.NewInt(int64(r.Intn(2))))
			}
			refuse := r.Intn(12) == 0
			w.note("pay %.6s %v on lane %d", a.who, amount, lane)
			w.pay(a, lane, amount, refuse)
			k.Eval(fmt.Sprint("pay", lane, amount, a.money, a.spent))
			continue
		}
		if a.lost {
			for i := range w.accs {
				if w.accs[i] == a {
					a = &account{who: randRecipient(r), money: new(big.Int), spent: new(big.Int)}
					w.accs[i] = a
				}
			}
		}
		amount := new(big.Int).Mul(unit, big.NewInt(int64(1+r.Intn(200))))
		method, how := "", 0
		if r.Intn(2) == 0 {
			method = []string{"MpoolGetNonce", "GasEstimateMessageGas", "MpoolPush", "MpoolPush", "MpoolPush", "StateWaitMsg"}[r.Intn(6)]
			how = 1 + r.Intn(failWays)
			if method == "MpoolPush" && r.Intn(2) == 0 {
				how = failExit
			}
		}
		var before, after int
		w.c.do(func() {
			before = w.c.pushed
			w.c.fault = map[string]int{}
			if method != "" {
				w.c.fault[method] = how
			}
		})
		w.note("top up %.6s by %v (%s fails %d)", a.who, amount, method, how)
		err := w.js.Do("topup", js.Args{"h": w.h, "to": a.who, "amount": amount.String()}, nil)
		if errors.Is(err, js.ErrLost) {
			return
		}
		w.c.do(func() { after = w.c.pushed; w.c.fault = map[string]int{} })
		switch {
		case method == "" && err != nil:
			k.Violate("topup-failed", w.rep(), "a top up failed though nothing else did: %v: %s", err, w.rep())
		case method == "StateWaitMsg" && err != nil && after > before:
			// it is on the chain, but nobody said so
			a.lost = true
			k.Count("landed unheard of", 1)
		case err == nil && after != before+1:
			k.Violate("topup-believed", w.rep(), "a top up ended well, but %d messages took effect (%s fails %d): %s", after-before, method, how, w.rep())
		case err != nil && after != before:
			k.Violate("topup-unbelieved", w.rep(), "a top up failed (%v), but %d messages took effect: %s", err, after-before, w.rep())
		case err != nil:
			k.Count("top ups failed", 1)
		}
		if err == nil {
			a.money.Add(a.money, amount)
			a.has = true
			k.Count("top ups", 1)
		}
		w.c.do(func() {
			l := w.c.to(a.who)
			switch {
			case a.lost:
			case len(l) > 1:
				k.Violate("channels", w.rep(), "there are %d channels to one recipient: %s", len(l), w.rep())
			case a.has && (len(l) == 0 || l[0].balance.Cmp(a.money) != 0):
				k.Violate("deposit", w.rep(), "topped up were %v, the chain has %+v: %s", a.money, l, w.rep())
			}
		})
		// what the books say: all that is there can be paid, and no more
		if r.Intn(3) == 0 {
			left := new(big.Int).Sub(a.money, a.spent)
			w.note("pay %.6s more than %v", a.who, left)
			w.pay(a, 0, new(big.Int).Add(left, big.NewInt(1)), false)
		}
		k.Eval(fmt.Sprint("topup", amount, method, how, a.money))
	}
	k.Sample("history", w.trail)
}

// concurrent: top ups and payments overlap.
func concurrent(k *kit.K, jw *js.Worker, seq, rounds int) {
	r := k.Sub("concurrent", seq)
	for round := 0; round < rounds && k.Violations() < 20; round++ {
		w := newWorld(k, jw, seq*1000+round, "concurrent world")
		w.c.do(func() { w.c.slow = true })
		sums := map[*account]*big.Int{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		var text []string
		var spent sync.Map
		for _, a := range w.accs {
			sums[a] = new(big.Int)
		}
		n := 2 + r.Intn(8)
		for c := 0; c < n; c++ {
			// those that come later find channels, and pay while others top up the same
			a := w.accs[r.Intn(len(w.accs))]
			amount := big.NewInt(int64(100 + r.Intn(1000)))
			text = append(text, fmt.Sprintf("%.6s %v", a.who, amount))
			rep := fmt.Sprintf("world %d round %d", seq, round)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := jw.Do("topup", js.Args{"h": w.h, "to": a.who, "amount": amount.String()}, nil); err != nil {
					if !errors.Is(err, js.ErrLost) {
						k.Violate("concurrent:topup-failed", rep, "one of %d top ups at once failed: %v: %s", n, err, rep)
					}
					return
				}
				mu.Lock()
				sums[a].Add(sums[a], amount)
				mu.Unlock()
				k.Count("top ups at once", 1)
				for j := 0; j < 3; j++ {
					// the vouchers are taken in the order in which the client made them, which their nonces tell
					var p paid
					if jw.Do("pay", js.Args{"h": w.h, "to": a.who, "lane": j, "amount": "30"}, &p) != nil {
						return
					}
					if p.Topup {
						k.Violate("concurrent:uncovered", rep, "after a top up by %v a payment of 30 is not covered: %s", amount, rep)
						return
					}
					mu.Lock()
					v, err := decode(p.Voucher)
					if err == nil {
						key := p.PaychAddr + "/" + v.Lane + "/" + v.Nonce
						if _, twice := spent.LoadOrStore(key, v.Amount); twice {
							k.Violate("concurrent:nonce", rep, "two vouchers have the same channel, lane and nonce: %s: %s", key, rep)
						}
					} else {
						k.Violate("concurrent:voucher", p.Voucher, "a voucher is no good: %v", err)
					}
					mu.Unlock()
					k.Count("payments meanwhile", 1)
				}
			}()
		}
		wg.Wait()
		rep := strings.Join(text, "; ")
		for _, a := range w.accs {
			w.c.do(func() {
				l := w.c.to(a.who)
				got := new(big.Int)
				for _, ch := range l {
					got.Add(got, ch.balance)
				}
				if got.Cmp(sums[a]) != 0 || len(l) > 1 {
					k.Violate("concurrent:deposit", rep, "top ups at once came to %v, on the chain are %v in %d channels: %s", sums[a], got, len(l), rep)
				}
				for _, ch := range l {
					// each lane's vouchers add 30 each
					lanes := map[string][2]int64{}
					spent.Range(func(key, val interface{}) bool {
						p := strings.Split(key.(string), "/")
						if p[0] != ch.addr {
							return true
						}
						amount, ok := new(big.Int).SetString(val.(string), 10)
						x := lanes[p[1]]
						x[0]++
						if ok && amount.Int64() > x[1] {
							x[1] = amount.Int64()
						}
						lanes[p[1]] = x
						return true
					})
					total := int64(0)
					for lane, x := range lanes {
						if x[1] != 30*x[0] {
							k.Violate("concurrent:lane", rep, "%d payments of 30 on lane %s come to %d: %s", x[0], lane, x[1], rep)
						}
						total += x[1]
					}
					if big.NewInt(total).Cmp(ch.balance) > 0 {
						k.Violate("concurrent:overdrawn", rep, "vouchers come to %d, the channel holds %v: %s", total, ch.balance, rep)
					}
				}
			})
		}
		// what is left, and one more
		for _, a := range w.accs {
			left := new(big.Int).Set(sums[a])
			if left.Sign() == 0 {
				continue
			}
			w.c.do(func() {
				for _, ch := range w.c.to(a.who) {
					spent.Range(func(key, val interface{}) bool {
						if strings.HasPrefix(key.(string), ch.addr+"/") {
							left.Sub(left, big.NewInt(30))
						}
						return true
					})
				}
			})
			for _, x := range []*big.Int{new(big.Int).Add(left, big.NewInt(1)), left} {
				var p paid
				if jw.Do("pay", js.Args{"h": w.h, "to": a.who, "lane": 9, "amount": x.String()}, &p) != nil {
					break
				}
				if p.Topup != (x != left) {
					k.Violate("concurrent:left", rep, "after top ups and payments at once %v is left, of %v the client is told to top up: %v: %s", left, x, p.Topup, rep)
				}
			}
		}
		w.c.do(func() { k.Eval(strings.Join(w.c.trail, " ")) })
		k.Count("rounds", 1)
		w.close()
	}
}

func main() {
	logging.Init1("disabled", "STDOUT", "verif")
	kit.Main("C33", func(k *kit.K) {
		k.Floor("vouchers", 1000)
		k.Floor("too little", 300)
		k.Floor("not signed", 40)
		k.Floor("top ups", 300)
		k.Floor("top ups failed", 100)
		k.Floor("failed on the chain", 20)
		k.Floor("rounds", 60)
		k.Floor("top ups at once", 200)
		var jobs []func(w *js.Worker)
		for i := 0; i < k.N(16, 120); i++ {
			jobs = append(jobs, func(w *js.Worker) { history(k, w, i, k.N(300, 800)) })
		}
		for i := 0; i < k.N(6, 40); i++ {
			jobs = append(jobs, func(w *js.Worker) { concurrent(k, w, i, k.N(30, 60)) })
		}
		var next atomic.Int64
		k.Parallel("client", 4, func(int) {
			w := js.Start(k)
			defer w.Close()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) || k.Violations() >= 20 {
					return
				}
				jobs[i](w)
			}
		})
	})
}
