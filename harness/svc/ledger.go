//go:build go1.22

package svc

import "math/big"

// Ledger is what the vouchers of one channel are worth to the payee.
type Ledger struct {
	Balance  *big.Int
	Credited *big.Int
	lanes    map[uint64]*purseLane
}

// NewLedger of a channel that holds so much.
func NewLedger(balance *big.Int) *Ledger {
	return &Ledger{new(big.Int).Set(balance), new(big.Int), map[uint64]*purseLane{}}
}

// State of a lane: the next nonce and the total so far.
func (b *Ledger) State(lane uint64) (uint64, *big.Int) {
	if l := b.lanes[lane]; l != nil {
		return l.nonce, new(big.Int).Set(l.total)
	}
	return 0, new(big.Int)
}

// Worth of a genuine voucher now; nil if nothing.
func (b *Ledger) Worth(lane, nonce uint64, total *big.Int) *big.Int {
	next, have := b.State(lane)
	if nonce < next || total.Cmp(have) <= 0 {
		return nil
	}
	v := new(big.Int).Sub(total, have)
	if new(big.Int).Add(b.Credited, v).Cmp(b.Balance) > 0 {
		return nil
	}
	return v
}

// Submit credits a genuine voucher.
func (b *Ledger) Submit(lane, nonce uint64, total *big.Int) *big.Int {
	v := b.Worth(lane, nonce, total)
	if v != nil {
		b.Credited.Add(b.Credited, v)
		b.lanes[lane] = &purseLane{nonce + 1, new(big.Int).Set(total)}
	}
	return v
}
