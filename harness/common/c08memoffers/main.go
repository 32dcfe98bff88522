//go:build go1.22

// C08: the in-memory offer store of providers against a set of offers.
package main

import (
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

var rules = fakes.StoreRules{Kinds: true, RefuseStale: true, Wrap: true}

func main() {
	kit.Main("C08", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		if k.Args["mode"] == "concurrent" {
			n := k.N(25, 600)
			for i := 0; i < n && k.Violations() == 0; i++ {
				i := i
				k.Guard("concurrent", i, 60*time.Second, func() {
					fakes.RunStoreConcurrent(k, "mem", fcroffermgr.NewFCROfferMgr(), rules, k.Sub("conc", i), 6, 25)
				})
			}
			k.Parallel("wave", 3, func(w int) {
				for i := w; i < k.N(3, 60) && k.Violations() == 0; i += 3 {
					fakes.RunStoreExpiry(k, "mem", fcroffermgr.NewFCROfferMgr(), rules, k.Sub("wave", i), 400)
				}
			})
			k.Floor("offers that expired among lookups", 1500)
			k.Floor("lookups while offers expire", 5000)
			k.Floor("concurrent_additions", int64(n*80))
			k.Floor("concurrent_reads", 500)
			return
		}
		k.Parallel("wave", 4, func(w int) {
			for i := w; i < k.N(4, 100) && k.Violations() == 0; i += 4 {
				fakes.RunStoreExpiry(k, "mem", fcroffermgr.NewFCROfferMgr(), rules, k.Sub("wave1", i), 600)
			}
		})
		k.Floor("offers that expired among lookups", 1500)
		for _, m := range []int{300, k.N(5000, 50000)} {
			fakes.RunStoreLarge(k, "mem", fcroffermgr.NewFCROfferMgr(), rules, k.Sub("large", m), m)
		}
		k.Floor("lookups among very many offers", 28)
		n := k.N(60, 1500)
		k.Parallel("history", 8, func(w int) {
			for i := w; i < n && k.Violations() == 0; i += 8 {
				fakes.RunStoreHistory(k, "mem", fcroffermgr.NewFCROfferMgr(), rules, k.Sub("hist", i), 400, nil)
			}
		})
		k.Floor("expired_refused", 50)
		k.Floor("wrong_count_refused", 50)
		k.Floor("lookups_with_offers", 1000)
		k.Floor("expired_offers_hidden", 20)
		k.Floor("range_lookups_limited", 20)
	})
}
