//go:build go1.22

// C09: the persistent offer store of gateways against a set of offers, across reopening and killed writers.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/database"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
	"github.com/ConsenSys/fc-retrieval/common/pkg/verifkit/fakes"
)

var rules = fakes.StoreRules{}

func fds() int {
	l, err := os.ReadDir("/proc/self/fd")
	fakes.Must(err)
	return len(l)
}

func db() *offermgr.FCROfferMgr { return offermgr.NewFCROfferMgr() }

// empty clears the store between histories: its file belongs to the process.
func empty() {
	d, err := database.NewDatabase()
	fakes.Must(err)
	defer d.DB.Close()
	for _, t := range []string{"offer", "content"} {
		_, err = d.DB.Exec("delete from " + t)
		fakes.Must(err)
	}
}

// writer is the child: adds the offers it reads from stdin one by one and confirms each.
func writer() {
	s := db()
	in := bufio.NewReader(os.Stdin)
	fmt.Println("ready")
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		var o cidoffer.CIDOffer
		fakes.Must(json.Unmarshal([]byte(line), &o))
		if len(o.GetCIDs()) > 1 {
			err = s.AddGroupOffer(&o)
		} else {
			err = s.AddDHTOffer(&o)
		}
		fmt.Println("done", err == nil)
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "writer" {
		writer()
		return
	}
	kit.Main("C09", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		switch k.Args["mode"] {
		case "concurrent":
			n := k.N(2, 40)
			for i := 0; i < n && k.Violations() == 0; i++ {
				i := i
				k.Guard("concurrent", i, 200*time.Second, func() {
					s := db()
					empty()
					fakes.RunStoreConcurrent(k, "sql", s, fakes.StoreRules{MayRefuse: true}, k.Sub("conc", i), 4, 20)
				})
			}
			for i := 0; i < k.N(1, 12) && k.Violations() == 0; i++ {
				i := i
				k.Guard("wave", i, 300*time.Second, func() {
					s := db()
					empty()
					fakes.RunStoreExpiry(k, "sql", s, fakes.StoreRules{MayRefuse: true}, k.Sub("wave", i), 12)
				})
			}
			k.Floor("concurrent_additions", int64(n*30))
			k.Floor("concurrent_reads", 50)
		case "crash":
			crash(k)
		default:
			s := db()
			n := k.N(6, 150)
			for i := 0; i < n && k.Violations() == 0; i++ {
				i := i
				if i == 1 {
					k.Count("open_files_before", fds())
				}
				empty()
				k.Guard("history", i, 150*time.Second, func() {
					var reopen func() fakes.OfferStore
					if i%2 == 1 {
						reopen = func() fakes.OfferStore { return db() }
					}
					fakes.RunStoreHistory(k, "sql", s, rules, k.Sub("hist", i), 300, reopen)
				})
			}
			leak(k)
			k.Guard("large", 0, 300*time.Second, func() {
				empty()
				fakes.RunStoreLarge(k, "sql", s, rules, k.Sub("large", 0), k.N(1100, 6000))
			})
			k.Floor("lookups among very many offers", 14)
			k.Floor("lookups_with_offers", 100)
			k.Floor("expired_offers_hidden", 10)
			k.Floor("range_lookups_limited", 5)
			k.Floor("reopened", 10)
		}
	})
}

// leak: lookups give back what they use; else a gateway stops answering after a while.
func leak(k *kit.K) {
	if k.Violations() > 0 {
		return
	}
	s := db()
	r := k.Sub("leak", 0)
	p := fakes.NewStorePool(r, 3)
	var ds [][cidoffer.CIDOfferDigestSize]byte
	for i := 0; i < 6; i++ {
		o := p.Offer(1+i%3, time.Now().Unix()+3600, false)
		fakes.Must(s.AddDHTOffer(o))
		ds = append(ds, o.GetMessageDigest())
	}
	before := fds()
	for i := 0; i < 100; i++ {
		s.GetOfferByDigest(ds[i%len(ds)])
		s.GetDHTOffersWithinRange(p.CIDs[0], p.CIDs[0], 1)
		s.GetOffers(p.CIDs[1])
		k.Count("lookups_watched_for_leaks", 3)
	}
	if d := fds() - before; d > 30 {
		k.Violate("sql:leak", nil, "300 lookups one after another left %d more files open", d)
	}
}

// crash kills the process that adds offers at random points and looks at what the next process finds.
func crash(k *kit.K) {
	exe, err := os.Executable()
	fakes.Must(err)
	rounds := k.N(40, 800)
	for i := 0; i < rounds && k.Violations() == 0; i++ {
		r := k.Sub("crash", i)
		dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("crash%d", i))
		fakes.Must(os.MkdirAll(dir, 0o755))
		p := fakes.NewStorePool(r, 40)
		cmd := exec.Command(exe, "writer")
		cmd.Dir = dir
		in, err := cmd.StdinPipe()
		fakes.Must(err)
		outp, err := cmd.StdoutPipe()
		fakes.Must(err)
		fakes.Must(cmd.Start())
		out := bufio.NewReader(outp)
		if _, err := out.ReadString('\n'); err != nil {
			k.Inconclusive("the writer did not start: %v", err)
			return
		}
		var offers []*cidoffer.CIDOffer
		acked := map[string]bool{}
		target := 2 + r.Intn(4)
		part := r.Float64() * 1.1 // how far into the addition the kill falls, by the time the last one took
		var took time.Duration
		killed := false
		for j := 0; j <= target; j++ {
			o := p.Offer(1+r.Intn(38), time.Now().Unix()+3600, false)
			offers = append(offers, o)
			b, err := json.Marshal(o)
			fakes.Must(err)
			_, err = io.WriteString(in, string(b)+"\n")
			fakes.Must(err)
			t0 := time.Now()
			if j == target {
				for time.Since(t0) < time.Duration(float64(took)*part) {
				}
				cmd.Process.Signal(syscall.SIGKILL)
				killed = true
			}
			line, err := out.ReadString('\n')
			took = time.Since(t0)
			if err == nil && strings.HasPrefix(line, "done true") {
				acked[fakes.Canon(o)] = true
			}
		}
		cmd.Wait()
		k.Count("writers_killed", 1)
		if killed && !acked[fakes.Canon(offers[len(offers)-1])] {
			k.Count("killed_during_an_addition", 1)
		}
		check(k, dir, p, offers, acked)
		os.RemoveAll(dir)
	}
	k.Floor("writers_killed", int64(rounds))
	k.Floor("killed_during_an_addition", int64(rounds/10))
}

func check(k *kit.K, dir string, p *fakes.StorePool, offers []*cidoffer.CIDOffer, acked map[string]bool) {
	fakes.Must(os.Chdir(dir))
	s := db()
	defer os.Chdir(os.Getenv("VERIF_SCRATCH"))
	present := 0
	known := map[string]bool{}
	for _, o := range offers {
		known[fakes.Canon(o)] = true
	}
	for _, o := range offers {
		cn := fakes.Canon(o)
		g, ok := s.GetOfferByDigest(o.GetMessageDigest())
		if !ok && acked[cn] {
			k.Violate("crash:lost", cn, "an offer whose addition had been confirmed is gone after the process was killed")
		}
		if ok {
			present++
			if fakes.Canon(g) != cn {
				k.Violate("crash:torn", cn, "after a kill an offer comes back altered: %d CIDs instead of %d\n%s\n%s", len(g.GetCIDs()), len(o.GetCIDs()), fakes.Canon(g), cn)
			}
		}
		for _, c := range o.GetCIDs() {
			c := c
			l, _ := s.GetOffers(&c)
			hit := false
			for j := range l {
				lc := fakes.Canon(&l[j])
				if !known[lc] {
					k.Violate("crash:torn", lc, "after a kill a lookup returns an offer nobody added (%d CIDs)", len(l[j].GetCIDs()))
				}
				if lc == cn {
					hit = true
				}
			}
			if hit != ok {
				k.Violate("crash:partial", cn, "after a kill an offer is found by digest=%v but by one of its CIDs=%v", ok, hit)
			}
		}
		k.Eval(fmt.Sprintf("crash/%s/%v", cn, ok))
	}
	// adding again repairs nothing and breaks nothing
	last := offers[len(offers)-1]
	if err := s.AddGroupOffer(last); err != nil {
		k.Violate("crash:again", nil, "after a kill an offer cannot be added again: %v", err)
		return
	}
	g, ok := s.GetOfferByDigest(last.GetMessageDigest())
	if !ok || fakes.Canon(g) != fakes.Canon(last) {
		k.Violate("crash:again", nil, "an offer added again after a kill is not returned as it was added")
	}
	k.Count("offers_surviving_kills", present)
}
