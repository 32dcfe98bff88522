//go:build go1.22

// C26: nothing drawn from the shared random sources repeats, however many goroutines draw, reseed and kick them.
package main

import (
	"encoding/hex"
	"fmt"
	"io"
	"sync"

	"github.com/ConsenSys/fc-retrieval/common/pkg/challenge"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	kit "github.com/ConsenSys/fc-retrieval/common/pkg/verifkit"
)

func main() {
	kit.Main("C26", func(k *kit.K) {
		logging.Init1("disabled", "STDOUT", "verif")
		var mu sync.Mutex
		seen := map[string]string{}
		note := func(what, v string) {
			mu.Lock()
			defer mu.Unlock()
			if w, dup := seen[v]; dup {
				k.Violate("repeat:"+what, v, "%s drawn as %s had been drawn before as %s", v, what, w)
			}
			seen[v] = what
			k.Count("values drawn", 1)
			k.Eval(v)
		}
		chunk := func(what string, b []byte) {
			for len(b) >= 16 {
				note(what, hex.EncodeToString(b[:16]))
				b = b[16:]
			}
		}
		for round := 0; round < k.N(8, 120); round++ {
			private := fcrcrypto.NewPrivatePRNG([]byte(fmt.Sprint("domain ", round)))
			twin := fcrcrypto.NewPrivatePRNG([]byte(fmt.Sprint("domain ", round))) // same domain: must not be the same stream
			k.Parallel("draw", 12, func(i int) {
				r := k.Sub("g", round*100+i)
				for n := 0; n < 25; n++ {
					switch (i + n) % 12 {
					case 0:
						note("CID", cid.NewRandomContentID().ToString()[:32])
					case 1:
						note("node ID", nodeid.NewRandomNodeID().ToString()[:32])
					case 2:
						kp, err := fcrcrypto.GenerateRetrievalV1KeyPair()
						if err != nil {
							k.Violate("key", nil, "%v", err)
							continue
						}
						note("private key", kp.EncodePrivateKey()[2:34])
					case 3:
						b := make([]byte, []int{16, 32, 48, 64, 1000}[r.Intn(5)])
						fcrcrypto.GeneratePublicRandomBytes(b)
						chunk("public bytes", b)
					case 4:
						b := make([]byte, []int{16, 32, 33, 63, 64, 65}[r.Intn(6)])
						fcrcrypto.GeneratePrivateRandomBytes(b)
						chunk("private bytes", b)
					case 5:
						b := make([]byte, 64)
						private.ReadBytes(b)
						chunk("own generator", b)
					case 6:
						b := make([]byte, 64)
						twin.ReadBytes(b)
						chunk("own generator, same domain", b)
					case 7:
						fcrcrypto.PRNGEntropyKick()
						k.Count("reseeds", 1)
					case 8:
						private.Reseed([]byte("the same seed every time"))
						twin.Reseed([]byte("the same seed every time"))
						fcrcrypto.GetPublicPRNG().Reseed([]byte("the same seed every time"))
						k.Count("reseeds", 3)
					case 9:
						b := make([]byte, 32)
						if m, err := io.ReadFull(fcrcrypto.GetPrivatePRNG().GetReader(), b); err != nil || m != 32 {
							k.Violate("reader", nil, "reader gave %d bytes, %v", m, err)
						}
						chunk("reader", b)
					case 10:
						note("challenge", challenge.NewRandomChallenge()[:32])
					case 11:
						fcrcrypto.NewPrivatePRNG([]byte("extra")).QuickReseedKick()
						k.Count("reseeds", 1)
					}
				}
			})
		}
		// every byte of the buffer is filled, whatever its length
		var lens []int
		for n := 0; n <= 200; n++ {
			lens = append(lens, n)
		}
		for _, n := range []int{255, 1000, 4095, 4097, 10000, 65537, 100003} {
			lens = append(lens, n, n+k.Sub("len", n).Intn(2000))
		}
		for _, n := range lens {
			b := make([]byte, n)
			zero := make([]bool, n)
			for i := range zero {
				zero[i] = true
			}
			for t := 0; t < 12; t++ {
				if t%2 == 0 {
					fcrcrypto.GeneratePublicRandomBytes(b)
				} else {
					fcrcrypto.GetPrivatePRNG().ReadBytes(b)
				}
				for i := range b {
					if b[i] != 0 {
						zero[i] = false
					}
					b[i] = 0
				}
			}
			for i := range zero {
				if zero[i] {
					k.Violate("unfilled", n, "byte %d of a %d byte buffer was never filled", i, n)
				}
			}
		}
		// length independence: a stream must not stutter at block borders
		for n := 0; n < k.N(50, 500); n++ {
			b := make([]byte, []int{320, 320, 5000, 20000}[n%4])
			fcrcrypto.GetPrivatePRNG().ReadBytes(b)
			chunk("long read", b)
		}
		k.Sample("run", fmt.Sprintf("%d values, all distinct", len(seen)))
		k.Floor("values drawn", 2000)
		k.Floor("reseeds", 100)
	})
}
