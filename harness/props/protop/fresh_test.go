package protop

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C40: what is published once is never published again

type freshOp struct {
	Kind string
	X, Y int // which of the secrets; they are the same for many operations
	T    int // at least 2
}

type freshCase struct {
	arun.Base
	Pk  pkCase
	Ops []freshOp
	Msg pbt.Int
}

var freshKinds = []string{"generate", "reshare", "reshare", "raise", "reveal", "combine", "multiply", "multiply", "key", "check", "check", "presign", "presign", "sign"}

// span is the rounds of one operation of one party.
type span struct{ from, to int }

// where tells where a part of a message was seen.
type where struct{ op, pid, round, to, at int }

const (
	freshWindow = 20
	freshStride = 8
)

// dull tells whether bytes have no information to speak of, as lengths and padding.
func dull(b []byte) bool {
	var seen [256]bool
	n := 0
	for _, x := range b {
		if !seen[x] {
			seen[x] = true
			n++
		}
	}
	return n < 8
}

func runFresh(t *pbt.T, c freshCase) {
	t.NonTrivial()
	ks, pubs := c.Pk.keys()
	spans := make([][]span, c.N)
	u := cv.Mul(big.NewInt(int64(c.Seed%1000 + 2)))
	cl, hang := cluster.Run(c.Config(), func(p *cluster.Party, s sync.Server) error {
		pid, n := uint16(p.Pid), uint16(c.N)
		begin := 0
		done := func() {
			spans[p.Pid] = append(spans[p.Pid], span{begin, len(p.Rounds)})
			begin = len(p.Rounds)
		}
		// what operations work with is made before all of them
		var secrets []*arith.ADSecret
		for i := 0; i < 2; i++ {
			x, err := arith.Gen(label(i), s, c.Egf(), pid, n)
			if err != nil {
				return err
			}
			secrets = append(secrets, x)
		}
		done()
		pr, err := tecdsa.Init(pid, n, s)
		if err != nil {
			return err
		}
		done()
		key, err := arith.GenExpReveal(pid, "key", s, n, g)
		if err != nil {
			return err
		}
		done()
		v := arun.Mul(key.PublicKey(), big.NewInt(int64(c.Seed%1000+2)))
		presigs := 0
		for i, o := range c.Ops {
			x, y := secrets[o.X%len(secrets)], secrets[o.Y%len(secrets)]
			th := uint16(o.T)
			var err error
			switch o.Kind {
			case "generate":
				if x, err = arith.Gen(fmt.Sprint("new", i), s, c.Egf(), pid, n); err == nil {
					secrets = append(secrets, x)
				}
			case "reshare":
				_, err = x.Reshare(th)
			case "raise", "reveal":
				var ts *arith.TDSecret
				if ts, err = x.Reshare(th); err == nil {
					if o.Kind == "raise" {
						_, err = ts.Exp()
					} else {
						_, err = ts.Reveal()
					}
				}
			case "combine":
				var a, b *arith.TDSecret
				if a, err = x.Reshare(th); err == nil {
					b, err = y.Reshare(th)
				}
				if err == nil {
					_, err = arith.Lin(c.Msg.Copy(), big.NewInt(3), a, b, "sum").Reveal()
				}
			case "multiply":
				k := ks[p.Pid]
				var z *arith.ADSecret
				if z, err = arith.Mult(x, y, fmt.Sprint("new", i), k.priv, k.pub, pubs()); err == nil && i%2 == 0 {
					secrets = append(secrets, z)
				}
			case "key":
				_, err = arith.GenExpReveal(pid, "key", s, n, g)
			case "check":
				err = arith.CheckDH(u, v, g, key)
			case "presign":
				if err = pr.Presign(th); err == nil {
					presigs++
				}
			case "sign":
				if presigs == 0 {
					if err = pr.Presign(th); err == nil {
						presigs++
					}
				}
				if err == nil {
					presigs--
					_, err = pr.Sign(c.Msg.Copy())
				}
			}
			if err != nil {
				return fmt.Errorf("operation %d (%s): %v", i, o.Kind, err)
			}
			done()
		}
		return nil
	})
	ok(t, cl, hang)
	name := func(op int) string {
		if op < 3 {
			return "the set-up"
		}
		return fmt.Sprintf("operation %d (%s)", op-3, c.Ops[op-3].Kind)
	}
	for _, o := range c.Ops {
		t.Label("%s", o.Kind)
	}
	seen := map[string]where{} // parts of messages of earlier operations
	for op := 0; op < len(c.Ops)+3; op++ {
		now := map[string]where{} // parts of messages of this operation, by other parties
		for pid, p := range cl.Parties {
			mine := map[string]where{}
			sp := spans[pid][op]
			for r := sp.from; r < sp.to; r++ {
				ev := p.Rounds[r]
				round := map[string]where{} // of earlier messages in this round
				for to := range ev.Sent {
					if to == pid && len(ev.Sent) > 1 {
						continue
					}
					m := ev.Sent[to]
					own := map[string]where{}
					for i := 0; i+freshWindow <= len(m); i++ {
						w := string(m[i : i+freshWindow])
						if dull(m[i : i+freshWindow]) {
							continue
						}
						here := fmt.Sprintf("at %d of the message of party %d to %s in round %d of %s", i, pid, receiver(ev, to), r-sp.from, name(op))
						if o, ok := seen[w]; ok {
							t.Failf("the bytes %s were already sent by party %d in round %d of %s", here, o.pid, o.round, name(o.op))
						}
						if o, ok := now[w]; ok {
							t.Failf("the bytes %s were also sent by party %d in round %d", here, o.pid, o.round)
						}
						if _, ok := round[w]; ok {
							t.Failf("the bytes %s were also sent to another party", here)
						}
						if o, ok := own[w]; ok && i >= o.at+freshWindow {
							t.Failf("the bytes %s are also at %d of it", here, o.at)
						}
						if i%freshStride == 0 {
							own[w] = where{op, pid, r - sp.from, to, i}
						}
					}
					for w, o := range own {
						round[w] = o
					}
				}
				for w, o := range round {
					mine[w] = o
				}
			}
			for w, o := range mine {
				now[w] = o
			}
		}
		for w, o := range now {
			seen[w] = o
		}
	}
	if len(seen) < 20*c.N {
		t.Failf("the parties send next to nothing")
	}
}

func receiver(ev *cluster.Event, to int) string {
	if len(ev.Sent) == 1 {
		return "all"
	}
	return fmt.Sprintf("party %d", to)
}

func init() {
	pbt.Facet("C40", "repeat", "programs of 2 to 8 operations of 2 to 5 parties on few secrets and one key, thresholds above 1, the same operation on the same operands many times: no 28 bytes of a message appear in a message of another operation or of another party, twice in a message, or in messages to two parties; non-trivial: always",
		400, 16000,
		func(rt *rapid.T) freshCase {
			c := freshCase{Base: arun.GenBase(rt, 2, 5, 0), Msg: pbt.NonZero(rt, "message")}
			// the components of a commitment differ
			c.D = pbt.Int{Int: new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 200), new(big.Int).SetUint64(rapid.Uint64().Draw(rt, "base")))}
			c.Pk = genPk(rt, c.N)
			kinds := freshKinds
			if rapid.Bool().Draw(rt, "one kind") {
				kinds = []string{rapid.SampledFrom(freshKinds).Draw(rt, "kind")}
			}
			for i := rapid.IntRange(2, 8-c.N).Draw(rt, "ops"); i > 0; i-- {
				c.Ops = append(c.Ops, freshOp{Kind: rapid.SampledFrom(kinds).Draw(rt, "op"), X: rapid.IntRange(0, 1).Draw(rt, "x"), Y: rapid.IntRange(0, 1).Draw(rt, "y"), T: rapid.IntRange(2, c.N).Draw(rt, "t")})
			}
			return c
		}, runFresh,
		freshCase{Base: arun.Base{N: 3, D: pbt.Int{Int: new(big.Int).Lsh(big.NewInt(5), 190)}}, Pk: pkCase{Seeds: []uint64{1, 2, 3}, Bits: []int{514, 560, 640}}, Msg: pbt.Int{Int: big.NewInt(77)},
			Ops: []freshOp{{Kind: "check", T: 2}, {Kind: "check", T: 2}, {Kind: "multiply", Y: 1, T: 2}, {Kind: "multiply", Y: 1, T: 2}, {Kind: "sign", T: 2}, {Kind: "sign", T: 2}, {Kind: "reshare", T: 2}, {Kind: "reshare", T: 2}}})
}
