package protop

import (
	"bytes"
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/pbt"
)

// ---- C41: randomness that is missing is never made up

type sourceCase struct {
	arun.Base
	Pk     pkCase
	Kind   string
	T      int
	Who    int
	Part   int   // how much of the randomness of the operation there is, in 1/1000
	Once   bool  // whether the source works again after one failure
	Pieces []int // sizes of the pieces the source hands out
}

var sourceKinds = []string{"generate", "key", "reshare", "multiply", "convert", "check", "init", "presign"}

// sourceRun is what one run showed of the party of the case.
type sourceRun struct {
	before, after int // bytes drawn by then
	made          bool
	op            int // the first round of the operation
	sent          [][][]byte
}

func (c sourceCase) run(t *pbt.T, limit int, pieces []int) (r sourceRun) {
	ks, pubs := c.Pk.keys()
	cfg := c.Config()
	var who *cluster.Party
	cfg.Tune = func(p *cluster.Party) {
		if p.Pid == c.Who {
			who = p
			p.Stream.Limit = limit
			p.Stream.Pieces = pieces
			p.Stream.Once = c.Once
		}
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) (err error) {
		pid, n, th := uint16(p.Pid), uint16(c.N), uint16(c.T)
		var a, b *arith.ADSecret
		var key *arith.DKey
		var pr *tecdsa.Protocol
		switch c.Kind {
		case "reshare", "multiply":
			if a, err = arith.Gen("a", s, c.Egf(), pid, n); err == nil && c.Kind == "multiply" {
				b, err = arith.Gen("b", s, c.Egf(), pid, n)
			}
		case "check":
			key, err = arith.GenExpReveal(pid, "key", s, n, g)
		case "presign":
			pr, err = tecdsa.Init(pid, n, s)
		}
		if err != nil {
			return err
		}
		if p.Pid == c.Who {
			r.before, r.op = p.Stream.Count, len(p.Rounds)
			defer func() {
				if limit > 0 {
					// giving up is as good as an error
					if e := recover(); e != nil {
						err = fmt.Errorf("panic: %v", e)
					}
				}
				r.after, r.made = p.Stream.Count, err == nil
			}()
		}
		k := ks[p.Pid]
		switch c.Kind {
		case "generate":
			_, err = arith.Gen("x", s, c.Egf(), pid, n)
		case "key":
			_, err = arith.GenExpReveal(pid, "x", s, n, g)
		case "reshare":
			_, err = a.Reshare(th)
		case "multiply":
			_, err = arith.Mult(a, b, "c", k.priv, k.pub, pubs())
		case "convert":
			_, err = arith.PrivMult(big.NewInt(int64(p.Pid)+5), big.NewInt(int64(p.Pid)+9), p.Pid, c.N, s, k.priv, k.pub, pubs())
		case "check":
			u := arun.Mul(g.Gen(), big.NewInt(12345))
			err = arith.CheckDH(u, arun.Mul(key.PublicKey(), big.NewInt(12345)), g, key)
		case "init":
			_, err = tecdsa.Init(pid, n, s)
		case "presign":
			err = pr.Presign(th)
		}
		return err
	})
	cl.Judge(t, hang)
	if limit == 0 {
		ok(t, cl, hang)
	}
	for _, ev := range who.Rounds {
		r.sent = append(r.sent, ev.Sent)
	}
	return r
}

// equal tells whether the messages were the same as far as both runs went.
func (r sourceRun) equal(o sourceRun) bool {
	for k := 0; k < len(r.sent) && k < len(o.sent); k++ {
		if len(r.sent[k]) != len(o.sent[k]) {
			return false
		}
		for i := range r.sent[k] {
			if !bytes.Equal(r.sent[k][i], o.sent[k][i]) {
				return false
			}
		}
	}
	return true
}

func runSourceDry(t *pbt.T, c sourceCase) {
	t.Label("%s", c.Kind)
	ref := c.run(t, 0, nil)
	used := ref.after - ref.before
	t.Check(used >= 32, "an operation (%s) of a party draws only %d bytes of randomness", c.Kind, used)
	k := 1 + (used-2)*c.Part/1000
	t.NonTrivial()
	if c.Once {
		t.Label("one failure")
	}
	dry := c.run(t, ref.before+k, nil)
	t.Check(!dry.made, "party %d ends the operation (%s) although its source of randomness fails after at most %d of the %d bytes that it takes (works again afterwards: %v)", c.Who, c.Kind, k, used, c.Once)
}

func runSourcePieces(t *pbt.T, c sourceCase) {
	t.Label("%s", c.Kind)
	small := false
	for _, k := range c.Pieces {
		small = small || k > 0 && k < 32
	}
	if small {
		t.NonTrivial()
	}
	differ := func() bool {
		a, b := c.run(t, 0, nil), c.run(t, 0, c.Pieces)
		return !a.equal(b)
	}
	// where the order of draws depends on the schedule, runs differ that have the same source
	if !differ() {
		return
	}
	a := c.run(t, 0, nil)
	b := c.run(t, 0, c.Pieces)
	for i := 0; i < 3; i++ {
		if !a.equal(c.run(t, 0, nil)) || !b.equal(c.run(t, 0, c.Pieces)) {
			t.Label("runs differ anyhow: skipped")
			return
		}
	}
	t.Check(a.equal(b), "party %d sends other messages (%s) if its source of randomness hands out the same bytes in pieces of %v", c.Who, c.Kind, c.Pieces)
}

func init() {
	gen := func(rt *rapid.T) sourceCase {
		c := sourceCase{Base: arun.GenBase(rt, 2, 3, 0), Kind: rapid.SampledFrom(sourceKinds).Draw(rt, "kind")}
		c.Pk = genPk(rt, c.N)
		c.T = rapid.IntRange(1, c.N).Draw(rt, "t")
		c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
		return c
	}
	pbt.Facet("C41", "dry", "generation, key generation, resharing, multiplication, conversion, check, set-up or preparation of 2 to 3 parties, the source of randomness of one of which fails, once or for good, before the last byte of what the operation draws; it does not complete there; non-trivial: always",
		2500, 60000,
		func(rt *rapid.T) sourceCase {
			c := gen(rt)
			c.Part = rapid.IntRange(0, 1000).Draw(rt, "part")
			c.Once = rapid.Bool().Draw(rt, "once")
			return c
		}, runSourceDry)
	pbt.Facet("C41", "pieces", "the same operations with a source that hands out the same bytes in generated pieces: the party sends the same messages; non-trivial: pieces of less than a scalar",
		600, 20000,
		func(rt *rapid.T) sourceCase {
			c := gen(rt)
			c.Pieces = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 7, 16, 31, 32, 33, 64, 0}), 1, 5).Draw(rt, "pieces")
			return c
		}, runSourcePieces)
}
