package protop

import (
	"bytes"
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/arun"
	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/cv"
	"verif.local/harness/internal/pbt"
)

// ---- C19

type keyCase struct {
	arun.Base
	G int
	X pbt.Int // logarithm of the point that is raised to the secret key
}

func runKeys(t *pbt.T, c keyCase) {
	t.NonTrivial()
	t.Label("n=%d", c.N)
	keys := make([][]*arith.DKey, c.N)
	ends := make([][]int, c.N)
	raised := make([][]curve.Point, c.N)
	cfg := c.Config()
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		for i := 0; i < c.G; i++ {
			k, err := arith.GenExpReveal(uint16(p.Pid), label(i), s, uint16(c.N), g)
			if err != nil {
				return err
			}
			if k.Label() != label(i) {
				t.Failf("label %q instead of %q", k.Label(), label(i))
			}
			keys[p.Pid] = append(keys[p.Pid], k)
			ends[p.Pid] = append(ends[p.Pid], len(p.Rounds))
		}
		// each party holds the logarithm of its share: together they raise a point to the secret key
		for i := 0; i < c.G; i++ {
			u := cv.Mul(c.X.Int)
			if err := arith.CheckDH(u, arun.Mul(keys[p.Pid][i].PublicKey(), c.X.Int), g, keys[p.Pid][i]); err != nil {
				return fmt.Errorf("the parties do not know the secret key of key %d: %v", i, err)
			}
			raised[p.Pid] = append(raised[p.Pid], keys[p.Pid][i].PublicKey())
		}
		return nil
	})
	ok(t, cl, hang)
	seen := map[string]string{}
	fresh := func(what string, p curve.Point) {
		k := string(cv.Enc(t, p))
		t.Check(seen[k] == "", "%s is the same as %s", what, seen[k])
		seen[k] = what
	}
	for i := 0; i < c.G; i++ {
		first := keys[0][i].PublicKey()
		var shares []curve.Point
		for _, p := range cl.Parties {
			pk := keys[p.Pid][i].PublicKey()
			t.Check(arun.Eq(pk, first), "key %d: parties 0 and %d have different public keys", i, p.Pid)
			if c.N > 1 {
				m := same(t, p, ends[p.Pid][i]-1)
				sh, _, err := arun.ReadPoint(m)
				t.Check(err == nil, "party %d does not reveal a group element: %x", p.Pid, m)
				shares = append(shares, sh)
				if c.SpecialLen(p.Pid) <= i {
					fresh(fmt.Sprintf("the share of party %d in key %d", p.Pid, i), sh)
				} else {
					t.Label("special shares")
				}
			}
		}
		t.Check(c.N == 1 || arun.Eq(first, arun.Sum(shares)), "key %d: the public key is not the product of the revealed shares", i)
		// a key put together from the same shares is the same key
		if c.N > 1 {
			k := arith.NewDKey(arith.NewDSecret(0, "other", big.NewInt(1), nil), shares, g)
			t.Check(arun.Eq(k.PublicKey(), first), "NewDKey computes another public key from the shares of key %d", i)
			t.Check(k.Label() == "other", "label %q instead of other", k.Label())
		}
	}
	cfg.Seed++
	cl2, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		_, err := arith.GenExpReveal(uint16(p.Pid), "x", s, uint16(c.N), g)
		return err
	})
	ok(t, cl2, hang)
	for _, p := range cl2.Parties {
		if c.SpecialLen(p.Pid) == 0 && c.N > 1 {
			sh, _, err := arun.ReadPoint(same(t, p, len(p.Rounds)-1))
			t.Check(err == nil, "party %d does not reveal a group element", p.Pid)
			fresh(fmt.Sprintf("the share of party %d in another run", p.Pid), sh)
		}
	}
}

// ---- altered messages

type keyTamper struct {
	arun.Base
	From    int
	Victims []bool
	What    string // commit, reveal, both
	Alter   alter
	Other   string // whose messages replace them: another party's, the victim's own, or those of an earlier key generation
}

func runKeyTamper(t *pbt.T, c keyTamper) {
	cfg := c.Config()
	// the first key is generated without interference, the second is not
	phase := make([]int, c.N)
	start := make([]int, c.N)
	altered, harmless := make([]bool, c.N), make([]bool, c.N)
	cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
		if phase[me.Pid] != 1 || from != c.From || !isVictim(c.Victims, c.From, me.Pid) {
			return nil
		}
		k := round - start[me.Pid]
		if (c.What == "commit" && k != 0) || (c.What == "reveal" && k != 1) {
			return nil
		}
		var m []byte
		switch c.Alter.How {
		case "other":
			m = me.Cluster().SentOf((c.From+1)%c.N, me.Pid, round)
			if (c.From+1)%c.N == me.Pid && c.N > 2 {
				m = me.Cluster().SentOf((c.From+2)%c.N, me.Pid, round)
			}
		case "own":
			m = me.Cluster().SentOf(me.Pid, c.From, round)
		case "earlier":
			m = me.Cluster().SentOf(c.From, me.Pid, k)
		case "commitment":
			m = me.Cluster().SentOf(c.From, me.Pid, start[me.Pid])
		default:
			m = c.Alter.apply(data)
		}
		if m == nil || bytes.Equal(m, data) {
			return nil
		}
		altered[me.Pid] = true
		if k == 0 && trailing(data, m) {
			harmless[me.Pid] = true
		}
		return m
	}
	made := make([]*arith.DKey, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		if _, err := arith.GenExpReveal(uint16(p.Pid), "first", s, uint16(c.N), g); err != nil {
			return err
		}
		start[p.Pid] = len(p.Rounds)
		phase[p.Pid] = 1
		k, err := arith.GenExpReveal(uint16(p.Pid), "x", s, uint16(c.N), g)
		if err != nil {
			t.Check(k == nil, "an error and a key")
			return err
		}
		made[p.Pid] = k
		return nil
	})
	cl.Judge(t, hang)
	t.Label("%s %s", c.What, c.Alter.How)
	any := false
	for _, p := range cl.Parties {
		t.Check(phase[p.Pid] == 1, "party %d fails before any interference: %v", p.Pid, p.Err)
		any = any || altered[p.Pid]
		if altered[p.Pid] {
			t.NonTrivial()
			if c.What != "both" && !harmless[p.Pid] {
				t.Check(made[p.Pid] == nil, "party %d makes a key although the %s of party %d was altered (%s)", p.Pid, c.What, c.From, c.Alter.How)
			}
		}
		if made[p.Pid] == nil {
			continue
		}
		// a key is the product of the shares that were revealed to this party
		got := took(p, len(p.Rounds)-1)
		own, _, err := arun.ReadPoint(p.Rounds[len(p.Rounds)-1].To((p.Pid + 1) % c.N))
		t.Check(err == nil && len(got) == c.N-1, "party %d makes a key from %d revealed shares of %d", p.Pid, len(got)+1, c.N)
		sum := own
		for _, q := range sorted(got) {
			sh, _, err := arun.ReadPoint(got[q])
			t.Check(err == nil, "party %d takes %x for a share", p.Pid, got[q])
			sum = g.Add(sum, sh)
		}
		t.Check(arun.Eq(sum, made[p.Pid].PublicKey()), "the public key of party %d is not the product of the shares revealed to it", p.Pid)
	}
	if !any {
		for _, p := range cl.Parties {
			t.Check(made[p.Pid] != nil, "party %d fails although all parties are honest: %v", p.Pid, p.Err)
		}
	}
}

// ---- missing parties

type missCase struct {
	arun.Base
	Who    int
	Round  int
	Refuse bool // the message comes, but is not readable
	Key    bool
}

func runMissing(t *pbt.T, c missCase) {
	rounds := 1
	if c.Key {
		rounds = 2
	}
	cfg := c.Config()
	if c.Refuse {
		cfg.OnRecv = func(me *cluster.Party, round, from int, data []byte) []byte {
			if from == c.Who && round == c.Round%rounds {
				return []byte{}
			}
			return nil
		}
	} else {
		cfg.CrashAt = map[int]int{c.Who: c.Round % rounds}
	}
	made := make([]bool, c.N)
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) (err error) {
		if c.Key {
			var k *arith.DKey
			k, err = arith.GenExpReveal(uint16(p.Pid), "x", s, uint16(c.N), g)
			made[p.Pid] = k != nil || err == nil
		} else {
			var a *arith.ADSecret
			a, err = arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
			made[p.Pid] = a != nil || err == nil
		}
		return err
	})
	cl.Judge(t, hang)
	t.NonTrivial()
	for pid, m := range made {
		t.Check(!m || pid == c.Who, "party %d completes although party %d takes no part in round %d", pid, c.Who, c.Round%rounds)
	}
}

// ---- every bit of randomness matters

type bitsCase struct {
	arun.Base
	Who int
	Key bool
}

// runBits flips single bits of the randomness that a party draws; a value that is uniform over the
// scalars depends on 256 of them, give or take.
func runBits(t *pbt.T, c bitsCase) {
	t.NonTrivial()
	var drawn []byte
	once := func(prefix []byte) []string {
		cfg := c.Config()
		if prefix != nil {
			cfg.Prefix[c.Who] = prefix
		}
		cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) (err error) {
			if c.Key {
				_, err = arith.GenExpReveal(uint16(p.Pid), "x", s, uint16(c.N), g)
			} else {
				_, err = arith.Gen("x", s, c.Egf(), uint16(p.Pid), uint16(c.N))
			}
			return err
		})
		ok(t, cl, hang)
		p := cl.Parties[c.Who]
		if prefix == nil {
			for _, b := range p.Stream.Reads {
				drawn = append(drawn, b...)
			}
		}
		if c.Key {
			sh, _, err := arun.ReadPoint(same(t, p, len(p.Rounds)-1))
			t.Check(err == nil, "party %d does not reveal a group element", p.Pid)
			return []string{string(cv.Enc(t, sh))}
		}
		com := published(t, p, 0)
		return []string{string(cv.Enc(t, c.Open(com))), string(cv.Enc(t, com.A))}
	}
	base := once(nil)
	if len(drawn) > 160 {
		t.Label("too much randomness: skipped")
		return
	}
	count := make([]int, len(base))
	for i := 0; i < 8*len(drawn); i++ {
		b := append([]byte{}, drawn...)
		b[i/8] ^= 1 << (i % 8)
		for j, x := range once(b) {
			if x != base[j] {
				count[j]++
			}
		}
	}
	for j, n := range count {
		t.Check(n >= 250, "value %d depends on only %d bits of the randomness drawn", j, n)
	}
}

func init() {
	pbt.Facet("C19", "keys", "1 to 3 keys of 1 to 8 parties, some with special shares: one public key, the product of the revealed shares, whose logarithm the parties know (they raise a point to it), nothing repeats; non-trivial: always",
		1500, 60000,
		func(rt *rapid.T) keyCase {
			return keyCase{Base: arun.GenBase(rt, 1, 8, 3), G: rapid.IntRange(1, 3).Draw(rt, "g"), X: pbt.NonZero(rt, "x")}
		}, runKeys,
		keyCase{Base: arun.Base{N: 20, D: pbt.Int{Int: big.NewInt(3)}}, G: 1, X: pbt.Int{Int: big.NewInt(7)}},
		keyCase{Base: arun.Base{N: 258, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, G: 1, X: pbt.Int{Int: big.NewInt(7)}})
	pbt.Facet("C19", "altered", "what one party commits to, or reveals, or both, reaches some parties altered or replaced (also by a commitment and value of another party or of an earlier key); non-trivial: the message really changed",
		3000, 200000,
		func(rt *rapid.T) keyTamper {
			c := keyTamper{Base: arun.GenBase(rt, 2, 5, 2)}
			c.From = rapid.IntRange(0, c.N-1).Draw(rt, "from")
			c.Victims = victims(rt, c.N)
			c.What = rapid.SampledFrom([]string{"commit", "reveal", "reveal", "both"}).Draw(rt, "what")
			if c.What == "both" {
				c.Alter = genAlter(rt, "other", "own", "earlier", "flip", "cut")
			} else {
				c.Alter = genAlter(rt, append([]string{"other", "own", "earlier", "commitment"}, bytewise...)...)
			}
			return c
		}, runKeyTamper)
	miss := func(key bool) func(rt *rapid.T) missCase {
		return func(rt *rapid.T) missCase {
			c := missCase{Base: arun.GenBase(rt, 2, 6, 0), Key: key, Round: rapid.IntRange(0, 1).Draw(rt, "round"), Refuse: rapid.Bool().Draw(rt, "refuse")}
			c.Who = rapid.IntRange(0, c.N-1).Draw(rt, "who")
			return c
		}
	}
	pbt.Facet("C18", "missing", "one party crashes, or its message arrives empty: no other party holds a secret; non-trivial: always",
		800, 30000, miss(false), runMissing,
		missCase{Base: arun.Base{N: 258, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, Who: 257})
	pbt.Facet("C19", "missing", "one party crashes in one of the rounds, or its message arrives empty: no other party makes a key; non-trivial: always",
		800, 30000, miss(true), runMissing,
		missCase{Base: arun.Base{N: 258, D: pbt.Int{Int: big.NewInt(3)}, Par: true}, Who: 257, Key: true, Round: 1})
	pbt.Facet("C19", "bits", "single bits of the randomness of a party are flipped: at least 250 of them must change its share; non-trivial: always",
		16, 300,
		func(rt *rapid.T) bitsCase {
			return bitsCase{arun.Base{N: 2, Seed: rapid.Uint64().Draw(rt, "seed"), D: pbt.NonZero(rt, "d")}, rapid.IntRange(0, 1).Draw(rt, "who"), true}
		}, runBits)
	pbt.Facet("C18", "bits", "single bits of the randomness of a party are flipped: at least 250 of them must change its share, and as many the randomness of its commitment; non-trivial: always",
		16, 300,
		func(rt *rapid.T) bitsCase {
			return bitsCase{arun.Base{N: 2, Seed: rapid.Uint64().Draw(rt, "seed"), D: pbt.NonZero(rt, "d")}, rapid.IntRange(0, 1).Draw(rt, "who"), false}
		}, runBits)
}
