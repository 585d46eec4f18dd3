package syncp

import (
	"bytes"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/pbt"
)

// ---- C36: the common start

// Start says when the parties are ready.
type Start struct {
	N      int
	Seed   uint64
	Links  Links
	Start  int    // milliseconds after the servers
	Wake   []int  // milliseconds after the start that a party begins, not 0
	Retry  []bool // a party that is late tries again instead of leaving
	Rounds []RoundC
}

func runStart(t *pbt.T, c Start) {
	late := make([]bool, c.N)
	nLate := 0
	for i := range late {
		if late[i] = at(c.Wake, i) > 0; late[i] {
			nLate++
		}
	}
	cfg := cluster.Config{N: c.N, NoBaton: true, Link: c.Links.of(c.N), Start: time.Duration(c.Start) * time.Millisecond}
	cfg.Wake = func(pid int) time.Duration {
		w := c.Start + at(c.Wake, pid)
		if w < 0 {
			w = 0
		}
		return time.Duration(w) * time.Millisecond
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		accept := func(uint16, []byte) error { return nil }
		for k, r := range c.Rounds {
			if err := s.Round(r.out(c.Seed, c.N, k, p.Pid), accept); err != nil {
				if late[p.Pid] && at(c.Retry, p.Pid) && k == 0 && len(c.Rounds) > 1 {
					continue
				}
				return err
			}
		}
		return nil
	})
	cl.Judge(t, hang)
	if nLate > 0 && nLate < c.N {
		t.NonTrivial()
	}
	for _, p := range cl.Parties {
		for to := range cl.Parties {
			if to == p.Pid {
				continue
			}
			when, sent := cl.Net.Pipe(p.Pid, to).FirstData()
			if sent {
				t.Check(!when.Before(cl.StartTime), "party %d sends data to party %d %v before the start", p.Pid, to, cl.StartTime.Sub(when))
			}
			if late[p.Pid] && (!at(c.Retry, p.Pid) || len(c.Rounds) == 1) {
				t.Check(!sent, "party %d is late by %d ms and still sends data to party %d", p.Pid, at(c.Wake, p.Pid), to)
			}
			if !late[p.Pid] {
				t.Check(sent && when.Sub(cl.StartTime) < time.Second, "party %d is in time and sends nothing to party %d at the start", p.Pid, to)
			}
		}
		t.Check(len(p.Rounds) > 0, "party %d: no round", p.Pid)
		first := p.Rounds[0]
		if late[p.Pid] {
			t.Label("late")
			t.Check(first.Err != nil, "party %d is late by %d ms, and its first round gives no error", p.Pid, at(c.Wake, p.Pid))
			t.Check(len(first.Handed) == 0, "party %d is late by %d ms, and its first round hands over data", p.Pid, at(c.Wake, p.Pid))
		} else {
			t.Check((first.Err == nil) == (nLate == 0), "party %d is in time, %d parties are late, and the first round gives %v", p.Pid, nLate, first.Err)
			for from := range cl.Parties {
				if from == p.Pid {
					continue
				}
				if late[from] {
					t.Check(len(first.From(from)) == 0, "party %d gets data of party %d, which is late, in the first round", p.Pid, from)
				} else {
					once(t, p, 0, from, c.Rounds[0].msg(c.Seed, c.N, 0, from, p.Pid))
				}
			}
			if nLate > 0 {
				var want []int
				for i, l := range late {
					if l {
						want = append(want, i)
					}
				}
				t.Check(first.IsRound && fmt.Sprint(first.Missing) == fmt.Sprint(want), "party %d reports %v instead of the late parties %v", p.Pid, first.Missing, want)
			} else {
				for k := range c.Rounds {
					delivered(t, p, k, func(from int) []byte { return c.Rounds[k].msg(c.Seed, c.N, k, from, p.Pid) })
				}
			}
		}
		for k, ev := range p.Rounds {
			for _, h := range ev.Handed {
				t.Check(bytes.Equal(h.Data, c.Rounds[k].msg(c.Seed, c.N, k, h.From, p.Pid)), "party %d, round %d: gets %s from party %d", p.Pid, k, short(h.Data), h.From)
			}
		}
	}
}

func init() {
	pbt.Facet("C36", "start", "1 to 7 parties that are ready at different times before or after the common start, late ones leaving or trying again; what is sent when, and who gets what in the first round; non-trivial: some parties in time and some late",
		40000, 1500000,
		func(rt *rapid.T) Start {
			c := Start{N: rapid.IntRange(1, 7).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), Links: genLinks(rt), Start: rapid.SampledFrom([]int{1000, 300, 60000, 7200000, 999}).Draw(rt, "start")}
			wake := rapid.SampledFrom([]int{-1, -2, -100, -700, -1000000})
			if rapid.IntRange(0, 3).Draw(rt, "late") > 0 {
				wake = rapid.SampledFrom([]int{-1, -100, -100, -700, -700, -1000000, 1, 2, 100, 1000, 5000, 3600000})
			}
			c.Wake = rapid.SliceOfN(wake, c.N, c.N).Draw(rt, "wake")
			c.Retry = rapid.SliceOfN(rapid.Bool(), 1, 3).Draw(rt, "retry")
			for i := rapid.IntRange(1, 3).Draw(rt, "rounds"); i > 0; i-- {
				c.Rounds = append(c.Rounds, genRound(rt, false))
			}
			return c
		}, runStart,
		Start{N: 2, Start: 1000, Wake: []int{-100, 1}, Rounds: []RoundC{{Size: []int{3}}}},
		Start{N: 4, Start: 1000, Wake: []int{-100, 2, -5, 3}, Retry: []bool{true}, Rounds: []RoundC{{Size: []int{3, 0, 7}}, {Size: []int{2}}}})
}
