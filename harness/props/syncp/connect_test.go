package syncp

import (
	"encoding/binary"
	"fmt"
	stdsync "sync"
	"time"

	"pgregory.net/rapid"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"

	"verif.local/harness/internal/cluster"
	"verif.local/harness/internal/pbt"
	"verif.local/harness/internal/vnet"
)

// ---- C37: getting connected

// StrangerC is a connection made by somebody else.
type StrangerC struct {
	To    int    // party it is made to
	At    int    // milliseconds after the servers were started
	Kind  string // see below
	Id    int
	Frame bool // a message for the first round follows the id
	Ends  int  // 0: the stranger keeps the connection open, 1: it is closed, 2: it is reset
}

// Connect is the start of a committee.
type Connect struct {
	N         int
	Seed      uint64
	Links     Links
	Listen    []int // times that listening fails first
	Strangers []StrangerC
	Rounds    []RoundC
}

type stranger struct {
	StrangerC
	s *vnet.Stranger
}

// id16 is the id that the stranger announces, -1 if it announces none.
func (s StrangerC) announce(n int) int {
	switch s.Kind {
	case "own":
		return s.To
	case "outside":
		if v := n + s.Id; v < 1<<16 {
			return v
		}
		return 1<<16 - 1
	case "again":
		return (s.To + 1 + s.Id%(n-1)) % n
	}
	return -1
}

func (s StrangerC) bytes(n int) []byte {
	var b []byte
	switch id := s.announce(n); {
	case id >= 0:
		b = binary.LittleEndian.AppendUint16(nil, uint16(id))
		if s.Frame {
			b = binary.LittleEndian.AppendUint64(b, 14)
			b = binary.LittleEndian.AppendUint16(b, uint16(id))
			b = binary.LittleEndian.AppendUint64(b, 0)
			b = append(b, "evil"...)
		}
	case s.Kind == "short":
		b = []byte{byte(s.Id)}
	}
	return b
}

func runConnect(t *pbt.T, c Connect) {
	var mu stdsync.Mutex
	var made []stranger
	var open []string
	cfg := cluster.Config{N: c.N, NoBaton: true, Link: c.Links.of(c.N), FailListen: c.Listen}
	cfg.Wake = func(int) time.Duration { return 0 }
	cfg.Start = time.Hour
	cfg.Aside = func(cl *cluster.Cluster) {
		var wg stdsync.WaitGroup
		for _, s := range c.Strangers {
			wg.Add(1)
			go func(s StrangerC) {
				defer wg.Done()
				time.Sleep(time.Duration(s.At) * time.Millisecond)
				if s.Kind == "again" {
					// once the party itself is connected
					from := s.announce(c.N)
					for time.Until(cl.StartTime) > 10*time.Millisecond {
						if p := cl.Net.Pipe(from, s.To); p != nil && p.Consumed() >= 2 {
							break
						}
						time.Sleep(time.Millisecond)
					}
					time.Sleep(time.Millisecond)
					if time.Until(cl.StartTime) < 5*time.Millisecond {
						return
					}
				}
				ends := s.Ends > 0 || s.announce(c.N) < 0
				x := cl.Net.Connect(s.To, s.bytes(c.N), ends, s.Ends == 2)
				mu.Lock()
				made = append(made, stranger{s, x})
				mu.Unlock()
			}(s)
		}
		wg.Wait()
	}
	cl, hang := cluster.Run(cfg, func(p *cluster.Party, s sync.Server) error {
		accept := func(uint16, []byte) error { return nil }
		for k, r := range c.Rounds {
			if err := s.Round(r.out(c.Seed, c.N, k, p.Pid), accept); err != nil {
				return err
			}
		}
		// everybody has got everything before the first one stops
		time.Sleep(time.Minute)
		p.Server().Stop()
		time.Sleep(time.Minute)
		if p.Pid == 0 {
			for i, d := range p.Cluster().Net.Dialled() {
				// nobody has to accept one more connection than there are parties
				if r, w := d.Data.Closed(); !w || !r && d.Data.Read() {
					open = append(open, fmt.Sprintf("after all parties have stopped, connection %d, of party %d to party %d, is closed by the sender: %v, by the receiver: %v", i, d.From, d.To, w, r))
				}
			}
		}
		return nil
	})
	cl.Judge(t, hang)
	for _, p := range cl.Parties {
		for k, r := range c.Rounds {
			t.Check(k < len(p.Rounds), "party %d: no round %d", p.Pid, k)
			delivered(t, p, k, func(from int) []byte { return r.msg(c.Seed, c.N, k, from, p.Pid) })
		}
	}
	for _, o := range open {
		t.Failf("%s", o)
	}
	read := 0
	for _, s := range made {
		t.Check(s.s.Got() == 0, "party %d sends %d bytes to a stranger", s.To, s.s.Got())
		if s.s.Read() {
			read++
			t.Label("dropped %s", s.Kind)
			t.Check(s.s.Closed(), "party %d keeps the connection of a stranger open, which announces %d", s.To, s.announce(c.N))
		}
	}
	broken := 0
	for i, l := range c.Links {
		if i < c.N*c.N {
			broken += len(l.Broken)
		}
	}
	if read > 0 || broken > 0 && c.N > 1 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Facet("C37", "connect", "committees of 1 to 7 parties, to which strangers connect while they get connected, with first connections that break, listening that fails and closing that reports errors; then some rounds, and all parties stop; non-trivial: a party has read from a stranger, or a connection broke",
		20000, 800000,
		func(rt *rapid.T) Connect {
			c := Connect{N: rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4, 5, 7}).Draw(rt, "n"), Seed: rapid.Uint64().Draw(rt, "seed"), Links: genLinks(rt)}
			for i := range c.Links {
				c.Links[i].Broken = rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3).Draw(rt, "broken")
				if c.Links[i].Dial <= 1000 {
					c.Links[i].Refuse = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 3, 3, 12, 12, 200, 1100}).Draw(rt, "refuse")
				}
				c.Links[i].Close = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(rt, "close")
			}
			c.Listen = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 3, 150}), 0, c.N).Draw(rt, "listen")
			if c.N > 1 {
				kinds := rapid.SampledFrom([]string{"own", "outside", "again", "again", "short", "nothing"})
				for i := rapid.IntRange(0, 4).Draw(rt, "strangers"); i > 0; i-- {
					c.Strangers = append(c.Strangers, StrangerC{
						To:    rapid.IntRange(0, c.N-1).Draw(rt, "to"),
						At:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 49}).Draw(rt, "at"),
						Kind:  kinds.Draw(rt, "kind"),
						Id:    rapid.SampledFrom([]int{0, 0, 1, 2, 3, 254, 255, 256, 32768, 65535}).Draw(rt, "id"),
						Frame: rapid.Bool().Draw(rt, "frame"),
						Ends:  rapid.IntRange(0, 2).Draw(rt, "ends"),
					})
				}
			}
			for i := rapid.IntRange(1, 3).Draw(rt, "rounds"); i > 0; i-- {
				c.Rounds = append(c.Rounds, genRound(rt, false))
			}
			return c
		}, runConnect,
		Connect{N: 3, Links: Links{{}, {}, {Dial: 50000}}, Strangers: []StrangerC{{To: 1, Kind: "outside"}, {To: 0, Kind: "own"}, {To: 0, Kind: "again"}, {To: 1, Kind: "again"}, {To: 2, Kind: "again"}}, Rounds: []RoundC{{Size: []int{3}}}},
		Connect{N: 2, Links: Links{{Broken: []int{0, 1, 1}}}, Strangers: []StrangerC{{To: 1, Kind: "nothing"}, {To: 0, Kind: "short", Ends: 2}}, Rounds: []RoundC{{Size: []int{3}}}})
}
