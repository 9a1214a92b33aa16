package main

import (
	"fmt"
	"sync"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/verifharness/pbt"
)

func init() { registry["C02"] = propC02 }

var nonHangFaults = []int{fGetErr, fGetGarbage, fSignErr, fSignLost, fSignGarbage, fCrashBefore, fCrashAfter, fSignEmpty, fSignFlip, fPartsMissing}

func propC02() *pbt.Property {
	rsaKeys()
	return &pbt.Property{ID: "C02",
		Rule: "A case is a history on a ring of n cosigners with threshold t > n/2 and 2..3 members acting as leaders at the same " +
			"time: sign requests drawn to conflict at the same height/round/step (sequential or concurrent over leaders), peer faults " +
			"(errors, lost replies, garbage, restarts before/after signing, late replies), delivery of last-signed-state updates to subsets, " +
			"member restarts from disk. Oracle: all released signatures that verify are grouped by height/round/step; two different contents violate. " +
			"Non-trivial: at least one valid signature was released and a conflicting request for a signed position was made. Distinct by rendered history.",
		Setup: func(e *pbt.Env) { initStores(e, 96) },
		Parts: []pbt.Part{
			{Name: "splitbrain", Fn: c02Split, Quick: 1500, Thorough: 60000, Workers: 32, QuickSecs: 45, ThoroughSecs: 900},
			{Name: "concurrent", Fn: c02Concurrent, Quick: 400, Thorough: 15000, Workers: 14, QuickSecs: 25, ThoroughSecs: 600},
		}}
}

type c02State struct {
	t         *pbt.T
	ring      *Ring
	rig       *Rig
	mu        sync.Mutex
	reqs      map[HRS][]Msg
	sigs      map[HRS]map[string]string // content -> who
	released  int
	contested int
	lss       []signer.SignStateConsensus
}

// released checks one reply against everything released so far.
func (c *c02State) take(who string, m Msg, rep reply) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if rep.panic != "" {
		c.t.Fatalf("request %s at %s: %s", m, who, rep.panic)
	}
	c.t.Logf("%s: %s -> %s", who, m, okErr(rep.err))
	if rep.err != nil {
		if len(c.sigs[m.HRS()]) > 0 && c.sigs[m.HRS()][m.Content()] == "" {
			c.contested++
		}
		return
	}
	// which message did the signature sign?
	for _, q := range c.reqs[m.HRS()] {
		if c.ring.verifies(q, rep.sig) {
			c.released++
			if c.sigs[m.HRS()] == nil {
				c.sigs[m.HRS()] = map[string]string{}
			}
			c.sigs[m.HRS()][q.Content()] = who
			c.lss = append(c.lss, signer.SignStateConsensus{Height: q.H, Round: q.R, Step: int8(q.Kind), Signature: rep.sig, SignBytes: q.SignBytes()})
			if len(c.sigs[m.HRS()]) > 1 {
				c.t.Fatalf("valid signatures released for conflicting messages at %+v: %v", m.HRS(), c.sigs[m.HRS()])
			}
			if q.Content() != m.Content() {
				c.contested++
			}
			return
		}
	}
}

func okErr(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return "refused (" + s + ")"
}

func newC02(t *pbt.T) *c02State {
	n, th := drawNT(t, 5)
	ring := NewRing(t, n, th, nil)
	nl := t.Range(2, minInt(3, n))
	rig := NewRig(t, ring, pickSome(t, ring.IDs, nl))
	c := &c02State{t: t, ring: ring, rig: rig, reqs: map[HRS][]Msg{}, sigs: map[HRS]map[string]string{}}
	ids := []int{}
	for _, l := range rig.Leaders {
		ids = append(ids, l.Node.ID)
	}
	t.Logf("n=%d t=%d leaders=%v", n, th, ids)
	return c
}

func (c *c02State) note(m Msg) {
	c.mu.Lock()
	c.reqs[m.HRS()] = append(c.reqs[m.HRS()], m)
	c.mu.Unlock()
}

func (c *c02State) gossip() {
	t := c.t
	if len(c.lss) == 0 {
		return
	}
	l := c.lss[len(c.lss)-1-t.Intn(minInt(3, len(c.lss)))]
	for _, id := range c.ring.IDs {
		if !t.Chance(2, 3) {
			continue
		}
		n := c.ring.Nodes[id]
		_ = n.LC.SaveLastSignedState(l)
		for _, ld := range c.rig.Leaders {
			if ld.Node == n {
				_ = ld.val.SaveLastSignedState(l)
			}
		}
		t.Logf("announce %d/%d/%d to %d", l.Height, l.Round, l.Step, id)
	}
}

func c02Split(t *pbt.T) {
	c := newC02(t)
	g := MsgGen{Base: 1 + int64(t.Intn(3)), H: 2, R: 2, Chains: 2}.Wide(t)
	var last []Msg
	steps := t.Range(4, 24)
	for i := 0; i < steps; i++ {
		switch t.Weighted(12, 2, 2, 1) {
		case 0:
			var m Msg
			if len(last) > 0 && t.Chance(3, 4) {
				m = g.Mutate(t, last[len(last)-1-t.Intn(minInt(3, len(last)))])
			} else {
				g.Base += int64(t.Intn(2))
				m = g.Draw(t)
			}
			last = append(last, m)
			c.note(m)
			l := c.rig.Leaders[t.Intn(len(c.rig.Leaders))]
			plan := c.rig.Plan(l, 1, 5, nonHangFaults, false)
			if !plan.enough(c.rig) && !t.Chance(1, 40) {
				plan = c.rig.Plan(l, 0, 1, nil, false)
			}
			t.Logf("%s", plan)
			c.take(fmt.Sprintf("leader %d", l.Node.ID), m, l.Do(m, plan))
		case 1:
			c.gossip()
		case 2:
			l := c.rig.Leaders[t.Intn(len(c.rig.Leaders))]
			t.Logf("restart leader %d", l.Node.ID)
			l.Restart()
		case 3:
			id := c.ring.IDs[t.Intn(len(c.ring.IDs))]
			t.Logf("restart cosigner %d", id)
			c.ring.Nodes[id].crash(t)
		}
	}
	c.finish()
}

func (c *c02State) finish() {
	if c.released > 0 && c.contested > 0 {
		c.t.NonTrivial(fmt.Sprint(c.t.Rendered()))
	}
	c.t.Label(fmt.Sprintf("released>0=%v contested>0=%v", c.released > 0, c.contested > 0))
}

func c02Concurrent(t *pbt.T) {
	c := newC02(t)
	g := MsgGen{Base: 1, H: 1, R: 2, Chains: 1}
	rounds := t.Range(2, 8)
	for i := 0; i < rounds; i++ {
		g.Base++
		m0 := g.Draw(t)
		type job struct {
			l    *Leader
			m    Msg
			plan *reqPlan
		}
		var jobs []job
		for _, l := range c.rig.Leaders {
			m := m0
			if len(jobs) > 0 {
				m = g.Mutate(t, m0)
			}
			plan := c.rig.Plan(l, 1, 8, nonHangFaults, true)
			plan.first = map[int]bool{} // natural order
			cnt := 0
			for _, id := range others(c.ring.IDs, l.Node.ID) {
				if f := plan.faults[id]; f != fGetErr {
					cnt++
				}
			}
			if cnt < c.ring.T-1 {
				plan.faults = map[int]int{}
			}
			c.note(m)
			jobs = append(jobs, job{l, m, plan})
			t.Logf("leader %d: %s %s", l.Node.ID, m, plan)
		}
		var grp pbt.Group
		for _, j := range jobs {
			j := j
			grp.Go(func() { c.take(fmt.Sprintf("leader %d", j.l.Node.ID), j.m, j.l.Do(j.m, j.plan)) })
		}
		grp.Wait()
		if t.Chance(1, 3) {
			c.gossip()
		}
		if t.Chance(1, 4) {
			l := c.rig.Leaders[t.Intn(len(c.rig.Leaders))]
			t.Logf("restart leader %d", l.Node.ID)
			l.Restart()
		}
	}
	if c.released > 0 {
		t.NonTrivial(fmt.Sprint(t.Rendered()))
	}
}
