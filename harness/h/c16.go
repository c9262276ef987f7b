package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C16Seq"] = C16Seq
	Registry["C16Con"] = C16Con
}

func drawClock() int64 {
	c := nd.I64()
	nd.Assume(nd.And(c >= 0, c < 1<<33))
	return c
}

// C16Seq: k calls at any clock readings; the sequence continues after errors.
func C16Seq(k int) {
	var n bond.NumberSequence
	var ids []uint64
	last := int64(-1)
	for i := 0; i < k; i++ {
		c := drawClock()
		nd.PushClock(c)
		later := c > last
		if later {
			last = c
		}
		id, err := n.Next()
		nd.Assert(nd.Or(err == nil, !later), "a later second always has numbers")
		if err != nil {
			nd.Reach("exhausted")
			continue
		}
		if len(ids) > 0 {
			nd.Assert(id > ids[len(ids)-1], "strictly increasing")
		}
		ts, no := n.Timestamp(id), n.SequenceNumber(id)
		nd.Assert(nd.And(ts >= uint64(c), ts <= uint64(last)), "a number tells a second that has come, not an earlier one than the clock's")
		nd.Assert(nd.And(no < 1<<bond.NumberSequenceBitShift, ts<<bond.NumberSequenceBitShift|no == id), "a number is made of its second and its place within the second")
		nd.ObserveU("id", id)
		ids = append(ids, id)
	}
	nd.Reach("end")
}

// C16Con: two threads with k calls each.
func C16Con(preempt, k int) {
	var n bond.NumberSequence
	for i := 0; i < 2*k; i++ {
		nd.PushClock(drawClock())
	}
	var ids [2][]uint64
	run := func(t int) {
		for i := 0; i < k; i++ {
			nd.P()
			id, err := n.Next()
			if err == nil {
				ids[t] = append(ids[t], id)
			}
		}
	}
	nd.Go(func() { run(0) })
	nd.Go(func() { run(1) })
	nd.Interleave(preempt)
	nd.Join()
	nd.Interleave(-1)
	for t := range ids {
		for i := 1; i < len(ids[t]); i++ {
			nd.Assert(ids[t][i] > ids[t][i-1], "increasing for each caller")
		}
	}
	for _, a := range ids[0] {
		for _, b := range ids[1] {
			nd.Assert(a != b, "concurrent callers get different numbers")
		}
		nd.ObserveU("id", a)
	}
	nd.Reach("end")
}
