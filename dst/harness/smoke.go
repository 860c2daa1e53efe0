package harness

import (
	"verif/dst/sim"
)

func init() {
	register(&Scenario{Name: "smoke", Gen: func(r *sim.Rand, p *Plan) { genPolicy(r, p); genNet(r, p, 0) },
		Run: func(x *X) {
			b := x.NewDPeer("boot", "10.0.1.1", 6881, "B123456789B123456789")
			n := x.NewNodeHost(NodeCfg{Port: 21000, Pool: 4, Bootstrap: []string{"10.0.1.1:6881"}, QueueSize: 8, FetchWP: 2})
			probe := x.NewDPeer("probe", "10.0.2.1", 7000, "P123456789P123456789")
			n.Start()
			up := n.waitUp(probe, 30*sec)
			if c, bad := n.crashed(); bad {
				x.Fail("P00", "crash", "%s", c)
			}
			if !up {
				x.Fail("P00", "up", "node not up, out=%s", n.P.Out)
			}
			x.Count("boot_pkts", int64(len(b.Got)))
		}})
}
