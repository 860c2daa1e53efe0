package harness

import (
	"bytes"
	"fmt"
	"runtime/metrics"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"

	"verif/dst/sim"
)

// ---- P08, P09, P10: fetching metadata from a peer ----

func genBeh(r *sim.Rand) (kind, ut, flag int64) {
	kind = pHonest
	if r.P(0.5) {
		kind = int64(r.Intn(pKinds))
	}
	ut = int64(r.Pick(1, 1, 2, 3, 7, 20, 100, 255))
	for i := 0; 1<<i <= fAll; i++ {
		if r.P(0.25) {
			flag |= 1 << i
		}
	}
	if r.P(0.15) {
		flag = 0
	}
	return
}

func metaSize(r *sim.Rand) int64 {
	return int64(r.Pick(1, 100, 1000, 5000, 16383, 16384, 16385, 20000, 32768, 40000, 65536, 100000, 200001))
}

func genFetch(r *sim.Rand, p *Plan) {
	genPolicy(r, p)
	p.N["tick"] = 100
	p.N["maxsteps"] = 60000000
	p.N["delay"] = int64(r.Pick(1, 50, 1000, 5000)) * us
	if r.P(0.7) {
		p.N["jitter"] = int64(r.Pick(10, 500, 5000, 15000)) * us
	}
	if r.P(0.7) {
		p.N["segp"] = int64(r.Pick(50, 300, 800))
	}
	if r.P(0.3) {
		p.N["sndbuf"] = int64(r.Pick(16, 100, 1000, 4000))
		if p.N["sndbuf"] < 1000 {
			// a window this small makes any peer slow on a slow network
			p.N["delay"], p.N["jitter"] = us, 0
		}
	}
	if r.P(0.015) {
		// a large torrent, on a network that carries it in time
		p.N["delay"], p.N["jitter"], p.N["sndbuf"] = us, 0, 0
		p.N["segp"] = int64(r.Pick(0, 50))
		p.N["clients"] = 1
		if p.N["gap"] < 60 {
			p.N["gap"] = 60
		}
		_, ut, fl := genBeh(r)
		p.Ops = append(p.Ops, Op{K: "fetch", A: []int64{0, pHonest, int64(r.Pick(400000, 700000, 1100000, 2500000, 5000000, 9000000)), ut, fl &^ fSegs, int64(r.Intn(1 << 30))}})
		return
	}
	p.N["clients"] = int64(1 + r.Intn(r.Pick(1, 3, 6)))
	n := 1 + r.Intn(r.Pick(2, 5, 12))
	for i := 0; i < n; i++ {
		k, ut, fl := genBeh(r)
		size, seed := metaSize(r), int64(r.Intn(1<<30))
		if i > 0 && r.P(0.2) {
			// a torrent fetched before, or one whose hash is close to its
			o := p.Ops[r.Intn(i)]
			size, seed = o.a(2), o.a(5)
			if r.P(0.5) {
				k = pNear
			}
		}
		p.Ops = append(p.Ops, Op{K: "fetch", At: int64(r.Intn(r.Pick(1, 10000, 1000000))),
			A: []int64{int64(r.Intn(6)), k, size, ut, fl, seed}})
	}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func heapAllocs() int64 {
	metrics.Read(allocSample)
	return int64(allocSample[0].Value.Uint64())
}

func runFetch(x *X) {
	a := x.newAPI("peerwire", NodeCfg{})
	slack := 500*ms + 2*x.n("stallmax") + x.n("stallmax")
	slow := x.n("stall") > 0
	type fetch struct {
		o         Op
		p         *TPeer
		ret, keep []byte
		err       error
		done      bool
		call, end int64
		alloc     int64
	}
	var fs []*fetch
	idx := map[*fetch]int{}
	t0 := x.W.Now()
	alone := int(atLeast(x.n("clients"), 1)) == 1
	for i, o := range x.P.Ops {
		b := TBeh{Kind: int(o.a(1)), UT: int(atLeast(o.a(3), 1)) & 255, Flag: int(o.a(4)), Seed: o.a(5), Gap: 15 * ms}
		if b.UT == 0 {
			b.UT = 1
		}
		n := atLeast(o.a(2), 1)
		// all pauses of a timely peer together
		b.Gap = 150 * ms / (3 + 4*(n/16384+1))
		p := x.NewTPeer(fmt.Sprintf("peer%d", i), fmt.Sprintf("10.0.4.%d", i+1), 6000+i, metaOf(n, o.a(5)), b)
		f := &fetch{o: o, p: p}
		idx[f] = i
		fs = append(fs, f)
	}
	ops := make([]Op, len(fs))
	for i := range fs {
		ops[i] = Op{K: "fetch", At: fs[i].o.At, A: []int64{fs[i].o.a(0), int64(i)}}
	}
	before := heapAllocs()
	for _, ops := range splitOps(ops, int(atLeast(x.n("clients"), 1))) {
		ops := ops
		sortOps(ops)
		a.Go("fetcher", func() {
			for _, o := range ops {
				f := fs[o.a(1)]
				a.at(t0, o.At)
				b := heapAllocs()
				f.call = x.W.Now()
				s0 := x.W.StallNs
				ret, err := peerwire.FetchMetaData(f.p.Addr.String(), []byte("N123456789N123456789"), []byte(f.p.Hash))
				f.end = x.W.Now()
				f.alloc = heapAllocs() - b
				f.ret, f.err, f.done = ret, err, true
				f.keep = append([]byte(nil), ret...)
				if err == nil && sha(ret) != f.p.Hash {
					x.Fail("P08", "wrong-data", "a fetch of %x returned %d bytes that hash to %x (%s)", f.p.Hash, len(ret), sha(ret), f.p.B)
				}
				if err != nil && len(ret) > 0 {
					x.Fail("P08", "data-with-error", "a fetch returned %d bytes together with the error %v", len(ret), err)
				}
				if d := f.end - f.call; d > 20*sec+slack+x.W.StallNs-s0 {
					x.Fail("P10", "slow", "a fetch took %d ms (%s)", d/ms, f.p.B)
				}
				for _, s := range f.p.S {
					if e := s.e.Peer(); !e.Closed {
						x.Fail("P10", "connection-kept", "a fetch returned (%v) without closing its connection (%s)", err, f.p.B)
					}
				}
			}
		})
	}
	limit := int64(len(fs))*(25*sec+slack) + 20*sec
	done := a.wait(limit)
	if a.died("P10") {
		return
	}
	if !done {
		x.Fail("P10", "stuck", "fetches do not return:%s", a.stuck())
		return
	}
	sim.Sleep(500 * ms)
	total := int64(0)
	honest, okN := 0, 0
	for _, f := range fs {
		in := int64(0)
		for _, s := range f.p.S {
			in += int64(s.out)
			if n := s.e.Peer().NCloses; n > 1 {
				x.Fail("P10", "closed-twice", "a fetch closed its connection %d times (%s)", n, f.p.B)
			}
		}
		total += in
		if len(f.p.S) > 1 {
			x.Fail("P10", "dialled-twice", "one fetch made %d connections", len(f.p.S))
		}
		if f.err == nil {
			okN++
			if !bytes.Equal(f.ret, f.keep) {
				x.Fail("P08", "changed-later", "metadata a fetch had returned changed afterwards (%s)", f.p.B)
			}
		}
		if f.p.B.Kind == pHonest {
			honest++
			if f.err != nil && !slow {
				x.Fail("P09", "failed", "the fetch of %d bytes from an honest, timely peer failed: %v (%s); served everything: %v", len(f.p.Meta), f.err, f.p.B, len(f.p.S) > 0 && f.p.S[0].Done)
			} else if f.err == nil && !bytes.Equal(f.ret, f.p.Meta) {
				x.Fail("P09", "wrong-data", "the fetch returned something else than the metadata (%s)", f.p.B)
			}
		}
		if alone {
			lim := 96<<20 + 2000*in
			if f.p.B.Kind == pSizes {
				lim = 96<<20 + 60*in // the messages are not short
			}
			if f.alloc > lim {
				x.Fail("P10", "memory", "one fetch allocated %d MiB while the peer sent %d bytes (%s)", f.alloc>>20, in, f.p.B)
			}
		}
	}
	if d := heapAllocs() - before; d > int64(len(fs))*96<<20+2000*total {
		x.Fail("P10", "memory", "%d fetches allocated %d MiB while their peers sent %d bytes", len(fs), d>>20, total)
	}
	if n := a.P.NGs(); n > 0 {
		if !x.W.WaitUntil(30*sec, 10*ms, func() bool { return a.P.NGs() == 0 || !a.P.Alive() }) {
			x.Fail("P10", "goroutines-kept", "goroutines stay behind after the fetches ended:%s", a.stuck())
		}
	}
	if a.died("P10") {
		return
	}
	x.Nontrivial = honest > 0 || len(fs) > 0
	x.Count("fetches", int64(len(fs)))
	x.Count("honest_peers", int64(honest))
	x.Count("fetches_ok", int64(okN))
	x.Count("peer_bytes", total)
}

func init() {
	register(&Scenario{Name: "fetch", Props: []string{"P08", "P09", "P10", "P21"}, Gen: genFetch, Run: runFetch, Race: true, Hang: []string{"P10"},
		Rule: "at least one metadata fetch ran against a scripted peer"})
}
