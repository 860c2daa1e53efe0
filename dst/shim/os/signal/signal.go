package signal

import (
	"context"
	"os"
	"syscall"
	"unsafe"

	sctx "verif/dst/shim/context"
	"verif/dst/sim"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	sim.Y()
	cc := *(*chan os.Signal)(unsafe.Pointer(&c))
	r := &sim.SigReg{Key: *(*unsafe.Pointer)(unsafe.Pointer(&c))}
	for _, s := range sig {
		if n, ok := s.(syscall.Signal); ok {
			r.Sigs = append(r.Sigs, int(n))
		}
	}
	r.Deliver = func(n int) bool { return sim.TrySendEvent[os.Signal](cc, syscall.Signal(n)) }
	sim.AddSig(r)
}

func Stop(c chan<- os.Signal)  { sim.DelSig(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }
func Ignore(sig ...os.Signal)  {}
func Reset(sig ...os.Signal)   {}
func Ignored(s os.Signal) bool { return false }
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := sctx.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	sim.Go(func() {
		c1, c2 := sim.CaseRecv(ch), sim.CaseRecv(ctx.Done())
		if sim.Select(false, c1, c2) == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(ch) }
}
