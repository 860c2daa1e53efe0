// Package http: servers are stubs that listen on the simulated network and
// never serve; everything else is the real package.
package http

import (
	"context"
	"crypto/tls"
	"log"
	"net"
	real "net/http"
	"time"

	snet "verif/dst/shim/net"
	"verif/dst/sim"
)

type Server struct {
	Addr                         string
	Handler                      real.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ConnState                    func(net.Conn, real.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
	l                            net.Listener
}

func (s *Server) ListenAndServe() error {
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := snet.Listen("tcp", a)
	if err != nil {
		return err
	}
	return s.Serve(l)
}
func (s *Server) Serve(l net.Listener) error {
	s.l = l
	for {
		c, err := l.Accept()
		if err != nil {
			return real.ErrServerClosed
		}
		sim.Sleep(1e6)
		c.Close()
	}
}
func (s *Server) Close() error {
	if s.l != nil {
		return s.l.Close()
	}
	return nil
}
func (s *Server) Shutdown(context.Context) error { return s.Close() }
func (s *Server) RegisterOnShutdown(func())      {}
func (s *Server) SetKeepAlivesEnabled(bool)      {}

func ListenAndServe(addr string, h real.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
func Serve(l net.Listener, h real.Handler) error { return (&Server{Handler: h}).Serve(l) }
