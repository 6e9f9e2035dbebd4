// Package vhttp stands in for the listening part of net/http: registrations
// are captured and requests are delivered by the simulator.
package vhttp

import (
	"context"
	"errors"
	"net"
	"net/http"
	"time"

	"verif.local/rt"
)

var (
	mux     = http.NewServeMux()
	handler http.Handler
	addr    string
)

// Reset forgets registrations.
func Reset() { mux = http.NewServeMux(); handler = nil; addr = "" }

// Handler is what the service would serve.
func Handler() http.Handler { return handler }

// HandleFunc is http.HandleFunc.
func HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) { mux.HandleFunc(p, f) }

// Handle is http.Handle.
func Handle(p string, h http.Handler) { mux.Handle(p, h) }

// ListenAndServe is http.ListenAndServe.
func ListenAndServe(a string, h http.Handler) error {
	if h == nil {
		h = mux
	}
	addr, handler = a, h
	return http.ErrServerClosed
}

// Serve is http.Serve.
func Serve(l net.Listener, h http.Handler) error { return ListenAndServe("", h) }

// Server is http.Server.
type Server struct {
	Addr                                                      string
	Handler                                                   http.Handler
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
}

func (s *Server) ListenAndServe() error              { return ListenAndServe(s.Addr, s.Handler) }
func (s *Server) Shutdown(ctx context.Context) error { return nil }
func (s *Server) Close() error                       { return nil }

// Recorder is the simulated connection's response side.
type Recorder struct {
	H       http.Header
	Code    int
	Body    []byte
	ErrAt   int // writes fail after this many bytes (client gone); <0 never
	StallAt int // the write reaching this many bytes stalls (slow client); <0 never
	Written bool
}

// NewRecorder returns a recorder.
func NewRecorder() *Recorder { return &Recorder{H: http.Header{}, ErrAt: -1, StallAt: -1} }

func (r *Recorder) Header() http.Header { return r.H }
func (r *Recorder) WriteHeader(c int) {
	if !r.Written {
		r.Written = true
		r.Code = c
	}
}
func (r *Recorder) Write(b []byte) (int, error) {
	rt.Yield()
	r.WriteHeader(200)
	if r.StallAt >= 0 && len(r.Body)+len(b) > r.StallAt {
		r.StallAt = -1
		rt.Stall()
	}
	if r.ErrAt >= 0 && len(r.Body)+len(b) > r.ErrAt {
		n := r.ErrAt - len(r.Body)
		if n < 0 {
			n = 0
		}
		r.Body = append(r.Body, b[:n]...)
		return n, errors.New("write: broken pipe")
	}
	r.Body = append(r.Body, b...)
	return len(b), nil
}
func (r *Recorder) WriteString(s string) (int, error) { return r.Write([]byte(s)) }
func (r *Recorder) Flush()                            {}
