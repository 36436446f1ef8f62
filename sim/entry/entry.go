// Package entry has the functions through which the client calls the simulated
// world. In the build with the race detector the world itself is not
// instrumented and its functions are missing in the stacks of reports; these
// are not, so that what the world does is told from what the client does.
package entry

import (
	"context"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

type DialFunc = func(ctx context.Context, network, address string) (net.Conn, error)

// Dial wraps the dial function of the world.
func Dial(f DialFunc) DialFunc {
	return func(ctx context.Context, network, address string) (net.Conn, error) {
		return dial(f, ctx, network, address)
	}
}

//go:noinline
func dial(f DialFunc, ctx context.Context, network, address string) (net.Conn, error) {
	c, err := f(ctx, network, address)
	if err != nil {
		return nil, err
	}
	return &conn{c}, nil
}

// A stack in a report has the callers of all instrumented functions, so it takes
// two of them to see one.
type conn struct{ c net.Conn }

//go:noinline
func (c *conn) Read(b []byte) (int, error) { return c.read(b) }

//go:noinline
func (c *conn) read(b []byte) (int, error) {
	return c.c.Read(b)
}

//go:noinline
func (c *conn) Write(b []byte) (int, error) { return c.write(b) }

//go:noinline
func (c *conn) write(b []byte) (int, error) {
	return c.c.Write(b)
}

//go:noinline
func (c *conn) Close() error { return c.close() }

//go:noinline
func (c *conn) close() error {
	return c.c.Close()
}

func (c *conn) LocalAddr() net.Addr  { return c.c.LocalAddr() }
func (c *conn) RemoteAddr() net.Addr { return c.c.RemoteAddr() }

//go:noinline
func (c *conn) SetDeadline(t time.Time) error { return c.set(c.c.SetDeadline, t) }

//go:noinline
func (c *conn) SetReadDeadline(t time.Time) error { return c.set(c.c.SetReadDeadline, t) }

//go:noinline
func (c *conn) SetWriteDeadline(t time.Time) error { return c.set(c.c.SetWriteDeadline, t) }

//go:noinline
func (c *conn) set(f func(time.Time) error, t time.Time) error {
	return f(t)
}

// Writer wraps a writer of the world.
func Writer(w io.Writer) io.Writer { return &writer{w} }

type writer struct{ w io.Writer }

//go:noinline
func (w *writer) Write(b []byte) (int, error) { return w.write(b) }

//go:noinline
func (w *writer) write(b []byte) (int, error) {
	return w.w.Write(b)
}

// Notify wraps the function which is told about signals that are awaited.
func Notify(f func(c chan<- os.Signal, sig []os.Signal)) func(c chan<- os.Signal, sig []os.Signal) {
	return func(c chan<- os.Signal, sig []os.Signal) { notify(f, c, sig) }
}

//go:noinline
func notify(f func(c chan<- os.Signal, sig []os.Signal), c chan<- os.Signal, sig []os.Signal) {
	f(c, sig)
}

// Before and After wrap the file system of the world.
func Before(f func(c *syscall.SimCall) (bool, int, int, error)) func(c *syscall.SimCall) (bool, int, int, error) {
	return func(c *syscall.SimCall) (bool, int, int, error) { return before(f, c) }
}

//go:noinline
func before(f func(c *syscall.SimCall) (bool, int, int, error), c *syscall.SimCall) (bool, int, int, error) {
	return f(c)
}

func After(f func(c *syscall.SimCall, n int, err error)) func(c *syscall.SimCall, n int, err error) {
	return func(c *syscall.SimCall, n int, err error) { after(f, c, n, err) }
}

//go:noinline
func after(f func(c *syscall.SimCall, n int, err error), c *syscall.SimCall, n int, err error) {
	f(c, n, err)
}
