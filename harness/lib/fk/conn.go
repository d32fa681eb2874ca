// Package fk has stand-ins for connections, used by the harnesses in both the
// symbolic and the native run.
package fk

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/anivanovic/gotit/internal/verif/vs"
)

// ErrIO is the error injected by the stand-ins.
var ErrIO = errors.New("injected failure")

// ErrTimeout is an injected deadline error.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var ErrTimeout error = timeoutErr{}

// Conn is a connection whose incoming stream is In, cut into segments chosen
// by the explorer, ending in End (io.EOF if nil).
type Conn struct {
	In      []byte
	Pos     int
	End     error
	Whole   bool // one segment per read, as large as asked for
	Zero    int  // how many empty reads are allowed
	Out     []byte
	Writes  [][]byte
	WFail   int  // writes that may fail or be cut short
	DFail   bool // deadlines may fail to be set
	Closed  int
	Timeout time.Duration
	Strict  bool // check the deadlines

	start      time.Time // of the operation
	rSet       bool
	wSet       bool
	Failed     bool // a deadline could not be set in this operation
	Touched    bool // a read or write in this operation
	Errored    bool // an error was returned from a read or write
	DataErrEOF bool
}

// Begin starts an operation on the connection.
func (c *Conn) Begin() {
	c.start = time.Now()
	c.rSet, c.wSet, c.Failed, c.Touched, c.Errored = false, false, false, false, false
}

func (c *Conn) Read(p []byte) (int, error) {
	if c.Strict {
		vs.Assert(c.rSet, "read-without-deadline")
		vs.Assert(!c.Failed, "read-after-deadline-error")
	}
	c.Touched = true
	if len(p) == 0 {
		return 0, nil
	}
	left := len(c.In) - c.Pos
	if left == 0 {
		c.Errored = true
		if c.End == nil {
			return 0, io.EOF
		}
		return 0, c.End
	}
	n := len(p)
	if n > left {
		n = left
	}
	if !c.Whole {
		lo := 1
		if c.Zero > 0 {
			lo = 0
		}
		k := lo + vs.Choose("segment", n-lo+1)
		if k == 0 {
			c.Zero--
			return 0, nil
		}
		n = k
	}
	copy(p, c.In[c.Pos:c.Pos+n])
	c.Pos += n
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.Strict {
		vs.Assert(c.wSet, "write-without-deadline")
		vs.Assert(!c.Failed, "write-after-deadline-error")
	}
	c.Touched = true
	if c.WFail > 0 && vs.Bool("writefails") {
		c.WFail--
		n := vs.Choose("written", len(p)+1)
		if n == len(p) && n > 0 {
			n = len(p) - 1
		}
		c.Out = append(c.Out, p[:n]...)
		c.Errored = true
		return n, ErrIO
	}
	c.Out = append(c.Out, p...)
	c.Writes = append(c.Writes, append([]byte(nil), p...))
	return len(p), nil
}

func (c *Conn) Close() error { c.Closed++; return nil }

func (c *Conn) LocalAddr() net.Addr  { return &net.TCPAddr{} }
func (c *Conn) RemoteAddr() net.Addr { return &net.TCPAddr{} }

func (c *Conn) deadline(t time.Time) error {
	if c.DFail && vs.Bool("deadlinefails") {
		c.Failed = true
		return ErrIO
	}
	if c.Strict {
		now := time.Now()
		d := t.Sub(c.start)
		vs.Assert(d >= c.Timeout, "deadline-too-early")
		vs.Assert(d <= c.Timeout+now.Sub(c.start), "deadline-too-late")
	}
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	err := c.deadline(t)
	if err == nil {
		c.rSet, c.wSet = true, true
	}
	return err
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	err := c.deadline(t)
	if err == nil {
		c.rSet = true
	}
	return err
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	err := c.deadline(t)
	if err == nil {
		c.wSet = true
	}
	return err
}
