// Package fdial stands in for dialling: every connection made is the one the
// harness provides.
package fdial

import (
	"context"
	"errors"
	"net"
	"time"
)

// Dial is set by the harness.
var Dial func(network, address string) (net.Conn, error)

func dial(network, address string) (net.Conn, error) {
	if Dial == nil {
		return nil, errors.New("no network")
	}
	return Dial(network, address)
}

//verif:hook net.DialTimeout hDialTimeout
func hDialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return dial(network, address)
}

//verif:hook net.Dial hDial
func hDial(network, address string) (net.Conn, error) { return dial(network, address) }

//verif:hook (*net.Dialer).Dial hDialer
func hDialer(d *net.Dialer, network, address string) (net.Conn, error) {
	return dial(network, address)
}

//verif:hook (*net.Dialer).DialContext hDialerCtx
func hDialerCtx(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return dial(network, address)
}
