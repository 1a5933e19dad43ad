// Package xsignal is os/signal in a simulated process: no signal ever comes.
package xsignal

import (
	"context"
	"os"

	"verif.local/dst/xctx"
)

func Notify(chan<- os.Signal, ...os.Signal) {}
func Stop(chan<- os.Signal)                 {}
func Ignore(...os.Signal)                   {}
func Ignored(os.Signal) bool                { return false }
func Reset(...os.Signal)                    {}
func NotifyContext(parent context.Context, _ ...os.Signal) (context.Context, context.CancelFunc) {
	return xctx.WithCancel(parent)
}
