// Package vtime converts instants for the harness.
package vtime

import (
	"time"

	"vrt"
)

// FromTime converts to ns since the start of the run.
func FromTime(t time.Time) int64 { return int64(t.Sub(vrt.Start())) }

// Virtual is the instant at ns.
func Virtual(ns int64) time.Time { return vrt.Start().Add(time.Duration(ns)) }
