// Package vruntime models runtime.Gosched and friends.
package vruntime

import "vrt"

//go:norace
func Gosched() { vrt.Yield() }

//go:norace
func NumGoroutine() int { return len(vrt.LiveSubject()) + 1 }
