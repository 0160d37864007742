//go:build wrapbt

package main

/*
#cgo LDFLAGS: -lpthread
#include <stdint.h>
uint64_t wrapbt_ops(void);
uint64_t wrapbt_holds(void);
int wrapbt_max_writers(void);
void wrapbt_hold_every(int n);
*/
import "C"

// holdEvery holds up one in n operations of the native index for a moment.
func holdEvery(n int) { C.wrapbt_hold_every(C.int(n)) }

func noteNative(c *Ctx) {
	c.Count("native_operations_watched", int64(C.wrapbt_ops()))
	c.Count("native_operations_held_up", int64(C.wrapbt_holds()))
	c.Max("native_writers_at_once", int64(C.wrapbt_max_writers()))
}
