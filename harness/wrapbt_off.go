//go:build !wrapbt

package main

func holdEvery(n int) {}

func noteNative(c *Ctx) {}
