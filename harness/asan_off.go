//go:build !asan

package main

const underAsan = false

func nativeBytes() int64 { return 0 }
