//go:build asan

package main

// #include <stddef.h>
// size_t __sanitizer_get_current_allocated_bytes(void);
import "C"

const underAsan = true

// nativeBytes is what the allocator of AddressSanitizer has handed out and not got back.
func nativeBytes() int64 { return int64(C.__sanitizer_get_current_allocated_bytes()) }
