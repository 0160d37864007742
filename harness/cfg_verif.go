//go:build verif

package main

import "github.com/smartbch/moeingads"

const tunable = true

func applyCfg(c Cfg) {
	moeingads.DefaultHPFileSize = c.HPFile
	moeingads.HPFileBufferSize = c.HPBuf
	moeingads.StartReapThres = c.Reap
	moeingads.RootCacheSizeLimit = c.RootCache
}
