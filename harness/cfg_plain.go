//go:build !verif

package main

const tunable = false

func applyCfg(c Cfg) {}
