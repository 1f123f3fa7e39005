//go:build !vmonnoise

package main

func noiseHits() int64 { return 0 }
