//go:build vmonnoise

package main

import "github.com/xconnio/wampproto-go"

func noiseHits() int64 { return int64(wampproto.VmonNoise()) }
