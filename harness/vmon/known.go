package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sync"
)

// The known-findings file lists, per property, the signature of each genuine defect that is recorded, not repaired.
type finding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

var (
	knownOnce sync.Once
	knownMap  map[string]map[string]string
)

func loadKnown() {
	knownMap = map[string]map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Known []finding `json:"known"`
	}
	if json.Unmarshal(b, &f) != nil {
		return
	}
	for _, k := range f.Known {
		if knownMap[k.Property] == nil {
			knownMap[k.Property] = map[string]string{}
		}
		knownMap[k.Property][k.Signature] = k.What
	}
}

func isKnown(prop, sig string) bool {
	knownOnce.Do(loadKnown)
	_, ok := knownMap[prop][sig]
	return ok
}

func knownFor(prop string) map[string]string {
	knownOnce.Do(loadKnown)
	return knownMap[prop]
}
