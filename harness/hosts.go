package main

import (
	"os"
	"path/filepath"
	_ "unsafe"
)

// the names of destinations, whatever the host knows: the file beside the executable
//
//go:linkname hostsFilePath net.hostsFilePath
var hostsFilePath string

func init() {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	f := filepath.Join(filepath.Dir(exe), "hosts")
	if _, err := os.Stat(f); err == nil {
		hostsFilePath = f
	}
}
