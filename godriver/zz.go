package main

import "os"

// the last init of the package: answers requests instead of running the proxy
func init() {
	if os.Getenv("VERIF_DRIVER") != "" {
		vMain()
	}
}
