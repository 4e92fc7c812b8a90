package main

import (
	"os"

	"github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	if os.Getenv("VERIF_REPLAY") != "" {
		verifrt.Main()
	}
}
