package h

import (
	"os"
	"testing"

	"verif/harness/pbt"
	_ "verif/harness/props"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_WORKER") == "1" {
		os.Exit(m.Run())
	}
	if id := os.Getenv("VERIF_PROP"); id != "" {
		os.Exit(pbt.Parent(id))
	}
	os.Exit(m.Run())
}

func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_WORKER") != "1" {
		t.Skip("driven by run.sh")
	}
	pbt.Worker(t)
}
