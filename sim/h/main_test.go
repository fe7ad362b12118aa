package h

import (
	"encoding/base64"
	"encoding/json"
	"os"
	"testing"
)

func TestMain(m *testing.M) { os.Exit(m.Run()) }

// TestWorker does what the file named by VSIM_JOB says.
func TestWorker(t *testing.T) {
	f := os.Getenv("VSIM_JOB")
	if f == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	j.Run(t)
}

// TestLiterals prints the public parameters of the simulated service, which
// take the place of the real service's in the instrumented build
// (tools/literals.json).
func TestLiterals(t *testing.T) {
	f := os.Getenv("VSIM_LITERALS")
	if f == "" {
		t.Skip()
	}
	must(os.WriteFile(f, []byte(base64.StdEncoding.EncodeToString(zkServer().public)), 0o644))
}
