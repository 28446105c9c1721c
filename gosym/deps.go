package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// The Kafka client is loaded from a copy of the module cache's franz-go with a hook added, so that
// harnesses can stand in for the broker. The copy lives under build/ and is named by its inputs.

func stubDir(module string) string {
	h := sha256.New()
	for _, f := range []string{"prep.py", "kgo_hook.go.txt", "kadm_hook.go.txt"} {
		b, _ := os.ReadFile(filepath.Join(verifDir, "kgostub", f))
		h.Write(b)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(repoDir, module, f))
		h.Write(b)
	}
	return filepath.Join(verifDir, "build", fmt.Sprintf("stub-%x", h.Sum(nil)[:6]))
}

func prepareDeps() error {
	for _, m := range []string{"streams", "msk"} {
		d := stubDir(m)
		if _, err := os.Stat(filepath.Join(d, m, "go.mod")); err == nil {
			continue
		}
		os.MkdirAll(d, 0o755)
		cmd := exec.Command("python3", filepath.Join(verifDir, "kgostub", "prep.py"), d, repoDir, m)
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%v: %s", err, out)
		}
	}
	return nil
}

func modfileFor(ps pkgSpec) string {
	m := filepath.Base(ps.module)
	f := filepath.Join(stubDir(m), m, "go.mod")
	if _, err := os.Stat(f); err != nil {
		return ""
	}
	return f
}
