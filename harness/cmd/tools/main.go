// Command tools decides the properties of the generators of data files.
package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/pbt"
)

const repo = "/repo"

func main() {
	pbt.Main(propPatterns(), propTables())
}

// tool is the path of a generator built by run.sh.
func tool(name string) string {
	path := filepath.Join(os.Getenv("VERIF_TOOLS"), name)
	if _, err := os.Stat(path); err != nil {
		pbt.Internal("no generator: %v", err)
	}

	return path
}

// scratch makes a temporary folder.
func scratch() (dir string, remove func()) {
	dir, err := os.MkdirTemp("", "tools")
	if err != nil {
		pbt.Internal("%v", err)
	}

	return dir, func() { _ = os.RemoveAll(dir) }
}

func write(path, content string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		pbt.Internal("%v", err)
	}
	if err := os.WriteFile(path, []byte(content), 0o600); err != nil {
		pbt.Internal("%v", err)
	}
}

// run a command in a folder.
func run(dir string, env []string, stdin string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.Stdin = strings.NewReader(stdin)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return stderr.String(), err
	}

	return string(out), nil
}
