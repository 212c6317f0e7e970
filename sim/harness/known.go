package harness

import (
	"encoding/json"
	"os"
	"strings"
)

// Known is an entry of the known-findings file.
type Known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Class    string `json:"class"`  // violation class it explains ("known" only)
	Contains string `json:"contains"`
	Commit   string `json:"commit"`
	What     string `json:"what"`
	Entry    string `json:"entry"`
}

// LoadKnown reads the known-findings file.
func LoadKnown(path string) ([]Known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var ks []Known
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			return nil, err
		}
		ks = append(ks, k)
	}
	return ks, nil
}

// MatchKnown finds the known finding that explains v. Fixed entries explain nothing.
func MatchKnown(ks []Known, prop string, v *Violation) *Known {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == prop && k.Class == v.Class && strings.Contains(v.Msg, k.Contains) {
			return k
		}
	}
	return nil
}
