package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// Finding is a line of the known-findings file: a genuine defect that was recorded, not repaired.
type Finding struct {
	What   string   `json:"what"`
	Inputs []string `json:"inputs"`
}

// Findings reads the known findings of a property.
func Findings(property string) []Finding {
	data, err := os.ReadFile(os.Getenv("VP_KNOWN"))
	Must(err)
	var result []Finding
	for _, line := range strings.Split(string(data), "\n") {
		prefix := fmt.Sprintf("finding: property=%s ", property)
		if !strings.HasPrefix(line, prefix) {
			continue
		}
		var f Finding
		Must(json.Unmarshal([]byte(strings.TrimPrefix(line, prefix)), &f))
		result = append(result, f)
	}
	return result
}
