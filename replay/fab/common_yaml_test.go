package fab_test

import (
	"fmt"

	"gopkg.in/yaml.v3"
)

func parseNode(text string) *yaml.Node {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		panic(fmt.Sprint(text, ": ", err))
	}
	return n.Content[0]
}

// scratchless is a top directory for scenarios that use no files.
const scratchless = "/nonexistent/top"
