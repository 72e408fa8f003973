package sgen

import (
	"encoding/json"
	"fmt"
	"sort"

	"pgregory.net/rapid"
)

func mapKeys(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Mangle changes one node of a document into something else, or removes it; it says which, and how.
func Mangle(t *rapid.T, doc map[string]interface{}) string {
	type place struct {
		path string
		set  func(v interface{}, remove bool)
		v    interface{}
	}
	var all []place
	var walk func(path string, v interface{})
	walk = func(path string, v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range mapKeys(x) {
				k := k
				all = append(all, place{path + "/" + k, func(v interface{}, remove bool) {
					if remove {
						delete(x, k)
					} else {
						x[k] = v
					}
				}, x[k]})
				walk(path+"/"+k, x[k])
			}
		case []interface{}:
			for i := range x {
				i := i
				all = append(all, place{fmt.Sprintf("%s/%d", path, i), func(v interface{}, remove bool) { x[i] = v }, x[i]})
				walk(fmt.Sprintf("%s/%d", path, i), x[i])
			}
		}
	}
	walk("", doc)
	at := all[rapid.IntRange(0, len(all)-1).Draw(t, "where")]
	what := Pick(t, "what", []string{"null", "gone", "text", "number", "true", "list", "object", "wrapped", "null", "null"})
	switch what {
	case "null":
		at.set(nil, false)
	case "gone":
		at.set(nil, true)
	case "text":
		at.set(Pick(t, "text", []string{"", "x", "object", "array", "#/components/schemas/Nope", "string"}), false)
	case "number":
		at.set(json.Number(Pick(t, "number", []string{"0", "-1", "1.5", "1e30", "9223372036854775808"})), false)
	case "true":
		at.set(true, false)
	case "list":
		at.set([]interface{}{}, false)
	case "object":
		at.set(map[string]interface{}{}, false)
	case "wrapped":
		at.set([]interface{}{at.v}, false)
	}
	return at.path + " " + what
}
