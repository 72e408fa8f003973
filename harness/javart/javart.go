// Package javart holds the Java sources of the stand-ins for the libraries that generated Java code
// uses, and of the program that compiles, loads and exercises it.
package javart

import (
	_ "embed"
	"strings"
)

//go:embed stubs.txt
var stubs string

//go:embed rt.txt
var runtime string

// Sources returns the text of the files by path.
func Sources() map[string]string {
	m := map[string]string{}
	for _, part := range strings.Split(stubs+"\n"+runtime, "//// ")[1:] {
		i := strings.Index(part, "\n")
		m[strings.TrimSpace(part[:i])] = part[i+1:]
	}
	return m
}
