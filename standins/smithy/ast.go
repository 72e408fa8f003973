// Package smithy is a clean-room stand-in for github.com/boynton/smithy v0.4.8,
// which is not available in this sandbox. It provides the AST data structure that
// /repo/smithy uses, with the public Smithy JSON AST as its wire format. The Smithy
// IDL reader is not reproduced: Parse always fails, and IDL renders a minimal text.
package smithy

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/boynton/data"
)

type AST struct {
	Smithy   string       `json:"smithy"`
	Metadata *data.Object `json:"metadata,omitempty"`
	Shapes   *Shapes      `json:"shapes,omitempty"`
}

type Shapes struct {
	keys     []string
	bindings map[string]*Shape
}

func NewShapes() *Shapes { return &Shapes{bindings: map[string]*Shape{}} }

func (s *Shapes) Put(key string, val *Shape) {
	if _, ok := s.bindings[key]; !ok {
		s.keys = append(s.keys, key)
	}
	s.bindings[key] = val
}
func (s *Shapes) Get(key string) *Shape {
	if s == nil {
		return nil
	}
	return s.bindings[key]
}
func (s *Shapes) Keys() []string {
	if s == nil {
		return nil
	}
	return append([]string(nil), s.keys...)
}
func (s *Shapes) Length() int {
	if s == nil {
		return 0
	}
	return len(s.keys)
}
func (s *Shapes) Has(key string) bool { return s.Get(key) != nil }

func marshalOrdered(keys []string, get func(string) interface{}) ([]byte, error) {
	var b bytes.Buffer
	b.WriteByte('{')
	for i, k := range keys {
		if i > 0 {
			b.WriteByte(',')
		}
		kb, err := json.Marshal(k)
		if err != nil {
			return nil, err
		}
		vb, err := json.Marshal(get(k))
		if err != nil {
			return nil, err
		}
		b.Write(kb)
		b.WriteByte(':')
		b.Write(vb)
	}
	b.WriteByte('}')
	return b.Bytes(), nil
}

func (s Shapes) MarshalJSON() ([]byte, error) {
	return marshalOrdered(s.keys, func(k string) interface{} { return s.bindings[k] })
}
func (s *Shapes) UnmarshalJSON(b []byte) error {
	keys, err := data.JsonKeysInOrder(b)
	if err != nil {
		return err
	}
	m := map[string]*Shape{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	s.keys, s.bindings = keys, m
	return nil
}

type Members struct {
	keys     []string
	bindings map[string]*Member
}

func NewMembers() *Members { return &Members{bindings: map[string]*Member{}} }

func (s *Members) Put(key string, val *Member) {
	if _, ok := s.bindings[key]; !ok {
		s.keys = append(s.keys, key)
	}
	s.bindings[key] = val
}
func (s *Members) Get(key string) *Member {
	if s == nil {
		return nil
	}
	return s.bindings[key]
}
func (s *Members) Keys() []string {
	if s == nil {
		return nil
	}
	return append([]string(nil), s.keys...)
}
func (s *Members) Length() int {
	if s == nil {
		return 0
	}
	return len(s.keys)
}
func (s *Members) Has(key string) bool { return s.Get(key) != nil }
func (s Members) MarshalJSON() ([]byte, error) {
	return marshalOrdered(s.keys, func(k string) interface{} { return s.bindings[k] })
}
func (s *Members) UnmarshalJSON(b []byte) error {
	keys, err := data.JsonKeysInOrder(b)
	if err != nil {
		return err
	}
	m := map[string]*Member{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	s.keys, s.bindings = keys, m
	return nil
}

type ShapeRef struct {
	Target string `json:"target"`
}

type Member struct {
	Target string       `json:"target"`
	Traits *data.Object `json:"traits,omitempty"`
}

type Shape struct {
	Type       string       `json:"type"`
	Version    string       `json:"version,omitempty"`
	Member     *Member      `json:"member,omitempty"`
	Key        *Member      `json:"key,omitempty"`
	Value      *Member      `json:"value,omitempty"`
	Members    *Members     `json:"members,omitempty"`
	Mixins     []*ShapeRef  `json:"mixins,omitempty"`
	Operations []*ShapeRef  `json:"operations,omitempty"`
	Resources  []*ShapeRef  `json:"resources,omitempty"`
	Input      *ShapeRef    `json:"input,omitempty"`
	Output     *ShapeRef    `json:"output,omitempty"`
	Errors     []*ShapeRef  `json:"errors,omitempty"`
	Traits     *data.Object `json:"traits,omitempty"`
}

func (ast *AST) GetShape(id string) *Shape { return ast.Shapes.Get(id) }

func (ast *AST) Merge(src *AST) error {
	if ast.Shapes == nil {
		ast.Shapes = NewShapes()
	}
	if src.Metadata != nil {
		if ast.Metadata == nil {
			ast.Metadata = data.NewObject()
		}
		for _, k := range src.Metadata.Keys() {
			ast.Metadata.Put(k, src.Metadata.Get(k))
		}
	}
	for _, k := range src.Shapes.Keys() {
		if ast.Shapes.Get(k) != nil {
			return fmt.Errorf("Duplicate shape in assembly: %s", k)
		}
		ast.Shapes.Put(k, src.Shapes.Get(k))
	}
	return nil
}

func (ast *AST) Filter(tags []string) {}

func (ast *AST) Validate() error { return nil }

func (ast *AST) Namespaces() []string {
	m := map[string]bool{}
	for _, k := range ast.Shapes.Keys() {
		if n := strings.Index(k, "#"); n >= 0 {
			m[k[:n]] = true
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// IDL renders only the shape names and kinds; the real library writes Smithy IDL.
func (ast *AST) IDL(ns string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "$version: %q\n\nnamespace %s\n\n", ast.Smithy, ns)
	for _, k := range ast.Shapes.Keys() {
		fmt.Fprintf(&b, "%s %s\n", ast.Shapes.Get(k).Type, strings.TrimPrefix(k, ns+"#"))
	}
	return b.String()
}

func LoadAST(path string) (*AST, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("Cannot read smithy AST file: %v", err)
	}
	var ast AST
	if err := json.Unmarshal(b, &ast); err != nil {
		return nil, fmt.Errorf("Cannot parse Smithy AST file: %v", err)
	}
	if ast.Smithy == "" {
		return nil, fmt.Errorf("Cannot parse Smithy AST file: %v", path)
	}
	return &ast, nil
}

func Parse(path string) (*AST, error) {
	return nil, fmt.Errorf("Smithy IDL is not supported by the stand-in: %s", path)
}
