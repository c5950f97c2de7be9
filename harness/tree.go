package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"golang.org/x/net/html/charset"
)

// Node is an element, or text when Name is empty.
type Node struct {
	Name  string
	Attrs []Attr
	Kids  []*Node
	Text  string
}

// Attr is an attribute.
type Attr struct{ K, V string }

func el(name string, attrs ...string) *Node {
	n := &Node{Name: name}
	for i := 0; i+1 < len(attrs); i += 2 {
		n.Attrs = append(n.Attrs, Attr{attrs[i], attrs[i+1]})
	}
	return n
}

func text(s string) *Node { return &Node{Text: s} }

func (n *Node) add(kids ...*Node) *Node {
	n.Kids = append(n.Kids, kids...)
	return n
}

func (n *Node) set(k, v string) *Node {
	for i := range n.Attrs {
		if n.Attrs[i].K == k {
			n.Attrs[i].V = v
			return n
		}
	}
	n.Attrs = append(n.Attrs, Attr{k, v})
	return n
}

func (n *Node) get(k string) (string, bool) {
	for _, a := range n.Attrs {
		if a.K == k {
			return a.V, true
		}
	}
	return "", false
}

func (n *Node) clone() *Node {
	c := &Node{Name: n.Name, Text: n.Text, Attrs: append([]Attr(nil), n.Attrs...)}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return c
}

func (n *Node) walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (n *Node) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

var textEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")

func attrEsc(s string, q byte) string {
	var b strings.Builder
	for _, c := range s {
		switch c {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '\n':
			b.WriteString("&#10;")
		case '\t':
			b.WriteString("&#9;")
		case '\r':
			b.WriteString("&#13;")
		case rune(q):
			if q == '"' {
				b.WriteString("&quot;")
			} else {
				b.WriteString("&apos;")
			}
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// plain writes the tree without any variation.
func (n *Node) plain() string {
	var b strings.Builder
	n.write(&b, nil)
	return b.String()
}

// vary writes the tree in one of many equivalent notations.
func (n *Node) vary(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(4) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if r.Intn(8) == 0 {
		b.WriteString("<!-- comment with <tags/> -->\n")
	}
	n.write(&b, r)
	if r.Intn(8) == 0 {
		b.WriteString("\n<!-- end -->\n")
	}
	return b.String()
}

func (n *Node) write(b *strings.Builder, r *rand.Rand) {
	if n.Name == "" {
		if r != nil && r.Intn(6) == 0 && !strings.Contains(n.Text, "]]>") {
			b.WriteString("<![CDATA[" + n.Text + "]]>")
			return
		}
		b.WriteString(textEsc.Replace(n.Text))
		return
	}
	b.WriteString("<" + n.Name)
	attrs := n.Attrs
	if r != nil && len(attrs) > 1 && r.Intn(2) == 0 {
		attrs = append([]Attr(nil), attrs...)
		r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	for _, a := range attrs {
		sep, q, eq := " ", byte('"'), "="
		if r != nil {
			switch r.Intn(12) {
			case 0:
				sep = "\n  "
			case 1:
				sep = "\t"
			}
			if r.Intn(6) == 0 {
				q = '\''
			}
			if r.Intn(16) == 0 {
				eq = " = "
			}
		}
		b.WriteString(sep + a.K + eq + string(q) + attrEsc(a.V, q) + string(q))
	}
	if len(n.Kids) == 0 && (r == nil || r.Intn(4) != 0) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	textual := n.Name == "title" || n.Name == "desc"
	for _, k := range n.Kids {
		textual = textual || k.Name == "" // no white space added to texts
	}
	for _, k := range n.Kids {
		if r != nil && !textual {
			switch r.Intn(16) {
			case 0:
				b.WriteString("\n  ")
			case 1:
				b.WriteString("<!-- c -->")
			case 2:
				b.WriteString("<?pi x?>")
			}
		}
		k.write(b, r)
	}
	b.WriteString("</" + n.Name + ">")
}

// readTree reads a whole document (used for the files of testdata).
func readTree(data []byte) (*Node, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.CharsetReader = charset.NewReaderLabel
	var stack []*Node
	var root *Node
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &Node{Name: x.Name.Local}
			for _, a := range x.Attr {
				n.Attrs = append(n.Attrs, Attr{a.Name.Local, a.Value})
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			} else if root == nil {
				root = n
			} else {
				return nil, fmt.Errorf("two roots")
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, text(string(x)))
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("no root")
	}
	return root, nil
}

func (n *Node) has(k string) bool {
	_, ok := n.get(k)
	return ok
}
