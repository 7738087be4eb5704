package model

import (
	"errors"
	"io"
	"strconv"
)

// A model of text/template: text, {{range}}, {{if}}, {{with}}, {{else}}, {{end}}, comments, trim markers,
// fields, variables set by range, printf and pipelines. Anything else ends the path.

func valLen(v interface{}) int                               { return 0 } // -1 not a slice or array
func valIndex(v interface{}, i int) interface{}              { return nil }
func valField(v interface{}, name string) (interface{}, int) { return nil, 0 } // 1 found, 0 no such field, 2 a method or unknown

type tmpl struct {
	name  string
	text  string
	nodes []tnode
	set   bool
}

type tnode struct {
	kind int // 0 text, 1 print, 2 range, 3 if, 4 with
	text string
	pipe [][]string
	vars []string
	body []tnode
	alt  []tnode
}

func TemplateNew(name string) *tmpl { return &tmpl{name: name} }

func TemplateMust(t *tmpl, err error) *tmpl {
	if err != nil {
		panic(err)
	}
	return t
}

func TemplateName(t *tmpl) string { return t.name }

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func trimLeft(s string) string {
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	return s
}

func trimRight(s string) string {
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

type tlex struct {
	text string
	act  bool
}

func TemplateParse(t *tmpl, s string) (*tmpl, error) {
	var toks []tlex
	trim := false
	for {
		i := find(s, "{{")
		txt := s
		if i >= 0 {
			txt = s[:i]
			s = s[i+2:]
		}
		if trim {
			txt = trimLeft(txt)
		}
		if i < 0 {
			toks = append(toks, tlex{txt, false})
			break
		}
		if len(s) > 1 && s[0] == '-' && space(s[1]) {
			txt = trimRight(txt)
			s = s[1:]
		}
		if txt != "" {
			toks = append(toks, tlex{txt, false})
		}
		j := 0
		for {
			if j+1 >= len(s) {
				return nil, errors.New("template: " + t.name + ": unclosed action")
			}
			if s[j] == '"' || s[j] == '`' {
				q := s[j]
				for j++; j < len(s) && s[j] != q; j++ {
					if s[j] == '\\' && q == '"' {
						j++
					}
				}
				j++
				continue
			}
			if s[j] == '}' && s[j+1] == '}' {
				break
			}
			j++
		}
		a := s[:j]
		s = s[j+2:]
		trim = false
		if len(a) > 1 && a[len(a)-1] == '-' && space(a[len(a)-2]) {
			trim = true
			a = a[:len(a)-1]
		}
		toks = append(toks, tlex{trimLeft(trimRight(a)), true})
	}
	nodes, rest, end, err := parseNodes(toks)
	if err != nil {
		return nil, err
	}
	if end != "" || len(rest) > 0 {
		return nil, errors.New("template: " + t.name + ": unexpected {{" + end + "}}")
	}
	t.nodes, t.set = nodes, true
	return t, nil
}

func find(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// words splits an action into its parts.
func words(s string) (w []string) {
	for {
		s = trimLeft(s)
		if s == "" {
			return
		}
		j := 1
		switch c := s[0]; {
		case c == '"':
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case c == '`':
			for j < len(s) && s[j] != '`' {
				j++
			}
			j++
		case c == '|' || c == ',':
		case c == '(' || c == ')':
			cannot("a template with parentheses")
		case c == ':':
			j = 2
		default:
			for j < len(s) && !space(s[j]) && s[j] != '|' && s[j] != ',' && s[j] != ':' && s[j] != ')' && s[j] != '=' {
				j++
			}
		}
		w = append(w, s[:j])
		s = s[j:]
	}
}

func pipeline(w []string) (p [][]string) {
	var c []string
	for _, x := range w {
		if x == "|" {
			p = append(p, c)
			c = nil
			continue
		}
		c = append(c, x)
	}
	return append(p, c)
}

func parseNodes(toks []tlex) (out []tnode, rest []tlex, end string, err error) {
	for len(toks) > 0 {
		t := toks[0]
		toks = toks[1:]
		if !t.act {
			out = append(out, tnode{kind: 0, text: t.text})
			continue
		}
		if len(t.text) > 1 && t.text[:2] == "/*" {
			continue
		}
		w := words(t.text)
		if len(w) == 0 {
			return nil, nil, "", errors.New("template: missing value for command")
		}
		switch w[0] {
		case "end", "else":
			if len(w) > 1 {
				cannot("a template with else if")
			}
			return out, toks, w[0], nil
		case "range", "if", "with":
			n := tnode{kind: 2}
			if w[0] == "if" {
				n.kind = 3
			} else if w[0] == "with" {
				n.kind = 4
			}
			w = w[1:]
			for i, x := range w {
				if x == ":=" {
					for _, y := range w[:i] {
						if y != "," {
							n.vars = append(n.vars, y)
						}
					}
					w = w[i+1:]
					break
				}
			}
			n.pipe = pipeline(w)
			var e string
			n.body, toks, e, err = parseNodes(toks)
			if err == nil && e == "else" {
				n.alt, toks, e, err = parseNodes(toks)
			}
			if err == nil && e != "end" {
				err = errors.New("template: unexpected EOF")
			}
			if err != nil {
				return nil, nil, "", err
			}
			out = append(out, n)
		case "define", "template", "block", "break", "continue":
			cannot("a template with " + w[0])
		default:
			for _, x := range w {
				if x == ":=" || x == "=" {
					cannot("a template with assignments")
				}
			}
			out = append(out, tnode{kind: 1, pipe: pipeline(w)})
		}
	}
	return out, nil, "", nil
}

type tvar struct {
	name string
	v    interface{}
}

type texec struct {
	w    io.Writer
	vars []tvar
}

func TemplateExecute(t *tmpl, w io.Writer, data interface{}) error {
	if !t.set {
		return errors.New("template: " + t.name + " is an incomplete or empty template")
	}
	x := &texec{w: w, vars: []tvar{{"$", data}}}
	return x.run(t.nodes, data)
}

func (x *texec) run(ns []tnode, dot interface{}) error {
	for _, n := range ns {
		if n.kind == 0 {
			if _, err := io.WriteString(x.w, n.text); err != nil {
				return err
			}
			continue
		}
		v, err := x.pipe(n.pipe, dot)
		if err != nil {
			return err
		}
		switch n.kind {
		case 1:
			_, err = io.WriteString(x.w, Sprint(v))
		case 2:
			k := valLen(v)
			if k < 0 {
				cannot("a template ranging over something other than a slice")
			}
			for i := 0; i < k && err == nil; i++ {
				e := valIndex(v, i)
				mark := len(x.vars)
				if len(n.vars) == 2 {
					x.vars = append(x.vars, tvar{n.vars[0], i}, tvar{n.vars[1], e})
				} else if len(n.vars) == 1 {
					x.vars = append(x.vars, tvar{n.vars[0], e})
				}
				err = x.run(n.body, e)
				x.vars = x.vars[:mark]
			}
			if k == 0 {
				err = x.run(n.alt, dot)
			}
		default:
			mark := len(x.vars)
			if len(n.vars) == 1 {
				x.vars = append(x.vars, tvar{n.vars[0], v})
			}
			d := dot
			if n.kind == 4 {
				d = v
			}
			if truth(v) {
				err = x.run(n.body, d)
			} else {
				err = x.run(n.alt, dot)
			}
			x.vars = x.vars[:mark]
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func truth(v interface{}) bool {
	if v == nil {
		return false
	}
	if k := valLen(v); k >= 0 {
		return k > 0
	}
	switch kindOf(v) {
	case 1, 2:
		return rawInt(v) != 0
	case 4:
		return rawStr(v) != ""
	case 5:
		return rawBool(v)
	}
	cannot("a template testing a value of type " + typeName(v))
	return false
}

func (x *texec) pipe(p [][]string, dot interface{}) (v interface{}, err error) {
	for i, c := range p {
		if len(c) == 0 {
			return nil, errors.New("template: missing value for command")
		}
		var args []interface{}
		f := ""
		if name := c[0]; name[0] >= 'a' && name[0] <= 'z' && name != "nil" && name != "true" && name != "false" {
			f = name
			c = c[1:]
		}
		for _, w := range c {
			a, err := x.operand(w, dot)
			if err != nil {
				return nil, err
			}
			args = append(args, a)
		}
		if i > 0 {
			args = append(args, v)
		}
		switch f {
		case "":
			if len(args) != 1 {
				cannot("a template calling a value")
			}
			v = args[0]
		case "printf":
			if len(args) == 0 || kindOf(args[0]) != 4 {
				return nil, errors.New("template: printf without a format")
			}
			v = Sprintf(rawStr(args[0]), args[1:]...)
		case "print":
			v = Sprint(args...)
		case "println":
			v = Sprintln(args...)
		case "len":
			if len(args) != 1 {
				return nil, errors.New("template: len of several values")
			}
			if kindOf(args[0]) == 4 {
				v = len(rawStr(args[0]))
			} else if v = valLen(args[0]); valLen(args[0]) < 0 {
				cannot("a template with len of " + typeName(args[0]))
			}
		case "not":
			v = !truth(args[0])
		default:
			cannot("a template calling " + f)
		}
	}
	return v, nil
}

func (x *texec) operand(w string, dot interface{}) (interface{}, error) {
	switch {
	case w == ".":
		return dot, nil
	case w[0] == '"' || w[0] == '`':
		s, err := strconv.Unquote(w)
		return s, err
	case w == "true":
		return true, nil
	case w == "false":
		return false, nil
	case w[0] >= '0' && w[0] <= '9' || w[0] == '-':
		n, err := strconv.Atoi(w)
		return n, err
	}
	v := dot
	if w[0] == '$' {
		j := 1
		for j < len(w) && w[j] != '.' {
			j++
		}
		ok := false
		for i := len(x.vars) - 1; i >= 0 && !ok; i-- {
			if x.vars[i].name == w[:j] {
				v, ok = x.vars[i].v, true
			}
		}
		if !ok {
			return nil, errors.New("template: undefined variable " + w[:j])
		}
		w = w[j:]
	} else if w[0] != '.' {
		cannot("a template with " + w)
	}
	for w != "" {
		w = w[1:]
		j := 0
		for j < len(w) && w[j] != '.' {
			j++
		}
		f, how := valField(v, w[:j])
		switch how {
		case 0:
			return nil, errors.New("template: can't evaluate field " + w[:j] + " in type " + typeName(v))
		case 2:
			cannot("a template using " + w[:j] + " of " + typeName(v))
		}
		v, w = f, w[j:]
	}
	return v, nil
}
