package model

import (
	"errors"
	"io"
	"strconv"
	"time"
)

// A model of yaml.v3's decoding of a block mapping of scalars into a struct. What it does not cover
// (nested and flow collections, anchors, tags, block scalars, several documents) ends the path.

func structFieldN(v interface{}) int                  { return 0 }
func structFieldKey(v interface{}, i int) string      { return "" }
func structFieldPtr(v interface{}, i int) interface{} { return nil }
func setField(p interface{}, v interface{})           {}
func pointee(p interface{}) string                    { return "" }
func yamlTypeError() error                            { return nil }
func cannot(what string)                              {}

type yamlDec struct {
	r     io.Reader
	known bool
	done  bool
}

func YamlNewDecoder(r io.Reader) *yamlDec { return &yamlDec{r: r} }

func YamlKnownFields(d *yamlDec, on bool) { d.known = on }

func YamlDecode(d *yamlDec, v interface{}) error {
	if d.done {
		return io.EOF
	}
	b, err := io.ReadAll(d.r)
	if err != nil {
		return errors.New("yaml: input error: " + err.Error())
	}
	d.done = true
	return yamlDecode(string(b), v, d.known, true)
}

func YamlUnmarshal(b []byte, v interface{}) error {
	return yamlDecode(string(b), v, false, false)
}

func yamlTrim(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\r') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\r') {
		s = s[:len(s)-1]
	}
	return s
}

// yamlLines splits the document and drops comments and blank lines.
func yamlLines(doc string) (lines []string) {
	for len(doc) > 0 {
		i := 0
		for i < len(doc) && doc[i] != '\n' {
			i++
		}
		l := doc[:i]
		if i < len(doc) {
			i++
		}
		doc = doc[i:]
		for j := 0; j < len(l); j++ {
			if l[j] == '#' && (j == 0 || l[j-1] == ' ') {
				l = l[:j]
				break
			}
		}
		if yamlTrim(l) == "" {
			continue
		}
		if l == "---" && len(lines) == 0 {
			continue
		}
		lines = append(lines, l)
	}
	return lines
}

// yamlScalar is the value of a scalar: quoted or plain.
func yamlScalar(s string) (text string, quoted, coll bool, err error) {
	if s == "" {
		return s, false, false, nil
	}
	switch s[0] {
	case '"', '\'':
		if len(s) < 2 || s[len(s)-1] != s[0] {
			return "", false, false, errors.New("yaml: found unexpected end of stream")
		}
		t := s[1 : len(s)-1]
		for i := 0; i < len(t); i++ {
			if t[i] == s[0] || t[i] == '\\' {
				cannot("yaml: escapes in a quoted scalar")
			}
		}
		return t, true, false, nil
	case '@', '`', '%', '}', ']', ',':
		return "", false, false, errors.New("yaml: found character that cannot start any token")
	case '[', '{':
		last := s[len(s)-1]
		if s[0] == '[' && last != ']' || s[0] == '{' && last != '}' {
			return "", false, false, errors.New("yaml: did not find expected ',' or closing bracket")
		}
		return s, false, true, nil
	case '&', '*', '!', '|', '>':
		cannot("yaml: anchors, tags and block scalars")
	case '-', '?', ':':
		if len(s) == 1 || s[1] == ' ' {
			cannot("yaml: nested collections")
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == ':' && (i+1 == len(s) || s[i+1] == ' ') {
			return "", false, false, errors.New("yaml: mapping values are not allowed in this context")
		}
	}
	return s, false, false, nil
}

func yamlNull(s string) bool {
	return s == "" || s == "~" || s == "null" || s == "Null" || s == "NULL"
}

func yamlBool(s string) (v, ok bool) {
	switch s {
	case "true", "True", "TRUE":
		return true, true
	case "false", "False", "FALSE":
		return false, true
	}
	return false, false
}

// yamlNumber tells whether a plain scalar resolves to a number.
func yamlNumber(s string) bool {
	digits := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			digits = true
		case c == '+' || c == '-' || c == '.' || c == '_' || c == 'e' || c == 'E':
		default:
			return false
		}
	}
	if !digits {
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

func yamlDecode(doc string, v interface{}, known, eof bool) error {
	lines := yamlLines(doc)
	if len(lines) == 0 {
		if eof {
			return io.EOF
		}
		return nil
	}
	n := structFieldN(v)
	type kv struct {
		k, v   string
		quoted bool
		coll   bool
	}
	var kvs []kv
	for _, l := range lines {
		if l[0] == '\t' {
			return errors.New("yaml: found character that cannot start any token")
		}
		if l[0] == ' ' {
			cannot("yaml: indented lines")
		}
		i := 0
		for i < len(l) && !(l[i] == ':' && (i+1 == len(l) || l[i+1] == ' ')) {
			i++
		}
		if i == len(l) {
			if len(lines) > 1 {
				return errors.New("yaml: could not find expected ':'")
			}
			if _, _, _, err := yamlScalar(yamlTrim(l)); err != nil {
				return err
			}
			if yamlNull(yamlTrim(l)) {
				return nil
			}
			if l[0] == '{' {
				cannot("yaml: flow mapping")
			}
			return yamlTypeError()
		}
		k, _, coll, err := yamlScalar(yamlTrim(l[:i]))
		if err != nil {
			return err
		}
		if coll {
			cannot("yaml: collection as a key")
		}
		val, q, coll, err := yamlScalar(yamlTrim(l[i+1:]))
		if err != nil {
			return err
		}
		kvs = append(kvs, kv{k, val, q, coll})
	}
	var bad error
	terror := yamlTypeError()
	done := make([]bool, n)
	for _, e := range kvs {
		f := -1
		for i := 0; i < n; i++ {
			if k := structFieldKey(v, i); k != "" && k == e.k {
				f = i
			}
		}
		if f < 0 {
			if known {
				bad = terror
			}
			continue
		}
		if done[f] {
			bad = terror
			continue
		}
		done[f] = true
		p := structFieldPtr(v, f)
		t := pointee(p)
		if e.coll {
			bad = terror
			continue
		}
		if !e.quoted && yamlNull(e.v) {
			continue
		}
		isBool := false
		num := false
		if !e.quoted {
			_, isBool = yamlBool(e.v)
			num = yamlNumber(e.v)
		}
		switch t {
		case "string":
			setField(p, e.v)
		case "time.Duration":
			d, err := yamlDuration(e.v)
			if isBool || num || err != nil {
				bad = terror
			} else {
				setField(p, d)
			}
		case "bool":
			b, ok := yamlBool(e.v)
			if !isBool || !ok {
				bad = terror
			} else {
				setField(p, b)
			}
		case "int", "int64":
			x, err := strconv.ParseInt(e.v, 10, 64)
			if !num || err != nil {
				bad = terror
			} else if t == "int" {
				setField(p, int(x))
			} else {
				setField(p, x)
			}
		default:
			cannot("yaml: decoding into a field of type " + t)
		}
	}
	return bad
}

// yamlDuration is time.ParseDuration; one number with a short fraction is computed without floating
// point, which gives the same value when the unit is a multiple of the fraction's scale.
func yamlDuration(s string) (time.Duration, error) {
	dot, i := -1, 0
	for ; i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.' && dot < 0); i++ {
		if s[i] == '.' {
			dot = i
		}
	}
	if dot < 1 || i == dot+1 {
		return time.ParseDuration(s)
	}
	unit, err := time.ParseDuration("1" + s[i:])
	if err != nil {
		return time.ParseDuration(s)
	}
	whole, err := time.ParseDuration(s[:dot] + s[i:])
	if err != nil {
		return 0, err
	}
	scale := time.Duration(1)
	for range s[dot+1 : i] {
		scale *= 10
	}
	for j := i; j < len(s); j++ {
		if s[j] >= '0' && s[j] <= '9' || unit%scale != 0 {
			return time.ParseDuration(s)
		}
	}
	f := uint64(0)
	for j := dot + 1; j < i; j++ {
		f = f*10 + uint64(s[j]) - '0'
	}
	return whole + time.Duration(f)*(unit/scale), nil
}
