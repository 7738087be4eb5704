package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"time"
)

// Solver is one z3 process used incrementally. The asserted stack mirrors the
// path condition; common prefixes between consecutive paths are kept.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	cache    map[string]*cacheEnt
	hits     int64
	repair   func(m []uint64) // makes the text of equal numbers equal
	isFP     bool
	forFP    *Solver // decides the queries with float arithmetic: they slow the others down
	dump     string
	defined  map[*Term]bool
	terms    *Terms
	queries  int64
	nSat     int64
	nUnsat   int64
	nUnknown int64
	dur      time.Duration
	timeout  int
	bin      string
	log      io.Writer
}

var dumpOver = 300 * time.Millisecond

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func newSolver(t *Terms, bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{terms: t, bin: bin, timeout: timeoutMs}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", fmt.Sprintf("-t:%d", s.timeout))
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	if d := os.Getenv("VH_TEE"); d != "" {
		if f, err := os.CreateTemp(d, "tee"); err == nil {
			s.in = bufio.NewWriterSize(io.MultiWriter(in, f), 1<<16)
		}
	}
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]bool{}
	s.cache = map[string]*cacheEnt{}
	s.dump = os.Getenv("VH_DUMP")
	s.in.WriteString(smtPrelude)
	s.in.WriteString(smtPreludeFP)
	return nil
}

func (s *Solver) close() {
	if s.forFP != nil {
		s.forFP.close()
		s.forFP = nil
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() error {
	s.close()
	return s.start()
}

func (s *Solver) define(x *Term) {
	if x == nil || x.op == OConst || s.defined[x] {
		return
	}
	s.defined[x] = true
	if x.op == OVar {
		fmt.Fprintf(s.in, "(declare-const t%d %s)\n", x.id, x.sort())
		return
	}
	s.define(x.a)
	s.define(x.b)
	s.define(x.c)
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, x.sort(), x.body())
}

// vset is the set of variables of a term, as a bit set.
func (x *Term) varSet() []uint64 {
	if x == nil || x.op == OConst {
		return nil
	}
	if x.vset != nil {
		return x.vset
	}
	if x.op == OVar {
		x.vset = make([]uint64, x.k/64+1)
		x.vset[x.k/64] |= 1 << (x.k % 64)
		return x.vset
	}
	x.vset = orSet(orSet(x.a.varSet(), x.b.varSet()), x.c.varSet())
	return x.vset
}

func orSet(a, b []uint64) []uint64 {
	if len(a) < len(b) {
		a, b = b, a
	}
	sub := true
	for i, w := range b {
		if w&^a[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := make([]uint64, len(a))
	copy(r, a)
	for i, w := range b {
		r[i] |= w
	}
	return r
}

func meets(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

type cacheEnt struct {
	res  Result
	vars []int32
	vals []uint64
}

// slice keeps the constraints that share variables with extra, directly or through others.
// The current model satisfies all of pc, so the rest stays satisfied with its values.
func slicePC(pc []*Term, extra *Term) ([]*Term, []uint64) {
	set := extra.varSet()
	in := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if !in[i] && meets(p.varSet(), set) {
				in[i] = true
				n := orSet(set, p.varSet())
				if len(n) != len(set) || len(n) > 0 && &n[0] != &set[0] {
					changed = true
				}
				set = n
			}
		}
	}
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out, set
}

// check decides pc /\ extra. On Sat, model returns values of vars, base being a model of pc.
// Constraints marked lazy (those that tie the text of numbers to the numbers) are left out at
// first: without them unsat is unsat, and a model that happens to satisfy them is a model.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term, base []uint64) (Result, []uint64, error) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	core := make([]*Term, 0, len(pc))
	var lazy []*Term
	for _, p := range pc {
		if p.lazy {
			lazy = append(lazy, p)
		} else {
			core = append(core, p)
		}
	}
	if len(lazy) > 0 {
		sl, set := slicePC(core, extra)
		res, m, err := s.decide(sl, set, extra, vars, base)
		if err != nil {
			return Unknown, nil, err
		}
		if res == Unsat {
			s.nUnsat++
			return Unsat, nil, nil
		}
		if res == Sat {
			old := s.terms.model
			s.terms.setModel(m)
			holds := func(l []*Term) bool {
				for _, p := range l {
					if s.terms.eval(p) != 1 {
						return false
					}
				}
				return true
			}
			ok := holds(lazy)
			if !ok && s.repair != nil {
				s.repair(m)
				s.terms.setModel(m)
				ok = s.terms.eval(extra) == 1 && holds(lazy) && holds(core)
			}
			s.terms.setModel(old)
			if ok {
				s.nSat++
				return Sat, m, nil
			}
		}
	}
	sl, set := slicePC(pc, extra)
	res, m, err := s.decide(sl, set, extra, vars, base)
	if err != nil {
		return Unknown, nil, err
	}
	switch res {
	case Sat:
		s.nSat++
	case Unsat:
		s.nUnsat++
	default:
		s.nUnknown++
	}
	return res, m, nil
}

func (s *Solver) decide(sl []*Term, set []uint64, extra *Term, vars []*Term, base []uint64) (Result, []uint64, error) {
	t0 := time.Now()
	fp := extra.fp
	for _, p := range sl {
		fp = fp || p.fp
	}
	if fp && !s.isFP {
		if s.forFP == nil {
			var err error
			if s.forFP, err = newSolver(s.terms, s.bin, s.timeout); err != nil {
				s.forFP = nil
				return Unknown, nil, err
			}
			s.forFP.isFP = true
		}
		return s.forFP.decide(sl, set, extra, vars, base)
	}
	key := make([]byte, 0, 4*len(sl)+4)
	ids := make([]int32, 0, len(sl)+1)
	for _, p := range sl {
		ids = append(ids, p.id)
	}
	slices.Sort(ids)
	ids = append(ids, extra.id)
	for _, i := range ids {
		key = binary.LittleEndian.AppendUint32(key, uint32(i))
	}
	mkModel := func(e *cacheEnt) []uint64 {
		m := make([]uint64, len(vars))
		for i, v := range vars {
			if i < len(base) {
				m[i] = base[i]
			} else {
				m[i] = v.k2
			}
		}
		for i, v := range e.vars {
			m[v] = e.vals[i]
		}
		return m
	}
	if e, ok := s.cache[string(key)]; ok {
		s.hits++
		if e.res == Sat {
			return Sat, mkModel(e), nil
		}
		return Unsat, nil, nil
	}
	for _, p := range sl {
		s.define(p)
	}
	s.define(extra)
	s.in.WriteString("(push 1)\n")
	for _, p := range sl {
		fmt.Fprintf(s.in, "(assert %s)\n", p.ref())
	}
	fmt.Fprintf(s.in, "(assert %s)\n", extra.ref())
	// The incremental core answers most queries at once; bit-blasting the whole query
	// settles arithmetic that it is slow on.
	short := min(s.timeout, 1000)
	cmds := []string{fmt.Sprintf("(set-option :timeout %d)(check-sat)", short),
		fmt.Sprintf("(check-sat-using (try-for qfbv %d))", s.timeout),
		fmt.Sprintf("(set-option :timeout %d)(check-sat)", s.timeout)}
	if fp {
		cmds = []string{fmt.Sprintf("(check-sat-using (try-for qffp %d))", s.timeout)}
	}
	line := ""
	for _, c := range cmds {
		s.in.WriteString(c + "\n")
		if err := s.in.Flush(); err != nil {
			return Unknown, nil, err
		}
		var err error
		if line, err = s.readLine(); err != nil {
			return Unknown, nil, err
		}
		if line == "sat" || line == "unsat" {
			break
		}
	}
	if d := time.Since(t0); s.dump != "" && d > dumpOver {
		s.dumpQuery(sl, extra, line, d)
	}
	e := &cacheEnt{}
	switch line {
	case "sat":
		e.res = Sat
		var q []*Term
		for _, v := range vars {
			if int(v.k/64) < len(set) && set[v.k/64]>>(v.k%64)&1 == 1 && s.defined[v] {
				q = append(q, v)
			}
		}
		vals, err := s.getModel(q)
		if err != nil {
			return Unknown, nil, err
		}
		for i, v := range q {
			e.vars = append(e.vars, int32(v.k))
			e.vals = append(e.vals, vals[i])
		}
	case "unsat":
		e.res = Unsat
	case "unknown", "timeout":
		e.res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	s.in.WriteString("(pop 1)\n")
	if e.res == Unknown {
		return Unknown, nil, nil
	}
	s.cache[string(key)] = e
	if e.res == Sat {
		return Sat, mkModel(e), nil
	}
	return Unsat, nil, nil
}

func (s *Solver) dumpQuery(sl []*Term, extra *Term, res string, d time.Duration) {
	f, err := os.Create(fmt.Sprintf("%s/q%d-%d-%s-%dms.smt2", s.dump, os.Getpid(), time.Now().UnixNano(), res, d.Milliseconds()))
	if err != nil {
		return
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	t := &Solver{in: w, defined: map[*Term]bool{}}
	w.WriteString(smtPrelude)
	w.WriteString(smtPreludeFP)
	for _, p := range append(append([]*Term(nil), sl...), extra) {
		t.define(p)
		fmt.Fprintf(w, "(assert %s)\n", p.ref())
	}
	w.WriteString("(check-sat)\n")
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", fmt.Errorf("solver died: %v", err)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("solver: %s", l)
		}
		return l, nil
	}
}

func (s *Solver) getModel(vars []*Term) ([]uint64, error) {
	model := make([]uint64, len(vars))
	q := vars
	if len(q) == 0 {
		return model, nil
	}
	s.in.WriteString("(get-value (")
	for _, v := range q {
		s.in.WriteString(v.ref())
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	// read balanced parens
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	if len(f) != 2*len(q) {
		// (_ bvN w) forms are not produced by z3 by default
		return nil, fmt.Errorf("model parse: %s", txt)
	}
	for i := range q {
		val := f[2*i+1]
		var u uint64
		var err error
		switch {
		case strings.HasPrefix(val, "#x"):
			u, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, err = strconv.ParseUint(val[2:], 2, 64)
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		default:
			err = fmt.Errorf("value %q", val)
		}
		if err != nil {
			return nil, err
		}
		model[i] = u
	}
	return model, nil
}
