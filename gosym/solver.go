package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math"
	"math/bits"
	"os"
	osexec "os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	RUnknown Result = iota
	RSat
	RUnsat
)

func sortStr(s Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return "(_ BitVec " + strconv.Itoa(int(s.W)) + ")"
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}
func fpParams(s Sort) string {
	if s.W == 32 {
		return "8 24"
	}
	return "11 53"
}

func bvLit(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case KBool:
			if t.val != 0 {
				return "true"
			}
			return "false"
		case KBV:
			return bvLit(t.val, int(t.sort.W))
		}
		if fpIsNaNBits(t.val, t.sort.W) {
			return "(_ NaN " + fpParams(t.sort) + ")"
		}
		if t.sort.W == 32 {
			return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", t.val>>31, t.val>>23&0xff, t.val&(1<<23-1))
		}
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", t.val>>63, t.val>>52&0x7ff, t.val&(1<<52-1))
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.FormatUint(t.id, 10)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE"}

// emitter writes definitions for terms, each at most once per solver session.
type emitter struct {
	done map[*Term]bool
	vars []*Term // variables and UF applications / FToBits seen
	b    *strings.Builder
	fp   bool

	sides  map[*Term][]*Term
	axDone map[*Term][]string
}

func newEmitter() *emitter {
	return &emitter{done: map[*Term]bool{}, b: &strings.Builder{}, sides: map[*Term][]*Term{}, axDone: map[*Term][]string{}}
}

// side lists the terms in t's cone that carry side constraints (uninterpreted
// applications and float-to-bits conversions).
func (e *emitter) side(t *Term) []*Term {
	if t.op == OConst || t.op == OVar {
		return nil
	}
	if v, ok := e.sides[t]; ok {
		return v
	}
	var r []*Term
	for i := 0; i < int(t.n); i++ {
		for _, s := range e.side(t.a[i]) {
			r = appendNew(r, s)
		}
	}
	if t.op == OUF || t.op == OFToBits {
		r = appendNew(r, t)
	}
	e.sides[t] = r
	return r
}

func appendNew(r []*Term, t *Term) []*Term {
	for _, x := range r {
		if x == t {
			return r
		}
	}
	return append(r[:len(r):len(r)], t)
}

// asserted writes t and its side constraints as assertions (in the current scope).
func (e *emitter) asserted(t *Term) string {
	e.emit(t)
	s := "(assert " + ref(t) + ")\n"
	for _, u := range e.side(t) {
		ax, ok := e.axDone[u]
		if !ok {
			if u.op == OUF {
				for _, a := range ufAxioms(u) {
					e.emit(a)
					ax = append(ax, ref(a))
				}
			} else {
				ax = append(ax, fmt.Sprintf("(= ((_ to_fp %s) %s) %s)", fpParams(u.a[0].sort), ref(u), ref(u.a[0])))
			}
			e.axDone[u] = ax
		}
		for _, a := range ax {
			s += "(assert " + a + ")\n"
		}
	}
	return s
}

func (e *emitter) emit(t *Term) {
	if t.op == OConst || e.done[t] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < int(f.t.n) {
			c := f.t.a[f.i]
			f.i++
			if c.op != OConst && !e.done[c] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		if !e.done[f.t] {
			e.done[f.t] = true
			e.def(f.t)
		}
		st = st[:len(st)-1]
	}
}

func (e *emitter) def(t *Term) {
	b := e.b
	if t.sort.K == KFP {
		e.fp = true
	}
	switch t.op {
	case OVar:
		fmt.Fprintf(b, "(declare-const |%s| %s)\n", t.name, sortStr(t.sort))
		e.vars = append(e.vars, t)
		return
	case OUF:
		fmt.Fprintf(b, "(declare-const %s %s)\n", ref(t), sortStr(t.sort))
		e.vars = append(e.vars, t)
		return
	case OFToBits:
		fmt.Fprintf(b, "(declare-const %s %s)\n", ref(t), sortStr(t.sort))
		return
	}
	fmt.Fprintf(b, "(define-fun t%d () %s ", t.id, sortStr(t.sort))
	a0 := ref(t.a[0])
	switch t.op {
	case OZExt:
		fmt.Fprintf(b, "((_ zero_extend %d) %s)", t.sort.W-t.a[0].sort.W, a0)
	case OSExt:
		fmt.Fprintf(b, "((_ sign_extend %d) %s)", t.sort.W-t.a[0].sort.W, a0)
	case OExtract:
		fmt.Fprintf(b, "((_ extract %d %d) %s)", int(t.k)+int(t.sort.W)-1, t.k, a0)
	case OFRound:
		fmt.Fprintf(b, "(fp.roundToIntegral %s %s)", []string{"RTN", "RTP", "RTZ"}[t.k], a0)
	case OFFromBits:
		fmt.Fprintf(b, "((_ to_fp %s) %s)", fpParams(t.sort), a0)
	case OFToFP, OSToF:
		fmt.Fprintf(b, "((_ to_fp %s) RNE %s)", fpParams(t.sort), a0)
	case OUToF:
		fmt.Fprintf(b, "((_ to_fp_unsigned %s) RNE %s)", fpParams(t.sort), a0)
	case OFToS:
		w := int(t.sort.W)
		s := t.a[0].sort
		lim := ref(CF(fbits(math.Ldexp(1, w-1), s.W), s))
		// in range: -lim-1 < x < lim (the lower bound is exact for 32-bit sources and for 64-bit targets)
		var lo string
		if w == 32 && s.W == 64 {
			lo = fmt.Sprintf("(fp.lt %s %s)", ref(CF(fbits(-math.Ldexp(1, w-1)-1, s.W), s)), a0)
		} else {
			lo = fmt.Sprintf("(fp.leq %s %s)", ref(CF(fbits(-math.Ldexp(1, w-1), s.W), s)), a0)
		}
		fmt.Fprintf(b, "(ite (and %s (fp.lt %s %s)) ((_ fp.to_sbv %d) RTZ %s) %s)", lo, a0, lim, w, a0, bvLit(1<<uint(w-1), w))
	case OUDiv, OURem, OMul:
		// multipliers and dividers only as wide as the values need
		k := bits.Len64(t.a[0].hi | t.a[1].hi)
		if t.op == OMul {
			k = 64
			if hh, l := bits.Mul64(t.a[0].hi, t.a[1].hi); hh == 0 {
				k = bits.Len64(l)
			}
		}
		w := int(t.sort.W)
		if k < 1 {
			k = 1
		}
		if k >= w {
			fmt.Fprintf(b, "(%s %s %s)", opNames[t.op], a0, ref(t.a[1]))
			break
		}
		nar := func(x *Term) string {
			if x.op == OConst {
				return bvLit(x.val, k)
			}
			return fmt.Sprintf("((_ extract %d 0) %s)", k-1, ref(x))
		}
		r := fmt.Sprintf("((_ zero_extend %d) (%s %s %s))", w-k, opNames[t.op], nar(t.a[0]), nar(t.a[1]))
		if t.op == OUDiv && t.a[1].lo == 0 {
			r = fmt.Sprintf("(ite (= %s %s) %s %s)", ref(t.a[1]), bvLit(0, w), bvLit(mask(uint8(w)), w), r)
		}
		b.WriteString(r)
	default:
		b.WriteByte('(')
		b.WriteString(opNames[t.op])
		for i := 0; i < int(t.n); i++ {
			b.WriteByte(' ')
			b.WriteString(ref(t.a[i]))
		}
		b.WriteByte(')')
	}
	b.WriteString(")\n")
}

// ufAxioms is the assumed contract of the uninterpreted functions: math.Pow
// with a positive constant exponent.
func ufAxioms(t *Term) []*Term {
	if t.name != "pow" {
		return nil
	}
	x, y := t.a[0], t.a[1]
	zero, one := CF(0, FP64), CF(math.Float64bits(1), FP64)
	imp := func(a, b *Term) *Term { return Or(Not(a), b) }
	posy := FCmp(OFLt, zero, y)
	integral := FCmp(OFEq, FUn(OFRound, y, 2), y)
	return []*Term{
		imp(FIsNaN(x), FIsNaN(t)),
		imp(And(And(FCmp(OFLt, x, zero), Not(FCmp(OFEq, x, CF(math.Float64bits(math.Inf(-1)), FP64)))), Not(integral)), FIsNaN(t)),
		imp(And(posy, FCmp(OFEq, x, CF(math.Float64bits(math.Inf(-1)), FP64))), Or(integral, FCmp(OFEq, t, CF(math.Float64bits(math.Inf(1)), FP64)))),
		imp(And(posy, FCmp(OFLe, zero, x)), FCmp(OFLe, zero, t)),
		imp(And(posy, And(FCmp(OFLe, zero, x), FCmp(OFLe, x, one))), FCmp(OFLe, t, one)),
		imp(And(posy, FCmp(OFLe, one, x)), FCmp(OFLe, one, t)),
		imp(And(posy, FCmp(OFEq, x, zero)), FCmp(OFEq, t, zero)),
		imp(And(posy, FCmp(OFEq, x, one)), FCmp(OFEq, t, one)),
	}
}

// ---- incremental solver session ----

type Stats struct {
	Queries, Sat, Unsat, Unknown, Shortcut int64
	OneShot                                int64
	CacheHits, Splits, IntQueries          int64
	TimeNS                                 int64
}

type Solver struct {
	cmd             *osexec.Cmd
	in              *bufio.Writer
	inC             io.WriteCloser
	out             *bufio.Reader
	em              *emitter
	stack           []*Term
	nq              int
	st              *Stats
	argv            []string
	tmoMS           int
	lines           chan string
	aux             *Solver
	niaS            *intSolver
	curTmo, nextTmo int // milliseconds; nextTmo applies to the next query
}

func newSolver(st *Stats, tmoMS int) *Solver {
	return &Solver{st: st, argv: []string{"z3-new", "-in", "-smt2"}, tmoMS: tmoMS}
}

func (s *Solver) start() {
	s.cmd = osexec.Command(s.argv[0], s.argv[1:]...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
	s.curTmo = s.tmoMS
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.em = newEmitter()
	s.stack = nil
	s.nq = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.tmoMS)
}

func (s *Solver) close() {
	s.niaS.close()
	s.niaS = nil
	if s.aux != nil {
		s.aux.close()
		s.aux = nil
	}
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) flushEmit() {
	if s.em.b.Len() > 0 {
		s.in.WriteString(s.em.b.String())
		s.em.b.Reset()
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
		if err != nil {
			return "", err
		}
	}
}

// check decides pc /\ extra. On sat it returns a model.
func (s *Solver) check(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.st.TimeNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.st.Queries, 1)
	if s.cmd != nil && (s.nq > 4000 || len(s.em.done) > 200000) {
		s.close()
	}
	if s.cmd == nil {
		s.start()
	}
	s.nq++
	tmo := s.tmoMS
	if s.nextTmo > 0 {
		tmo, s.nextTmo = s.nextTmo, 0
	}
	if tmo != s.curTmo {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", tmo)
		s.curTmo = tmo
	}
	// common prefix
	i := 0
	for i < len(s.stack) && i < len(pc) && s.stack[i] == pc[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
	}
	s.stack = s.stack[:i]
	for ; i < len(pc); i++ {
		as := s.em.asserted(pc[i])
		s.flushEmit()
		s.in.WriteString("(push 1)\n" + as)
		s.stack = append(s.stack, pc[i])
	}
	if extra != nil {
		as := s.em.asserted(extra)
		s.flushEmit()
		s.in.WriteString("(push 1)\n" + as)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	wd := time.AfterFunc(time.Duration(s.tmoMS+3000)*time.Millisecond, func() { s.cmd.Process.Kill() })
	l, err := s.readLine()
	wd.Stop()
	var m *Model
	r := RUnknown
	if err != nil || strings.Contains(l, "error") {
		if err == nil {
			fmt.Fprintln(os.Stderr, "solver:", l)
		}
		atomic.AddInt64(&s.st.Unknown, 1)
		s.close()
		return RUnknown, nil
	}
	switch l {
	case "sat":
		r = RSat
		atomic.AddInt64(&s.st.Sat, 1)
		if wantModel {
			m, err = s.model()
			if err != nil {
				fmt.Fprintln(os.Stderr, "solver model:", err)
				s.close()
				return RUnknown, nil
			}
		}
	case "unsat":
		r = RUnsat
		atomic.AddInt64(&s.st.Unsat, 1)
	default:
		atomic.AddInt64(&s.st.Unknown, 1)
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return r, m.realUF(pc, extra)
}

func (s *Solver) model() (*Model, error) {
	m := newModel()
	if len(s.em.vars) == 0 {
		return m, nil
	}
	// only variables relevant to the asserted stack would be enough; ask for all declared ones
	s.in.WriteString("(get-value (")
	for _, v := range s.em.vars {
		s.in.WriteString(ref(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	if err := parseValues(txt, s.em.vars, m); err != nil {
		return nil, err
	}
	return m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((name value) ...) in order of vars.
func parseValues(txt string, vars []*Term, m *Model) error {
	p := &sparser{s: txt}
	x := p.parse()
	l, ok := x.([]any)
	if !ok || len(l) != len(vars) {
		return fmt.Errorf("bad get-value answer: %.200s", txt)
	}
	for i, v := range vars {
		pr, ok := l[i].([]any)
		if !ok || len(pr) != 2 {
			return fmt.Errorf("bad pair")
		}
		val, ok := sval(pr[1])
		if !ok {
			return fmt.Errorf("bad value %v", pr[1])
		}
		if v.op == OVar {
			m.vars[v.name] = val
		} else {
			m.uf[v] = val
			if v.op == OUF {
				m.hasUF = true
			}
		}
	}
	return nil
}

type sparser struct {
	s string
	i int
}

func (p *sparser) parse() any {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\r' || p.s[p.i] == '\t') {
		p.i++
	}
	if p.i >= len(p.s) {
		return nil
	}
	if p.s[p.i] == '(' {
		p.i++
		l := []any{}
		for {
			for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n') {
				p.i++
			}
			if p.i >= len(p.s) {
				return l
			}
			if p.s[p.i] == ')' {
				p.i++
				return l
			}
			l = append(l, p.parse())
		}
	}
	if p.s[p.i] == '|' {
		j := strings.IndexByte(p.s[p.i+1:], '|') + p.i + 1
		r := p.s[p.i : j+1]
		p.i = j + 1
		return r
	}
	j := p.i
	for j < len(p.s) && p.s[j] != ' ' && p.s[j] != ')' && p.s[j] != '(' && p.s[j] != '\n' {
		j++
	}
	r := p.s[p.i:j]
	p.i = j
	return r
}

func sval(x any) (uint64, bool) {
	switch v := x.(type) {
	case string:
		switch {
		case v == "true":
			return 1, true
		case v == "false":
			return 0, true
		case strings.HasPrefix(v, "#x"):
			r, err := strconv.ParseUint(v[2:], 16, 64)
			return r, err == nil
		case strings.HasPrefix(v, "#b"):
			r, err := strconv.ParseUint(v[2:], 2, 64)
			return r, err == nil
		case v != "" && v[0] >= '0' && v[0] <= '9':
			r, err := strconv.ParseUint(v, 10, 64)
			return r, err == nil
		}
	case []any:
		if len(v) == 4 && v[0] == "fp" {
			s, _ := sval(v[1])
			e, _ := sval(v[2])
			m, ok := sval(v[3])
			if len(v[2].(string)) > 6 && strings.HasPrefix(v[2].(string), "#b") && len(v[2].(string)) == 13 {
				return s<<63 | e<<52 | m, ok
			}
			return s<<31 | e<<23 | m, ok
		}
		if len(v) == 4 && v[0] == "_" {
			is32 := v[2] == "8"
			switch v[1] {
			case "NaN":
				if is32 {
					return 0x7fc00000, true
				}
				return 0x7ff8000000000000, true
			case "+oo":
				if is32 {
					return 0x7f800000, true
				}
				return 0x7ff0000000000000, true
			case "-oo":
				if is32 {
					return 0xff800000, true
				}
				return 0xfff0000000000000, true
			case "+zero":
				return 0, true
			case "-zero":
				if is32 {
					return 0x80000000, true
				}
				return 1 << 63, true
			}
		}
		if len(v) == 3 && v[0] == "_" {
			if n, ok := v[1].(string); ok && strings.HasPrefix(n, "bv") {
				r, err := strconv.ParseUint(n[2:], 10, 64)
				return r, err == nil
			}
		}
	}
	return 0, false
}

// ---- one-shot portfolio for hard queries ----

// oneShot runs several back ends on the same query and takes the first
// definite answer.
var oneShotSem = make(chan struct{}, 12)

func oneShot(st *Stats, pc []*Term, extra *Term, tmo time.Duration) (Result, *Model, string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&st.TimeNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&st.OneShot, 1)
	atomic.AddInt64(&st.Queries, 1)
	em := newEmitter()
	for _, c := range pc {
		as := em.asserted(c)
		em.b.WriteString(as)
	}
	if extra != nil {
		as := em.asserted(extra)
		em.b.WriteString(as)
	}
	body := em.b.String()
	var gv strings.Builder
	if len(em.vars) > 0 {
		gv.WriteString("(get-value (")
		for _, v := range em.vars {
			gv.WriteString(ref(v) + " ")
		}
		gv.WriteString("))\n")
	}
	logic := "QF_BV"
	if em.fp {
		logic = "QF_BVFP"
	}
	secs := int(tmo.Seconds())
	if secs < 1 {
		secs = 1
	}
	type be struct {
		name string
		argv []string
		pre  string
	}
	bes := []be{
		{"z3-new", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs)}, "(set-logic " + logic + ")\n"},
		{"cvc5-intblast", []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic QF_BV)\n"},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic " + logic + ")\n"},
	}
	if em.fp {
		bes = []be{bes[0], bes[2]}
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo+2*time.Second)
	defer cancel()
	type ans struct {
		r    Result
		m    *Model
		name string
	}
	ch := make(chan ans, len(bes))
	var wg sync.WaitGroup
	for _, b := range bes {
		wg.Add(1)
		go func(b be) {
			defer wg.Done()
			oneShotSem <- struct{}{}
			defer func() { <-oneShotSem }()
			if ctx.Err() != nil {
				ch <- ans{}
				return
			}
			cmd := osexec.CommandContext(ctx, b.argv[0], b.argv[1:]...)
			cmd.Stdin = strings.NewReader("(set-option :produce-models true)\n" + b.pre + body + "(check-sat)\n" + gv.String() + "(exit)\n")
			out, _ := cmd.Output()
			s := string(out)
			first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
			switch first {
			case "unsat":
				ch <- ans{RUnsat, nil, b.name}
				return
			case "sat":
				m := newModel()
				if len(em.vars) > 0 {
					if err := parseValues(s[strings.Index(s, "sat")+3:], em.vars, m); err != nil {
						ch <- ans{}
						return
					}
				}
				ch <- ans{RSat, m, b.name}
				return
			}
			ch <- ans{}
		}(b)
	}
	var res ans
	for range bes {
		a := <-ch
		if a.r != RUnknown {
			res = a
			break
		}
	}
	cancel()
	switch res.r {
	case RSat:
		atomic.AddInt64(&st.Sat, 1)
	case RUnsat:
		atomic.AddInt64(&st.Unsat, 1)
	default:
		atomic.AddInt64(&st.Unknown, 1)
	}
	return res.r, res.m.realUF(pc, extra), res.name
}
