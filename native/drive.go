package zzverif

// Native replay driver: executes a contract harness on concrete inputs, either given
// (a solver model, a stored replay) or drawn at random.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type entry struct {
	f        interface{}
	maypanic bool
	fix      []int64
}

var reg = map[string]entry{}

func Register(name string, f interface{}, maypanic bool, fix ...int64) {
	reg[name] = entry{f, maypanic, fix}
}

// node is a concrete Go value in a replay file.
type node struct {
	I *string          `json:"i,omitempty"` // integer
	B *bool            `json:"b,omitempty"`
	S *string          `json:"s,omitempty"` // string
	X *string          `json:"x,omitempty"` // bytes in hex
	E []*node          `json:"e,omitempty"` // elements / fields
	P string           `json:"p,omitempty"` // pointer identity
	V *node            `json:"v,omitempty"` // pointee
	N bool             `json:"n,omitempty"` // nil
	M [][2]*node       `json:"m,omitempty"`
	_ map[string]*node `json:"-"`
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var bigT = reflect.TypeOf(big.Int{})

func decode(n *node, v reflect.Value, refs map[string]reflect.Value) {
	v = settable(v)
	if n == nil || n.N {
		return
	}
	if v.Type() == bigT {
		if n.I != nil {
			b, ok := new(big.Int).SetString(*n.I, 10)
			if ok {
				v.Addr().Interface().(*big.Int).Set(b)
			}
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if n.B != nil {
			v.SetBool(*n.B)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.I != nil {
			x, _ := strconv.ParseInt(*n.I, 10, 64)
			v.SetInt(x)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if n.I != nil {
			x, _ := strconv.ParseUint(*n.I, 10, 64)
			v.SetUint(x)
		}
	case reflect.String:
		if n.S != nil {
			v.SetString(*n.S)
		}
	case reflect.Ptr:
		if n.V == nil && n.P == "" {
			return
		}
		k := n.P + "|" + v.Type().String()
		if n.P != "" {
			if r, ok := refs[k]; ok {
				v.Set(r)
				return
			}
		}
		p := reflect.New(v.Type().Elem())
		if n.P != "" {
			refs[k] = p.Convert(v.Type())
		}
		decode(n.V, p.Elem(), refs)
		v.Set(p.Convert(v.Type()))
	case reflect.Slice:
		if n.X != nil && v.Type().Elem().Kind() == reflect.Uint8 {
			b := unhex(*n.X)
			s := reflect.MakeSlice(v.Type(), len(b), len(b))
			reflect.Copy(s, reflect.ValueOf(b).Convert(reflect.SliceOf(s.Type().Elem())))
			v.Set(s)
			return
		}
		s := reflect.MakeSlice(v.Type(), len(n.E), len(n.E))
		for i, e := range n.E {
			decode(e, s.Index(i), refs)
		}
		v.Set(s)
	case reflect.Array:
		if n.X != nil {
			b := unhex(*n.X)
			for i := 0; i < v.Len() && i < len(b); i++ {
				settable(v.Index(i)).SetUint(uint64(b[i]))
			}
			return
		}
		for i, e := range n.E {
			if i < v.Len() {
				decode(e, v.Index(i), refs)
			}
		}
	case reflect.Struct:
		for i, e := range n.E {
			if i < v.NumField() {
				decode(e, v.Field(i), refs)
			}
		}
	}
}

func unhex(s string) []byte {
	var b []byte
	for i := 0; i+1 < len(s); i += 2 {
		x, _ := strconv.ParseUint(s[i:i+2], 16, 8)
		b = append(b, byte(x))
	}
	return b
}

func sp(s string) *string { return &s }

func encode(v reflect.Value, depth int) *node {
	if depth > 12 {
		return &node{N: true}
	}
	if v.CanAddr() {
		v = settable(v)
	} else {
		p := reflect.New(v.Type())
		if v.CanInterface() {
			p.Elem().Set(v)
		}
		v = p.Elem()
	}
	if v.Type() == bigT {
		return &node{I: sp(v.Addr().Interface().(*big.Int).String())}
	}
	switch v.Kind() {
	case reflect.Bool:
		b := v.Bool()
		return &node{B: &b}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &node{I: sp(strconv.FormatInt(v.Int(), 10))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return &node{I: sp(strconv.FormatUint(v.Uint(), 10))}
	case reflect.String:
		return &node{S: sp(v.String())}
	case reflect.Ptr:
		if v.IsNil() {
			return &node{N: true}
		}
		return &node{P: fmt.Sprintf("%x", v.Pointer()), V: encode(v.Elem(), depth+1)}
	case reflect.Slice:
		if v.IsNil() {
			return &node{N: true}
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			s := ""
			for i := 0; i < v.Len(); i++ {
				s += fmt.Sprintf("%02x", v.Index(i).Uint())
			}
			return &node{X: &s}
		}
		n := &node{}
		for i := 0; i < v.Len(); i++ {
			n.E = append(n.E, encode(v.Index(i), depth+1))
		}
		return n
	case reflect.Struct:
		n := &node{}
		for i := 0; i < v.NumField(); i++ {
			n.E = append(n.E, encode(v.Field(i), depth+1))
		}
		return n
	}
	return &node{N: true}
}

// ---- random values

type gen struct {
	r      *rand.Rand
	consts []*big.Int
	recent []*big.Int
	bytes  [][]byte
	ptrs   map[reflect.Type][]reflect.Value
}

func (g *gen) rawInt() *big.Int {
	switch g.r.Intn(8) {
	case 0, 1:
		return big.NewInt(int64(g.r.Intn(16)))
	case 2:
		if len(g.consts) > 0 {
			c := new(big.Int).Set(g.consts[g.r.Intn(len(g.consts))])
			return c.Add(c, big.NewInt(int64(g.r.Intn(5)-2)))
		}
		return big.NewInt(int64(g.r.Intn(256)))
	case 3, 4:
		if len(g.recent) > 0 {
			c := new(big.Int).Set(g.recent[g.r.Intn(len(g.recent))])
			switch g.r.Intn(6) {
			case 0:
				c.Neg(c)
			case 1:
				c.Lsh(c, 1)
			case 2:
				c.Rsh(c, 1)
			}
			return c.Add(c, big.NewInt(int64(g.r.Intn(5)-2)))
		}
		return big.NewInt(int64(g.r.Intn(1000)))
	case 5:
		k := []uint{7, 8, 15, 16, 31, 32, 62, 63, 64, 127, 128, 255, 256}[g.r.Intn(13)]
		c := new(big.Int).Lsh(big.NewInt(1), k)
		return c.Add(c, big.NewInt(int64(g.r.Intn(5)-2)))
	default:
		return new(big.Int).Rand(g.r, new(big.Int).Lsh(big.NewInt(1), uint(1+g.r.Intn(70))))
	}
}

func (g *gen) int() *big.Int {
	x := g.rawInt()
	if len(g.recent) < 24 {
		g.recent = append(g.recent, x)
	}
	return x
}

func (g *gen) wrap(x *big.Int, bits int, signed bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	y := new(big.Int).Mod(x, m)
	if signed && y.Bit(bits-1) == 1 {
		y.Sub(y, m)
	}
	return y
}

func (g *gen) fill(v reflect.Value, depth int) {
	v = settable(v)
	if v.Type() == bigT {
		x := g.int()
		if g.r.Intn(6) == 0 {
			x = new(big.Int).Rand(g.r, new(big.Int).Lsh(big.NewInt(1), uint(1+g.r.Intn(260))))
		}
		if g.r.Intn(8) == 0 {
			x = new(big.Int).Neg(x)
		}
		v.Addr().Interface().(*big.Int).Set(x)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.wrap(g.int(), v.Type().Bits(), true).Int64())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(g.wrap(g.int(), v.Type().Bits(), false).Uint64())
	case reflect.String:
		v.SetString(string(g.rbytes()))
	case reflect.Ptr:
		if depth > 6 || (depth > 0 && g.r.Intn(10) == 0) {
			return
		}
		if l := g.ptrs[v.Type()]; len(l) > 0 && g.r.Intn(8) == 0 {
			v.Set(l[g.r.Intn(len(l))])
			return
		}
		p := reflect.New(v.Type().Elem())
		g.fill(p.Elem(), depth+1)
		v.Set(p.Convert(v.Type()))
		if len(g.ptrs[v.Type()]) < 8 {
			g.ptrs[v.Type()] = append(g.ptrs[v.Type()], p.Convert(v.Type()))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := g.rbytes()
			if b == nil {
				return
			}
			s := reflect.MakeSlice(v.Type(), len(b), len(b)+g.r.Intn(3))
			for i := range b {
				s.Index(i).SetUint(uint64(b[i]))
			}
			v.Set(s)
			return
		}
		if depth > 5 || g.r.Intn(12) == 0 {
			return
		}
		n := g.r.Intn(5)
		if g.r.Intn(6) == 0 {
			n = g.r.Intn(12)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := g.rbytesN(v.Len())
			for i := range b {
				settable(v.Index(i)).SetUint(uint64(b[i]))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), depth+1)
		}
	case reflect.Map:
		if g.r.Intn(6) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := g.r.Intn(4); i > 0; i-- {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(k, depth+1)
			g.fill(e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	}
}

func (g *gen) rbytesN(n int) []byte {
	b := make([]byte, n)
	switch g.r.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		if n > 0 {
			b[g.r.Intn(n)] = byte(g.r.Intn(256))
		}
	case 3, 4:
		for _, x := range g.bytes {
			if len(x) == n && g.r.Intn(2) == 0 {
				copy(b, x)
				if g.r.Intn(2) == 0 && n > 0 {
					b[g.r.Intn(n)] ^= byte(1 << uint(g.r.Intn(8)))
				}
				return b
			}
		}
		g.r.Read(b)
	default:
		g.r.Read(b)
	}
	if len(g.bytes) < 16 {
		g.bytes = append(g.bytes, b)
	}
	return b
}

func (g *gen) rbytes() []byte {
	n := 0
	switch g.r.Intn(8) {
	case 0:
		if g.r.Intn(2) == 0 {
			return nil
		}
	case 1, 2:
		n = g.r.Intn(4)
	case 3:
		n = []int{8, 10, 16, 20, 21, 24, 31, 32, 33, 36, 40, 55, 63, 64, 65}[g.r.Intn(15)]
	case 4:
		if len(g.bytes) > 0 {
			n = len(g.bytes[g.r.Intn(len(g.bytes))])
		}
	case 5:
		n = g.r.Intn(200)
	default:
		n = g.r.Intn(40)
	}
	return g.rbytesN(n)
}

type outcome struct {
	bad    bool
	skip   bool
	clause string
}

func runOne(e entry, args []reflect.Value) (o outcome) {
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case Skip:
				o.skip = true
			case Fail:
				o.bad = true
				o.clause = y.Name
			default:
				if e.maypanic {
					o.skip = true
					return
				}
				st := string(debug.Stack())
				o.bad = true
				o.clause = fmt.Sprintf("panic: %v", x)
				for _, l := range strings.Split(st, "\n") {
					if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "zz_") {
						o.clause += " at " + strings.TrimSpace(l)
						break
					}
				}
			}
		}
	}()
	for i := 0; i+1 < len(e.fix); i += 2 {
		t := reflect.TypeOf(e.f).In(int(e.fix[i]))
		args[e.fix[i]] = reflect.ValueOf(e.fix[i+1]).Convert(t)
	}
	reflect.ValueOf(e.f).Call(args)
	return
}

type result struct {
	Contract string  `json:"contract"`
	Found    bool    `json:"found"`
	Clause   string  `json:"clause,omitempty"`
	Source   string  `json:"source,omitempty"`
	Args     []*node `json:"args,omitempty"`
	Runs     int     `json:"runs"`
	Skipped  int     `json:"skipped"`
	Err      string  `json:"err,omitempty"`
}

// Main is the entry point of the replay binary.
func Main() {
	name := flag.String("c", "", "contract")
	secs := flag.Float64("t", 10, "seconds of random search")
	seed := flag.Int64("seed", 1, "seed")
	models := flag.String("models", "", "file with argument lists (JSON)")
	consts := flag.String("consts", "", "comma separated constants")
	list := flag.Bool("list", false, "list")
	flag.Parse()
	if *list {
		var ns []string
		for k := range reg {
			ns = append(ns, k)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	res := result{Contract: *name}
	emit := func() {
		b, _ := json.Marshal(res)
		fmt.Println("RESULT " + string(b))
		os.Exit(0)
	}
	e, ok := reg[*name]
	if !ok {
		res.Err = "no such contract"
		emit()
	}
	ft := reflect.TypeOf(e.f)
	g := &gen{r: rand.New(rand.NewSource(*seed))}
	for _, s := range strings.Split(*consts, ",") {
		if b, ok := new(big.Int).SetString(s, 10); ok {
			g.consts = append(g.consts, b)
		}
	}
	mk := func() []reflect.Value {
		var a []reflect.Value
		for i := 0; i < ft.NumIn(); i++ {
			a = append(a, reflect.New(ft.In(i)).Elem())
		}
		return a
	}
	try := func(a []reflect.Value, src string, enc []*node) bool {
		o := runOne(e, a)
		res.Runs++
		if o.skip {
			res.Skipped++
		}
		if o.bad {
			res.Found = true
			res.Clause = o.clause
			res.Source = src
			res.Args = enc
			return true
		}
		return false
	}
	var lists [][]*node
	if *models != "" {
		b, err := os.ReadFile(*models)
		if err == nil {
			if err := json.Unmarshal(b, &lists); err != nil {
				res.Err = err.Error()
			}
		}
		for _, l := range lists {
			a := mk()
			refs := map[string]reflect.Value{}
			for i := range a {
				if i < len(l) {
					decode(l[i], a[i], refs)
				}
			}
			if try(a, "model", l) {
				emit()
			}
		}
	}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	for it := 0; time.Now().Before(end); it++ {
		draw := func() ([]reflect.Value, string) {
			g.r = rand.New(rand.NewSource(*seed*1000003 + int64(it)))
			g.recent = g.recent[:0]
			g.bytes = g.bytes[:0]
			g.ptrs = map[reflect.Type][]reflect.Value{}
			a := mk()
			if len(lists) > 0 && g.r.Intn(3) == 0 {
				l := lists[g.r.Intn(len(lists))]
				refs := map[string]reflect.Value{}
				for i := range a {
					if i < len(l) && g.r.Intn(4) > 0 {
						decode(l[i], a[i], refs)
						continue
					}
					g.fill(a[i], 0)
				}
				return a, "model-mutation"
			}
			for i := range a {
				g.fill(a[i], 0)
			}
			return a, "random"
		}
		a, src := draw()
		if try(a, src, nil) {
			a, _ = draw()
			for i := range a {
				res.Args = append(res.Args, encode(a[i], 0))
			}
			emit()
		}
	}
	emit()
}
