package vf

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// This file runs contracts on concrete inputs: the replay half of the checks.  It decides nothing
// on its own; it is used to turn a failed obligation into a failing input of the real code.

// G generates inputs for one iteration.
type G struct {
	R     *rand.Rand
	Hints []*big.Int
	pool  map[reflect.Type][]reflect.Value
	depth int
	gens  map[reflect.Type]reflect.Value
	impls []reflect.Type
}

func (g *G) N(n int) int         { return g.R.Intn(n) }
func (g *G) Chance(p float64) bool { return g.R.Float64() < p }

// Big returns an edge-biased integer of the given number of bits.
func (g *G) bits(n int) *big.Int {
	one := big.NewInt(1)
	switch k := g.N(10); {
	case k < 3:
		return big.NewInt(int64(g.N(5)))
	case k < 5 && len(g.Hints) > 0:
		h := new(big.Int).Set(g.Hints[g.N(len(g.Hints))])
		return h.Add(h, big.NewInt(int64(g.N(5)-2)))
	case k < 6:
		v := new(big.Int).Lsh(one, uint(g.N(n+1)))
		return v.Add(v, big.NewInt(int64(g.N(5)-2)))
	case k < 7:
		return big.NewInt(int64(g.N(300)))
	case k < 8:
		return new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), big.NewInt(int64(1+g.N(3))))
	default:
		b := g.N(n) + 1
		return new(big.Int).Rand(g.R, new(big.Int).Lsh(one, uint(b)))
	}
}

func (g *G) Uint64() uint64 { return new(big.Int).And(g.bits(64), new(big.Int).SetUint64(math.MaxUint64)).Uint64() }
func (g *G) Byte() byte     { return byte(g.Uint64()) }

// Len returns a biased length.
func (g *G) Len() int {
	switch k := g.N(20); {
	case k < 3:
		return 0
	case k < 13:
		return 1 + g.N(4)
	case k < 18:
		return 1 + g.N(20)
	case k < 19 && len(g.Hints) > 0:
		h := g.Hints[g.N(len(g.Hints))]
		if h.IsInt64() && h.Int64() >= 0 && h.Int64() < 400 {
			return int(h.Int64())
		}
		return g.N(40)
	default:
		return g.N(150)
	}
}

func (g *G) Bytes(n int) []byte {
	b := make([]byte, n)
	mode := g.N(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.R.Intn(256))
		case 1:
			b[i] = g.Byte()
		default:
			b[i] = byte(g.N(3))
		}
	}
	return b
}

// Mutate perturbs a byte string.
func (g *G) Mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := g.N(4); k > 0 && len(b) > 0; k-- {
		i := g.N(len(b))
		switch g.N(5) {
		case 0:
			b[i] ^= 1 << uint(g.N(8))
		case 1:
			b[i] = g.Byte()
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i], append(g.Bytes(1+g.N(10)), b[i:]...)...)
		case 4:
			big := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0x01}
			b = append(b[:i], append(append([]byte{}, big[g.N(len(big)):]...), b[i:]...)...)
		}
	}
	return b
}

// Fill sets *p to a generated value.
func (g *G) Fill(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	setAny(v, g.value(v.Type()))
}

func (g *G) value(t reflect.Type) reflect.Value {
	g.depth++
	defer func() { g.depth-- }()
	if f, ok := g.gens[t]; ok {
		delete(g.gens, t)
		v := f.Call([]reflect.Value{reflect.ValueOf(g)})[0]
		g.gens[t] = f
		return v
	}
	poolable := t.Kind() == reflect.Array || t.Kind() == reflect.Uint64 || t.Kind() == reflect.Uint32 || t.Kind() == reflect.String
	if poolable && len(g.pool[t]) > 0 && g.Chance(0.3) {
		return g.pool[t][g.N(len(g.pool[t]))]
	}
	v := g.value1(t)
	if poolable {
		g.pool[t] = append(g.pool[t], v)
	}
	return v
}

func (g *G) value1(t reflect.Type) reflect.Value {
	n := reflect.New(t).Elem()
	if t == reflect.TypeOf(Int{}) {
		n.Set(reflect.ValueOf(Int{g.bits(128)}))
		return n
	}
	if t == reflect.TypeOf(time.Time{}) {
		n.Set(reflect.ValueOf(time.Unix(int64(g.N(1<<31)), 0)))
		return n
	}
	if strings.HasPrefix(t.PkgPath(), "sync") {
		return n
	}
	switch t.Kind() {
	case reflect.Bool:
		n.SetBool(g.Chance(0.5))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := g.bits(t.Bits())
		if g.Chance(0.3) {
			b.Neg(b)
		}
		b.And(b, new(big.Int).SetUint64(math.MaxUint64))
		n.SetInt(int64(b.Uint64()) << uint(64-t.Bits()) >> uint(64-t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b := g.bits(t.Bits())
		b.And(b, new(big.Int).SetUint64(math.MaxUint64))
		n.SetUint(b.Uint64() << uint(64-t.Bits()) >> uint(64-t.Bits()))
	case reflect.Float32, reflect.Float64:
		n.SetFloat(float64(int64(g.Uint64())))
	case reflect.String:
		n.SetString(string(g.Bytes(g.Len())))
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			var b []byte
			switch g.N(4) {
			case 0:
				b = make([]byte, t.Len())
				if t.Len() > 0 {
					b[0] = byte(g.N(4))
				}
			case 1:
				b = make([]byte, t.Len())
				for i := range b {
					b[i] = byte(g.R.Intn(256))
				}
			default:
				b = g.Bytes(t.Len())
			}
			reflect.Copy(n, reflect.ValueOf(b).Convert(reflect.SliceOf(t.Elem())))
			return n
		}
		for i := 0; i < t.Len(); i++ {
			setAny(n.Index(i), g.value(t.Elem()))
		}
	case reflect.Slice:
		l := g.Len()
		if g.depth > 2 && t.Elem().Kind() != reflect.Uint8 {
			l = g.N(4)
		}
		if g.depth > 6 {
			l = 0
		}
		if l == 0 && g.Chance(0.5) {
			return n
		}
		if t.Elem().Kind() == reflect.Uint8 {
			s := reflect.ValueOf(g.Bytes(l))
			if s.Type().ConvertibleTo(t) {
				return s.Convert(t)
			}
		}
		s := reflect.MakeSlice(t, l, l)
		for i := 0; i < l; i++ {
			setAny(s.Index(i), g.value(t.Elem()))
		}
		return s
	case reflect.Map:
		m := reflect.MakeMap(t)
		for k := g.N(5); k > 0; k-- {
			m.SetMapIndex(g.value(t.Key()), g.value(t.Elem()))
		}
		return m
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			setAny(n.Field(i), g.value(t.Field(i).Type))
		}
	case reflect.Ptr:
		if g.depth > 6 || g.depth > 1 && g.Chance(0.15) {
			return n
		}
		p := reflect.New(t.Elem())
		setAny(p.Elem(), g.value(t.Elem()))
		return p.Convert(t)
	case reflect.Interface:
		var c []reflect.Type
		for _, i := range g.impls {
			if i.Implements(t) && t.NumMethod() > 0 {
				c = append(c, i)
			}
		}
		if len(c) == 0 || g.Chance(0.02) {
			return n
		}
		n.Set(g.value(c[g.N(len(c))]))
	}
	return n
}

var _ = unsafe.Pointer(nil)

type driveResult struct {
	Spec    string
	Runs    int64
	Skipped int64
	Fail    string
	Iter    int64
	Args    string
	Stack   string
}

// Drive runs one contract on generated inputs (environment: VF_SPEC, VF_SEED, VF_FROM, VF_COUNT,
// VF_SECS, VF_HINTS, VF_OUT, VF_PROGRESS).
func Drive(specs, gens map[string]interface{}, typeGens []interface{}, impls []interface{}) {
	name := os.Getenv("VF_SPEC")
	f, ok := specs[name]
	if !ok {
		return
	}
	geti := func(k string, d int64) int64 {
		if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
			return n
		}
		return d
	}
	seed, from, count, secs := geti("VF_SEED", 1), geti("VF_FROM", 0), geti("VF_COUNT", 1<<40), geti("VF_SECS", 5)
	alloc := geti("VF_ALLOC", 0)
	stopFail := os.Getenv("VF_CONTINUE") == ""
	debug.SetGCPercent(50)
	var hints []*big.Int
	if h, err := os.Open(os.Getenv("VF_HINTS")); err == nil {
		sc := bufio.NewScanner(h)
		for sc.Scan() {
			if n, ok := new(big.Int).SetString(strings.TrimSpace(sc.Text()), 10); ok {
				hints = append(hints, n)
			}
		}
		h.Close()
	}
	out, _ := os.Create(os.Getenv("VF_OUT"))
	prog, _ := os.Create(os.Getenv("VF_PROGRESS"))
	fv := reflect.ValueOf(f)
	res := driveResult{Spec: name}
	emit := func() {
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		out.Sync()
	}
	generate := func(i int64) (args []reflect.Value) {
		args = []reflect.Value{}
		g := &G{R: rand.New(rand.NewSource(seed*1000003 + i)), Hints: hints, pool: map[reflect.Type][]reflect.Value{}, gens: map[reflect.Type]reflect.Value{}}
		for _, tg := range typeGens {
			g.gens[reflect.TypeOf(tg).Out(0)] = reflect.ValueOf(tg)
		}
		for _, im := range impls {
			g.impls = append(g.impls, reflect.TypeOf(im))
		}
		genOK := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					genOK = false
					if os.Getenv("VF_DEBUG") != "" {
						fmt.Println("generator:", r, string(debug.Stack()))
					}
				}
			}()
			if gf, ok := gens["Gen_"+strings.TrimPrefix(name, "Spec_")]; ok {
				args = reflect.ValueOf(gf).Call([]reflect.Value{reflect.ValueOf(g)})
			} else {
				for k := 0; k < fv.Type().NumIn(); k++ {
					args = append(args, g.value(fv.Type().In(k)))
				}
			}
		}()
		if !genOK {
			return nil
		}
		return args
	}
	var cur, started int64
	var inCall int32
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if s := atomic.LoadInt64(&started); s != 0 && atomic.LoadInt32(&inCall) == 1 && time.Now().UnixNano()-s > int64(10*time.Second) {
				res.Fail, res.Iter = "does not return (10 s): hang or deadlock", atomic.LoadInt64(&cur)
				res.Args = describe(generate(res.Iter))
				emit()
				os.Exit(3)
			}
		}
	}()
	end := time.Now().Add(time.Duration(secs) * time.Second)
	var ms runtime.MemStats
	for i := from; i < from+count; i++ {
		if time.Now().After(end) {
			break
		}
		args := generate(i)
		if args == nil {
			res.Skipped++
			continue
		}
		if os.Getenv("VF_DESCRIBE") != "" {
			res.Iter, res.Args = i, describe(args)
			break
		}
		atomic.StoreInt64(&cur, i)
		atomic.StoreInt64(&started, time.Now().UnixNano())
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%20d", i)), 0)
		}
		var before uint64
		if alloc > 0 {
			runtime.ReadMemStats(&ms)
			before = ms.TotalAlloc
		}
		atomic.StoreInt32(&inCall, 1)
		fail, stack, skipped := runOne(fv, args)
		atomic.StoreInt32(&inCall, 0)
		if alloc > 0 && fail == "" {
			runtime.ReadMemStats(&ms)
			if ms.TotalAlloc-before > uint64(alloc) {
				fail = fmt.Sprintf("allocates %d bytes", ms.TotalAlloc-before)
			}
		}
		if skipped {
			res.Skipped++
			continue
		}
		res.Runs++
		if fail != "" {
			// regenerate the inputs (the call may have changed them)
			res.Fail, res.Iter, res.Stack = fail, i, stack
			res.Args = describe(generate(i))
			emit()
			if stopFail {
				os.Exit(4)
			}
			res.Fail = ""
		}
	}
	emit()
}

func runOne(fv reflect.Value, args []reflect.Value) (fail, stack string, skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			switch q := r.(type) {
			case Skip:
				skipped = true
			case Violation:
				fail = "postcondition " + q.Name + " does not hold"
			default:
				stack = string(debug.Stack())
				if panicInSpec(stack) {
					skipped = true
					return
				}
				fail = fmt.Sprintf("panic: %v", r)
				if len(stack) > 3000 {
					stack = stack[:3000]
				}
			}
		}
	}()
	fv.Call(args)
	return
}

// panicInSpec tells whether a panic arose while the contract itself evaluated something before or after
// the call under contract (other than a postcondition): such an input says nothing about the code.
func panicInSpec(stack string) bool {
	ls := strings.Split(stack, "\n")
	var frames []string // innermost first, from the panic on
	for i, l := range ls {
		if strings.HasPrefix(l, "\t") || i == 0 {
			continue
		}
		if strings.HasPrefix(l, "panic(") {
			frames = nil
			continue
		}
		frames = append(frames, l)
	}
	for i, f := range frames {
		j := strings.Index(f, ".Spec_")
		if j < 0 || strings.Contains(f[j:], ".func") {
			continue
		}
		if i == 0 {
			return true
		}
		g := frames[i-1]
		if k := strings.LastIndex(g, "("); k > 0 {
			g = g[:k]
		}
		if strings.HasSuffix(g, ".Ensures") {
			return false
		}
		for _, t := range strings.Split(os.Getenv("VF_TARGETS"), ";") {
			if t != "" && strings.HasSuffix(g, "."+t) {
				return false
			}
		}
		return true
	}
	return false
}

func describe(args []reflect.Value) string {
	s := ""
	for i, a := range args {
		s += fmt.Sprintf("arg%d = %s\n", i, trunc(dump(a, 0), 3000))
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func dump(v reflect.Value, d int) string {
	if d > 8 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Kind() == reflect.Interface {
			return dump(v.Elem(), d+1)
		}
		return "&" + dump(v.Elem(), d+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(Int{}) {
			return val(*(*Int)(unsafe.Pointer(addressable(v).UnsafeAddr()))).String()
		}
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, v.Type().Field(i).Name+":"+dump(v.Field(i), d+1))
		}
		return v.Type().Name() + "{" + strings.Join(p, " ") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			var b []byte
			for i := 0; i < v.Len(); i++ {
				b = append(b, byte(v.Index(i).Uint()))
			}
			return fmt.Sprintf("0x%x", b)
		}
		var p []string
		for i := 0; i < v.Len() && i < 200; i++ {
			p = append(p, dump(v.Index(i), d+1))
		}
		return fmt.Sprintf("%s(len %d)[%s]", v.Type(), v.Len(), strings.Join(p, ", "))
	case reflect.Map:
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, dump(k, d+1)+":"+dump(v.MapIndex(k), d+1))
		}
		return "map[" + strings.Join(p, " ") + "]"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	}
	return v.Type().String()
}
