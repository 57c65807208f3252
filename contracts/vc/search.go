package vc

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Arg is a concrete lemma argument.
type Arg struct {
	Kind  string `json:"kind"` // bytes, int, bool, string, msg, struct, free (any value)
	Hex   string `json:"hex,omitempty"`
	Spare int    `json:"spare,omitempty"` // spare capacity behind the bytes
	Nil   bool   `json:"nil,omitempty"`
	Int   string `json:"int,omitempty"`
	Str   string `json:"str,omitempty"`
	Name  string `json:"name,omitempty"`

	Fields []Arg `json:"fields,omitempty"` // of a struct
}

// Request drives a replay or a search for a failing input.
type Request struct {
	Lemma   string   `json:"lemma"`
	Inputs  [][]Arg  `json:"inputs"`
	Seconds float64  `json:"seconds"`
	Seed    int64    `json:"seed"`
	Corpus  []string `json:"corpus"`
	Names   []string `json:"names"`
	Consts  []int64  `json:"consts"`
	Out     string   `json:"out"`
}

// Report is the outcome.
type Report struct {
	Lemma   string `json:"lemma"`
	Failed  bool   `json:"failed"`
	What    string `json:"what,omitempty"`
	Input   []Arg  `json:"input,omitempty"`
	Execs   int    `json:"execs"`
	Skipped int    `json:"skipped"`
	Source  string `json:"source,omitempty"`
}

// Main is called by the generated test: lemmas maps names to lemma functions.
func Main(lemmas map[string]any) error {
	p := os.Getenv("VERIF_REQUEST")
	if p == "" {
		return nil
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	var reqs []Request
	if err := json.Unmarshal(b, &reqs); err != nil {
		return err
	}
	var reps []Report
	for _, r := range reqs {
		fn := lemmas[r.Lemma]
		if fn == nil {
			reps = append(reps, Report{Lemma: r.Lemma, What: "no such lemma"})
			continue
		}
		reps = append(reps, search(fn, r))
		out, _ := json.MarshalIndent(reps, "", " ")
		if err := os.WriteFile(reqs[0].Out, out, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Contract is a function with its contract.
type Contract struct{ F, K any }

func typeOf(fn any) reflect.Type {
	if c, ok := fn.(Contract); ok {
		fn = c.F
	}
	return reflect.TypeOf(fn)
}

func search(fn any, r Request) Report {
	rep := Report{Lemma: r.Lemma}
	ft := typeOf(fn)
	try := func(args []Arg, src string) bool {
		for i := range args {
			if i < len(r.Names) {
				args[i].Name = r.Names[i]
			}
		}
		what, skipped := runOnce(fn, args, r, &rep)
		rep.Execs++
		if skipped {
			rep.Skipped++
		}
		if what != "" {
			rep.Failed, rep.What, rep.Input, rep.Source = true, what, args, src
			return true
		}
		return false
	}
	g := &gen{consts: r.Consts, r: rand.New(rand.NewSource(r.Seed)), seeds: map[int][]Arg{}}
	for _, f := range r.Corpus {
		b, err := os.ReadFile(f)
		if strings.HasSuffix(f, ".b64") {
			if d, e := base64.StdEncoding.DecodeString(strings.Join(strings.Fields(string(b)), "")); e == nil {
				b = d
			}
		}
		if err == nil && len(b) > 0 && len(b) < 1<<20 {
			g.files = append(g.files, b)
		}
	}
	for _, in := range r.Inputs {
		if len(in) != ft.NumIn() {
			continue
		}
		n := 1
		for _, a := range in {
			if a.Kind == "free" {
				n = 500
			}
		}
		for ; n > 0; n-- {
			args := append([]Arg{}, in...)
			for i, a := range in {
				if a.Kind == "free" {
					args[i] = g.arg(-1, ft.In(i))
				}
			}
			if try(args, "verifier counterexample") {
				return rep
			}
		}
	}
	for _, in := range r.Inputs {
		for i, a := range in {
			if a.Kind == "free" {
				continue
			}
			g.seeds[i] = append(g.seeds[i], a)
		}
	}
	var good [][]Arg
	deadline := time.Now().Add(time.Duration(r.Seconds * float64(time.Second)))
	for time.Now().Before(deadline) {
		var args []Arg
		if len(good) > 0 && g.r.Intn(3) == 0 {
			base := good[g.r.Intn(len(good))]
			for i, a := range base {
				if g.r.Intn(2) == 0 {
					a = g.mutate(a, ft.In(i))
				}
				args = append(args, a)
			}
		} else {
			for i := 0; i < ft.NumIn(); i++ {
				args = append(args, g.arg(i, ft.In(i)))
			}
		}
		sk := rep.Skipped
		if try(args, "search") {
			return rep
		}
		if rep.Skipped == sk {
			if len(good) < 200 {
				good = append(good, args)
			} else if g.r.Intn(20) == 0 {
				good[g.r.Intn(200)] = args
			}
		}
	}
	return rep
}

func runOnce(fn any, args []Arg, r Request, rep *Report) (what string, skipped bool) {
	ft := typeOf(fn)
	var vals []reflect.Value
	type watch struct{ all, orig []byte }
	var ws []watch
	var ms, mo []proto.Message
	for i, a := range args {
		v, all := a.value(ft.In(i))
		vals = append(vals, v)
		if v.Kind() == reflect.Ptr && !v.IsNil() && !strings.HasPrefix(a.Name, "dst") {
			if m, ok := v.Interface().(proto.Message); ok {
				ms, mo = append(ms, m), append(mo, proto.Clone(m))
			}
		}
		if all != nil {
			ws = append(ws, watch{all, append([]byte{}, all...)})
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case Skip:
					skipped = true
				case Failure:
					what = y.Error()
				default:
					buf := make([]byte, 4096)
					n := runtime.Stack(buf, false)
					what = fmt.Sprintf("panic: %v\n%s", x, buf[:n])
				}
			}
		}()
		if c, ok := fn.(Contract); ok {
			// the body, then its contract on the arguments and results
			reflect.ValueOf(c.K).Call(append(append([]reflect.Value{}, vals...), reflect.ValueOf(c.F).Call(vals)...))
		} else {
			reflect.ValueOf(fn).Call(vals)
		}
		for i := range ms {
			if !proto.Equal(ms[i], mo[i]) {
				what = "frame: an input message was changed"
			}
		}
		for _, w := range ws {
			if string(w.all) != string(w.orig) {
				what = "frame: memory behind an input slice was written"
			}
		}
	}()
	t := time.NewTimer(10 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		return "does not terminate (10 s)", false
	}
	return
}

func (a Arg) value(t reflect.Type) (reflect.Value, []byte) {
	switch t.Kind() {
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if a.Nil {
				return reflect.Zero(t), nil
			}
			b, _ := hex.DecodeString(a.Hex)
			all := make([]byte, len(b)+a.Spare)
			copy(all, b)
			for i := len(b); i < len(all); i++ {
				all[i] = 0xa5
			}
			v := all[:len(b):len(all)]
			if strings.HasPrefix(a.Name, "dst") {
				return reflect.ValueOf(v).Convert(t), nil
			}
			return reflect.ValueOf(v).Convert(t), all
		}
	case reflect.String:
		return reflect.ValueOf(a.Str).Convert(t), nil
	case reflect.Bool:
		return reflect.ValueOf(a.Int == "1").Convert(t), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var x int64
		if _, err := fmt.Sscan(a.Int, &x); err != nil {
			var u uint64
			fmt.Sscan(a.Int, &u)
			x = int64(u)
		}
		v := reflect.New(t).Elem()
		if v.CanInt() {
			v.SetInt(x)
		} else {
			v.SetUint(uint64(x) & (1<<(uint(t.Bits())-1)<<1 - 1))
		}
		return v, nil
	case reflect.Struct:
		v := reflect.New(t).Elem()
		for i := 0; i < t.NumField() && i < len(a.Fields); i++ {
			if v.Field(i).CanSet() {
				x, _ := a.Fields[i].value(t.Field(i).Type)
				v.Field(i).Set(x)
			}
		}
		return v, nil
	case reflect.Ptr:
		if a.Nil {
			return reflect.Zero(t), nil
		}
		v := reflect.New(t.Elem())
		if m, ok := v.Interface().(proto.Message); ok {
			b, _ := hex.DecodeString(a.Hex)
			_ = proto.Unmarshal(b, m)
		}
		return v, nil
	}
	return reflect.Zero(t), nil
}

type gen struct {
	r     *rand.Rand
	seeds map[int][]Arg
	files [][]byte

	consts []int64
}

var lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 24, 27, 28, 31, 32, 35, 36, 37, 48, 51, 52, 53, 64, 65, 72, 80, 100, 128, 129, 143, 194, 256, 300, 512, 1024, 2000, 4095, 4097, 5000, 9000, 65530, 65540, 66000}

func (g *gen) length() int {
	if len(g.consts) > 0 && g.r.Intn(3) == 0 {
		n := g.consts[g.r.Intn(len(g.consts))]
		switch g.r.Intn(6) {
		case 0:
			n += g.consts[g.r.Intn(len(g.consts))]
		case 1:
			n *= int64(g.r.Intn(20))
		case 2:
			n += g.consts[g.r.Intn(len(g.consts))] * int64(g.r.Intn(20))
		case 3:
			n += int64(g.r.Intn(5)) - 2
		}
		if n >= 0 && n < 200000 {
			return int(n)
		}
	}
	switch g.r.Intn(10) {
	case 0, 1, 2, 3:
		return g.r.Intn(80)
	case 4, 5:
		return g.r.Intn(600)
	case 6:
		return g.r.Intn(10000)
	}
	return lens[g.r.Intn(len(lens))]
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	switch g.r.Intn(7) {
	case 0:
		g.r.Read(b)
	case 1: // small values
		for i := range b {
			b[i] = byte(g.r.Intn(8))
		}
	case 2: // sparse
		for i := 0; i < n/8+1 && n > 0; i++ {
			b[g.r.Intn(n)] = byte(g.r.Intn(256))
		}
	case 3: // digits and letters
		const al = "0123456789ABCDEF \x00\x01\xff"
		for i := range b {
			b[i] = al[g.r.Intn(len(al))]
		}
	case 4: // binary coded decimals
		for i := range b {
			b[i] = byte(g.r.Intn(10)<<4 | g.r.Intn(10))
		}
	case 5: // from a file
		if len(g.files) > 0 {
			f := g.files[g.r.Intn(len(g.files))]
			o := g.r.Intn(len(f))
			if g.r.Intn(3) == 0 {
				o = 0
			}
			copy(b, f[o:])
			if g.r.Intn(2) == 0 && n > 0 {
				b[g.r.Intn(n)] = byte(g.r.Intn(256))
			}
		} else {
			g.r.Read(b)
		}
	case 6: // structured 16-bit small numbers
		for i := 0; i+1 < n; i += 2 {
			b[i+1] = byte(g.r.Intn(16))
		}
	}
	return b
}

func (g *gen) arg(i int, t reflect.Type) Arg {
	if s := g.seeds[i]; len(s) > 0 && g.r.Intn(4) == 0 {
		return g.mutate(s[g.r.Intn(len(s))], t)
	}
	switch t.Kind() {
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if g.r.Intn(40) == 0 {
				return Arg{Kind: "bytes", Nil: true}
			}
			a := Arg{Kind: "bytes", Hex: hex.EncodeToString(g.bytes(g.length()))}
			if g.r.Intn(3) == 0 {
				a.Spare = g.r.Intn(600)
			}
			return a
		}
	case reflect.String:
		return Arg{Kind: "string", Str: g.str()}
	case reflect.Bool:
		return Arg{Kind: "bool", Int: fmt.Sprint(g.r.Intn(2))}
	case reflect.Struct:
		a := Arg{Kind: "struct"}
		for k := 0; k < t.NumField(); k++ {
			a.Fields = append(a.Fields, g.arg(-1, t.Field(k).Type))
		}
		return a
	case reflect.Ptr:
		if g.r.Intn(40) == 0 {
			return Arg{Kind: "msg", Nil: true}
		}
		v := reflect.New(t.Elem())
		if m, ok := v.Interface().(proto.Message); ok {
			g.fill(m.ProtoReflect(), 0)
			b, err := proto.Marshal(m)
			if err != nil {
				b = nil
			}
			return Arg{Kind: "msg", Hex: hex.EncodeToString(b)}
		}
		return Arg{Kind: "msg", Nil: true}
	}
	return Arg{Kind: "int", Int: fmt.Sprint(g.integer())}
}

func (g *gen) integer() int64 {
	switch g.r.Intn(9) {
	case 8:
		if len(g.consts) > 0 {
			return g.consts[g.r.Intn(len(g.consts))] + int64(g.r.Intn(3)) - 1
		}
	case 0, 1, 2:
		return int64(g.r.Intn(16))
	case 3, 4:
		return int64(g.r.Intn(300))
	case 5:
		return int64(g.r.Uint32())
	case 6:
		e := []int64{-1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 23, 1<<24 - 1, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32}
		return e[g.r.Intn(len(e))]
	}
	return int64(g.r.Uint64()) >> uint(g.r.Intn(60))
}

func (g *gen) str() string {
	n := g.r.Intn(40)
	const al = "0123456789ABCabc \x00\xff\xc3\xa9-/"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[g.r.Intn(len(al))]
	}
	return strings.ToValidUTF8(string(b), "?")
}

func (g *gen) mutate(a Arg, t reflect.Type) Arg {
	if a.Kind == "bytes" || (a.Kind == "" && t.Kind() == reflect.Slice) {
		b, _ := hex.DecodeString(a.Hex)
		b = append([]byte{}, b...)
		for k := g.r.Intn(3) + 1; k > 0; k-- {
			switch g.r.Intn(6) {
			case 0:
				if len(b) > 0 {
					b[g.r.Intn(len(b))] = byte(g.r.Intn(256))
				}
			case 1:
				if len(b) > 0 {
					b[g.r.Intn(len(b))] ^= 1 << uint(g.r.Intn(8))
				}
			case 2:
				if len(b) > 0 {
					b = b[:g.r.Intn(len(b)+1)]
				}
			case 3:
				b = append(b, g.bytes(g.r.Intn(32))...)
			case 4:
				if len(b) > 1 {
					b[g.r.Intn(len(b))] = byte(g.r.Intn(6))
				}
			case 5:
				if n := g.length(); n > len(b) {
					b = append(b, g.bytes(n-len(b))...)
				} else {
					b = b[:n]
				}
			}
		}
		a.Hex, a.Kind, a.Nil = hex.EncodeToString(b), "bytes", false
		if g.r.Intn(3) == 0 {
			a.Spare = g.r.Intn(600)
		}
		return a
	}
	if a.Kind == "msg" {
		v := reflect.New(t.Elem())
		if m, ok := v.Interface().(proto.Message); ok {
			b, _ := hex.DecodeString(a.Hex)
			if proto.Unmarshal(b, m) == nil {
				g.tweak(m.ProtoReflect())
				if b, err := proto.Marshal(m); err == nil {
					return Arg{Kind: "msg", Hex: hex.EncodeToString(b)}
				}
			}
		}
		return a
	}
	return g.arg(-1, t)
}

func (g *gen) tweak(m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	f := fs.Get(g.r.Intn(fs.Len()))
	if f.Message() != nil && !f.IsList() && m.Has(f) && g.r.Intn(3) > 0 {
		g.tweak(m.Mutable(f).Message())
		return
	}
	if g.r.Intn(4) == 0 {
		m.Clear(f)
		return
	}
	g.setField(m, f, 1)
}

func (g *gen) fill(m protoreflect.Message, depth int) {
	if depth > 6 {
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if g.r.Intn(6) == 0 {
			continue
		}
		g.setField(m, fs.Get(i), depth)
	}
}

func (g *gen) setField(m protoreflect.Message, f protoreflect.FieldDescriptor, depth int) {
	if f.IsMap() {
		return
	}
	if f.IsList() {
		m.Clear(f)
		n := g.r.Intn(4)
		if g.r.Intn(10) == 0 {
			n = g.r.Intn(300)
		}
		if f.Message() != nil && n > 8 {
			n = 8
		}
		l := m.Mutable(f).List()
		for k := 0; k < n; k++ {
			if f.Message() != nil {
				g.fill(l.AppendMutable().Message(), depth+1)
			} else {
				l.Append(g.scalar(f))
			}
		}
		return
	}
	if f.Message() != nil {
		if f.Message().FullName() == "google.protobuf.Timestamp" {
			mm := m.Mutable(f).Message()
			mm.Set(mm.Descriptor().Fields().ByName("seconds"), protoreflect.ValueOfInt64(g.integer()))
			return
		}
		g.fill(m.Mutable(f).Message(), depth+1)
		return
	}
	m.Set(f, g.scalar(f))
}

func (g *gen) scalar(f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.r.Intn(2) == 0)
	case protoreflect.EnumKind:
		vs := f.Enum().Values()
		if g.r.Intn(12) == 0 {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(g.r.Intn(300)))
		}
		return protoreflect.ValueOfEnum(vs.Get(g.r.Intn(vs.Len())).Number())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(g.str())
	case protoreflect.BytesKind:
		n := g.length()
		if n > 2000 {
			n = g.r.Intn(300)
		}
		return protoreflect.ValueOfBytes(g.bytes(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(g.integer())
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(g.integer()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(g.integer()))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(g.integer()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(g.integer()))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(g.integer()))
	}
	return f.Default()
}

var _ = filepath.Join
