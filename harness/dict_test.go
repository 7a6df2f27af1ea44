package harness

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"pgregory.net/rapid"
)

// A dictionary of the constants in the source of netscrape, as fuzzers use
// one: code that treats some value, text or size specially usually names it.
// It only steers the generators; no verdict depends on it.
var dict = readDict()

type dictionary struct {
	strs  []string        // string and character constants
	sizes []int           // integers from 9 up
	durs  []time.Duration // products with a unit of time, and the units
	nums  []float64       // all other numbers
}

// netscrapeDir is the directory the code under test was built from.
func netscrapeDir() string {
	f := runtime.FuncForPC(reflect.ValueOf(memgraph.NewWUG).Pointer())
	if f == nil {
		return ""
	}
	file, _ := f.FileLine(f.Entry())
	return strings.TrimSuffix(filepath.ToSlash(filepath.Dir(file)), "/pkg/graph/memory")
}

func readDict() *dictionary {
	d := &dictionary{}
	strs, sizes, durs, nums := map[string]bool{}, map[int]bool{}, map[time.Duration]bool{}, map[float64]bool{}
	consts := map[string]constant.Value{}
	note := func(v constant.Value) {
		switch v.Kind() {
		case constant.String:
			if s := constant.StringVal(v); len(s) < 80 {
				strs[s] = true
			}
		case constant.Int, constant.Float:
			if n, ok := constant.Int64Val(constant.ToInt(v)); ok && constant.ToInt(v).Kind() == constant.Int {
				if n > 8 && n <= 1<<24 {
					sizes[int(n)] = true
				}
				if n > 0 && n < 1<<62 && n >= int64(time.Microsecond) {
					durs[time.Duration(n)] = true
				}
			}
			if f, _ := constant.Float64Val(v); !math.IsInf(f, 0) {
				nums[f] = true
			}
		}
	}
	root := netscrapeDir()
	_ = filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() && (strings.HasPrefix(e.Name(), ".") && p != root || e.Name() == "testdata" || e.Name() == "vendor") {
			return fs.SkipDir
		}
		if e.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/internal/") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		f.Imports = nil
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				n.Tag = nil
			case *ast.ValueSpec:
				for i, id := range n.Names {
					if i < len(n.Values) {
						if v := evalConst(n.Values[i], consts); v != nil {
							consts[id.Name] = v
						}
					}
				}
			case ast.Expr:
				if v := evalConst(n, consts); v != nil {
					note(v)
				}
			}
			return true
		})
		return nil
	})
	for s := range strs {
		d.strs = append(d.strs, s)
	}
	sort.Strings(d.strs)
	for n := range sizes {
		d.sizes = append(d.sizes, n)
	}
	sort.Ints(d.sizes)
	for n := range durs {
		d.durs = append(d.durs, n)
	}
	sort.Slice(d.durs, func(i, j int) bool { return d.durs[i] < d.durs[j] })
	for n := range nums {
		d.nums = append(d.nums, n)
	}
	sort.Float64s(d.nums)
	return d
}

var timeUnits = map[string]time.Duration{"Nanosecond": 1, "Microsecond": time.Microsecond, "Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute, "Hour": time.Hour}

// evalConst is the value of a constant expression, or nil.
func evalConst(e ast.Expr, consts map[string]constant.Value) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		v = constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if e.Kind == token.CHAR {
			if n, ok := constant.Int64Val(v); ok {
				return constant.MakeString(string(rune(n)))
			}
		}
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return evalConst(e.X, consts)
	case *ast.Ident:
		return consts[e.Name]
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && x.Name == "time" {
			if u, ok := timeUnits[e.Sel.Name]; ok {
				return constant.MakeInt64(int64(u))
			}
		}
	case *ast.UnaryExpr:
		if x := evalConst(e.X, consts); x != nil && (e.Op == token.SUB || e.Op == token.ADD) {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := evalConst(e.X, consts), evalConst(e.Y, consts)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(y)
			if !ok || n > 62 {
				return nil
			}
			return constant.Shift(x, e.Op, uint(n))
		case token.ADD, token.SUB, token.MUL, token.QUO:
			op := e.Op
			if op == token.QUO && x.Kind() == constant.Int && y.Kind() == constant.Int {
				op = token.QUO_ASSIGN
			}
			return constant.BinaryOp(x, op, y)
		}
	}
	return nil
}

// drawDictStr draws a string of the dictionary, or one that contains it or
// differs from it in case.
func drawDictStr(t *rapid.T, label string) string {
	if len(dict.strs) == 0 {
		return ""
	}
	s := pick(t, label+"@", dict.strs)
	switch rapid.IntRange(0, 7).Draw(t, label+"@?") {
	case 5:
		return s + rapid.StringMatching(`[abc]{1,2}`).Draw(t, label)
	case 6:
		return rapid.StringMatching(`[abc]{1,2}`).Draw(t, label) + s
	case 7:
		return pick(t, label, []string{strings.ToUpper(s), strings.ToLower(s), s + s, " " + s, s + " "})
	}
	return s
}

// near lists the sizes given and, from the dictionary, those around its
// integers, all up to max.
func near(max int, sizes ...int) []int {
	l := append([]int(nil), sizes...)
	for _, n := range dict.sizes {
		for _, k := range []int{n - 1, n, n + 1} {
			if k <= max {
				l = append(l, k)
			}
		}
	}
	return l
}

// nearDurs lists the times given and those around the dictionary's.
func nearDurs(durs ...time.Duration) []time.Duration {
	l := append([]time.Duration(nil), durs...)
	for _, d := range dict.durs {
		l = append(l, d-time.Nanosecond, d, d+time.Nanosecond, d/2, 2*d)
	}
	return l
}

// variant draws a string that looks like s.
func variant(t *rapid.T, s string) string {
	cut := func(i, j int) string {
		if r := []rune(s); len(r) > 1 {
			return string(r[i : len(r)-j])
		}
		return s
	}
	x := pick(t, "affix", append([]string{"/", " ", "*", ".", "0", "-", "\x00", "\n", "s", "_"}, dict.strs...))
	switch rapid.IntRange(0, 8).Draw(t, "variant") {
	case 0:
		return s + x
	case 1:
		return x + s
	case 2:
		return strings.TrimSuffix(s, x)
	case 3:
		return strings.TrimPrefix(s, x)
	case 4:
		return strings.ToUpper(s)
	case 5:
		return strings.ToLower(s)
	case 6:
		return strings.TrimSpace(s)
	case 7:
		return cut(0, 1)
	default:
		return cut(1, 0)
	}
}
